//! C41: cip1852-first-address
use crate::run::{run, tool};
use ed25519_bip32::{DerivationScheme, XPrv};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value as Json};
use vhrun::{check, check_eq, Check, Cx, OrFail, Res, Tier};

/// what is wrong with the key's text
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Key {
    Fine,
    Upper,
    Cut(u8),
    Longer(u8),
    NoHex(u8, char),
    Prefixed,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Answer {
    Refused,
    Broken,
    /// the right answer with another status
    Status(u16),
    Text(String),
    /// a field taken out
    Without(u8),
    Fine,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    seed: [u64; 4],
    key: Key,
    network: String,
    short: bool,
    order: bool,
    latest: Answer,
    numbers: [u64; 4],
    hash: String,
    used: Answer,
    /// in use, by how many addresses listed
    listed: u8,
    extra: bool,
}

fn private(seed: &[u64; 4]) -> XPrv {
    let mut b = [0u8; 96];
    let mut x = 0x9e3779b97f4a7c15u64;
    for (i, c) in b.chunks_mut(8).enumerate() {
        x = (x ^ seed[i % 4]).wrapping_mul(0xbf58476d1ce4e5b9);
        x ^= x >> 29;
        c.copy_from_slice(&x.to_le_bytes());
    }
    XPrv::normalize_bytes_force3rd(b)
}

fn hash28(b: &[u8]) -> [u8; 28] {
    let mut out = [0; 28];
    cryptoxide::hashing::blake2b::Blake2b::<224>::new().update(b).finalize_at(&mut out);
    out
}

/// base address of the keys 0/0 and 2/0 below the account's
pub fn first_address(account: &XPrv, network: u8) -> String {
    use bech32::ToBase32;
    let key = |role: u32| {
        let k = account.derive(DerivationScheme::V2, role).derive(DerivationScheme::V2, 0);
        hash28(&k.public().public_key())
    };
    let mut raw = vec![network];
    raw.extend(key(0));
    raw.extend(key(2));
    let prefix = if network == 1 { "addr" } else { "addr_test" };
    bech32::encode(prefix, raw.to_base32(), bech32::Variant::Bech32).unwrap()
}

fn answer(faults: u32) -> impl Strategy<Value = Answer> {
    prop_oneof![
        14 => Just(Answer::Fine),
        faults => Just(Answer::Refused),
        faults => Just(Answer::Broken),
        faults => prop_oneof![Just(400u16), Just(404), Just(500), Just(503), Just(300), 400u16..600].prop_map(Answer::Status),
        faults => prop_oneof![Just(""), Just("null"), Just("[]"), Just("{}"), Just("{\"addresses\":"), Just("<html>"), Just("{\"addresses\":\"\"}"), Just("{\"block\":[]}")].prop_map(|s| Answer::Text(s.into())),
        faults => any::<u8>().prop_map(Answer::Without),
    ]
}

pub struct C41;
impl Check for C41 {
    type Case = Case;
    const ID: &'static str = "C41";
    const RULE: &'static str = "A case is an account's key, perhaps written wrongly, a network's name, and the backend's answers to both requests, perhaps missing, of another status, unreadable or without a field; cip1852-first-address is run on it (over a stand-in for reqwest that records requests and plays answers), and its requests, output and exit are compared with what follows from the private key's derivation and the answers. Non-trivial: the address is asked for.";
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        (
            (any::<[u64; 4]>(), any::<[u64; 4]>(), "[0-9a-f]{64}"),
            prop_oneof![
                12 => Just(Key::Fine),
                2 => Just(Key::Upper),
                1 => (1u8..6).prop_map(Key::Cut),
                1 => (1u8..6).prop_map(Key::Longer),
                1 => (0u8..128, prop_oneof![Just('g'), Just('G'), Just('x'), Just(' '), Just('-')]).prop_map(|(i, c)| Key::NoHex(i, c)),
                1 => Just(Key::Prefixed),
            ],
            prop_oneof![
                8 => Just("mainnet".to_string()),
                8 => Just("testnet".to_string()),
                1 => prop_oneof![Just("Mainnet"), Just("main"), Just("preprod"), Just("mainnet "), Just("TESTNET"), Just("0"), Just("1")].prop_map(String::from),
            ],
            any::<[bool; 3]>(),
            answer(1),
            answer(1),
            prop_oneof![2 => Just(0u8), 2 => Just(1u8), 1 => 0u8..5],
        )
            .prop_map(|((seed, numbers, hash), key, network, [short, order, extra], latest, used, listed)| Case {
                seed, key, network, short, order, latest, numbers, hash, used, listed, extra,
            })
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(30_000, 150_000)
    }
    fn run(c: &Case, cx: &mut Cx) -> Res {
        let account = private(&c.seed);
        let public = account.public();
        let mut text = hex::encode(public.as_ref());
        let mut fine = true;
        match &c.key {
            Key::Fine => {}
            Key::Upper => text = text.to_uppercase(),
            wrong => {
                fine = false;
                match wrong {
                    Key::Cut(n) => text.truncate(128 - *n as usize),
                    Key::Longer(n) => text.push_str(&"0".repeat(*n as usize)),
                    Key::NoHex(i, x) => text.replace_range(*i as usize..*i as usize + 1, &x.to_string()),
                    _ => text.insert_str(0, "0x"),
                }
            }
        }
        let network = match c.network.as_str() {
            "mainnet" => Some(1),
            "testnet" => Some(0),
            _ => None,
        };
        // the backend
        let mut block = json!({"era": c.numbers[0], "hash": c.hash, "height": c.numbers[1], "epoch": c.numbers[2], "slot": c.numbers[3]});
        if c.extra {
            block["more"] = json!([1, {"a": null}]);
        }
        if let Answer::Without(n) = c.latest {
            block.as_object_mut().unwrap().remove(["era", "hash", "height", "epoch", "slot"][n as usize % 5]);
        }
        let address = first_address(&account, network.unwrap_or(0));
        let mut listing = json!({"addresses": (0..c.listed).map(|i| if i == 0 { address.clone() } else { format!("addr1{i}") }).collect::<Vec<_>>()});
        if c.extra {
            listing["block"] = json!({"hash": "00"});
        }
        if let Answer::Without(_) = c.used {
            listing.as_object_mut().unwrap().remove("addresses");
        }
        let line = |a: &Answer, j: &Json| match a {
            Answer::Refused => Json::Null,
            Answer::Broken => json!({"status": 200, "body": "", "broken": true}),
            Answer::Status(s) => json!({"status": s, "body": j.to_string()}),
            Answer::Text(t) => json!({"status": 200, "body": t}),
            _ => json!({"status": 200, "body": j.to_string()}),
        };
        // an error's answer to the first request is not the block
        let latest = match &c.latest {
            Answer::Status(s) => json!({"status": s, "body": "{\"error\":\"none\"}"}),
            a => line(a, &json!({"block": block})),
        };
        let dir = cx.dir();
        let (log, answers) = (dir.join("log"), dir.join("answers"));
        std::fs::write(&answers, format!("{latest}\n{}\n", line(&c.used, &listing))).or_fail("write")?;
        let mut args = [
            [if c.short { "-p" } else { "--public-key" }, text.as_str()],
            [if c.short { "-n" } else { "--network" }, c.network.as_str()],
        ];
        if c.order {
            args.reverse();
        }
        let mut cmd = tool("cip1852-first-address");
        cmd.env("VH_HTTP_LOG", &log).env("VH_HTTP_ANSWERS", &answers).args(args.concat());
        let got = run(cmd)?;
        let asked: Vec<Json> = match std::fs::read_to_string(&log) {
            Ok(t) => t.lines().map(|l| serde_json::from_str(l).unwrap()).collect(),
            Err(_) => vec![],
        };
        let out: Vec<&str> = got.out.lines().map(|l| l.trim()).filter(|l| !l.is_empty()).collect();
        let result = out.iter().position(|l| *l == "used" || *l == "unused").map(|i| out[i]);
        let Some(network) = network.filter(|_| fine) else {
            check!(!got.status.success(), "{text:?} on {:?}: taken, printed {}", c.network, got.out);
            check!(asked.is_empty(), "{text:?} on {:?}: asked {asked:?}", c.network);
            check_eq!(result, None, "result of {text:?} on {:?}", c.network);
            cx.label(if fine { "malformed network" } else { "malformed key" });
            return Ok(());
        };
        cx.nontrivial();
        let name = if network == 1 { "mainnet" } else { "testnet" };
        check!(out.contains(&address.as_str()), "printed {}, the address is {address}", got.out);
        check!(!asked.is_empty(), "nothing was asked");
        let request = |i: usize, path: &str, body: Json| -> Res {
            let a = &asked[i];
            check_eq!(a["method"], json!("POST"), "request {i}");
            check_eq!(a["url"], json!(format!("https://gate.flint-wallet.com/{name}/carp{path}")), "request {i}");
            check_eq!(serde_json::from_str::<Json>(a["body"].as_str().unwrap()).ok(), Some(body), "request {i}");
            let kind = json!(["content-type", "application/json"]);
            check!(a["headers"].as_array().unwrap().contains(&kind), "request {i}: headers {}", a["headers"]);
            Ok(())
        };
        request(0, "/block/latest", json!({"offset": 0}))?;
        if !matches!(c.latest, Answer::Fine) {
            check!(!got.status.success(), "latest block {latest}: exit {}, printed {}", got.status, got.out);
            check_eq!(asked.len(), 1, "requests without a latest block");
            check_eq!(result, None, "result without a latest block");
            cx.label("no latest block");
            return Ok(());
        }
        check_eq!(asked.len(), 2, "requests");
        request(1, "/address/used", json!({"addresses": [address], "untilBlock": c.hash}))?;
        if !matches!(c.used, Answer::Fine) {
            check!(!got.status.success(), "answer {:?}: exit {}, printed {}", c.used, got.status, got.out);
            check_eq!(result, None, "result without an answer");
            cx.label("no answer");
            return Ok(());
        }
        check!(got.status.success(), "exit {}: {}", got.status, got.err);
        check_eq!(result, Some(if c.listed > 0 { "used" } else { "unused" }), "result");
        cx.label(if c.listed > 0 { "used" } else { "unused" });
        Ok(())
    }
}
