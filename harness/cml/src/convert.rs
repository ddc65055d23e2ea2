//! C38: outputs as Cardano transactions have them
use crate::fees::{plan, Plan};
use crate::gen::*;
use cardano_multiplatform_lib as cml;
use cardano_utils::payment_credentials::CardanoPaymentCredentials;
use cardano_utils::utxo::*;
use cml::builders::input_builder::Witness;
use cml::builders::witness_builder::{NativeScriptWitnessInfo, PartialPlutusWitness};
use cml::crypto::*;
use cml::plutus::*;
use cml::*;
use dcspark_core::tx::{TransactionAsset, UTxOBuilder};
use dcspark_core::{Address, Value};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use vhrun::{check, check_eq, Check, Cx, Fail, OrFail, Res, Tier};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Creds {
    Key,
    Native,
    Plutus(Vec<u8>, Vec<u32>),
}
/// what is put wrong
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Wrong {
    No,
    /// text of the transaction, the address, a policy or a name: cut or put off by so much
    Tx(i8),
    Address(u8),
    Policy(i8),
    Name(bool),
    Quantity,
    Value,
    Extra(String),
    /// the script of another plan
    Script,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Held {
    tx: u32,
    index: u64,
    addr: Addr,
    plan: Plan,
    creds: Creds,
    holding: Holding,
    /// how the amounts are written
    scales: Vec<i8>,
    /// an asset listed in parts
    twice: Option<(u8, u64)>,
    datum: Option<DatumSpec>,
    /// 0 none, 1 native, 2 plutus
    script_ref: u8,
    extra: bool,
    wrong: Wrong,
}

impl Held {
    fn payment(&self) -> Vec<u8> {
        match self.creds {
            Creds::Native => self.plan.hash(),
            _ => bytes(self.addr.payment, 28),
        }
    }
    fn script_ref(&self) -> Option<ScriptRef> {
        match self.script_ref {
            0 => None,
            1 => Some(ScriptRef::Native(NativeScript::new_script_pubkey(&ScriptPubkey::new(&key(7))))),
            _ => Some(ScriptRef::PlutusV2(vec![1, 2, 3])),
        }
    }
    /// what the ledger has for it
    fn ledger(&self) -> TransactionOutput {
        let address = address::Address::from_bytes(self.addr.raw(&self.payment())).unwrap();
        let mut o = ledger_output(&address, &self.holding);
        if self.extra {
            if let Some(d) = &self.datum {
                o.set_datum(&d.cml());
            }
            if let Some(s) = self.script_ref() {
                o.set_script_ref(&s);
            }
        }
        o
    }
    fn assets(&self) -> Vec<TransactionAsset> {
        let scale = |i: usize| self.scales.get(i).copied().unwrap_or(0);
        let mut v: Vec<TransactionAsset> = self
            .holding
            .1
            .iter()
            .enumerate()
            .map(|(i, (t, q))| t.asset(written(*q, scale(i + 1))))
            .collect();
        if let (Some((at, part)), false) = (self.twice, v.is_empty()) {
            let at = at as usize % v.len();
            let (t, q) = &self.holding.1[at];
            if *q > 1 {
                let part = 1 + part % (q - 1);
                v[at].quantity = big((q - part) as u128);
                v.push(t.asset(big(part as u128)));
            }
        }
        v
    }
    fn credentials(&self) -> CardanoPaymentCredentials {
        match &self.creds {
            Creds::Key => CardanoPaymentCredentials::PaymentKey,
            Creds::Native => {
                let mut p = self.plan.clone();
                if self.wrong == Wrong::Script {
                    p.keys.push(5000);
                }
                CardanoPaymentCredentials::NativeScript {
                    native_script: p.plan().to_script().get(0),
                    witness_info: NativeScriptWitnessInfo::num_signatures(p.quorum),
                }
            }
            Creds::Plutus(s, keys) => {
                let mut signers = RequiredSigners::new();
                keys.iter().for_each(|k| signers.add(&key(*k)));
                CardanoPaymentCredentials::PlutusScript {
                    partial_witness: PartialPlutusWitness::of_script(s.clone()),
                    required_signers: signers,
                    datum: PlutusData::new_bytes(s.clone()),
                }
            }
        }
    }
}

fn listed(assets: &[TransactionAsset], what: &str) -> Result<BTreeMap<(String, String, String), String>, Fail> {
    let mut m = BTreeMap::new();
    for a in assets {
        let k = (a.policy_id.to_string(), a.asset_name.to_string(), a.fingerprint.to_string());
        check!(m.insert(k, a.quantity.to_string()).is_none(), "{what}: {} twice", a.fingerprint);
    }
    Ok(m)
}

pub struct C38;
impl Check for C38 {
    type Case = Held;
    const ID: &'static str = "C38";
    const RULE: &'static str = "A case is an output with up to 6 tokens, amounts written with any scale, a token perhaps listed in parts, with or without datum and script, held by a key, a native or a Plutus script, converted to the ledger's form and back as an input and as an output to be made; or one with something malformed. Non-trivial: it holds tokens.";
    fn strategy(_: Tier) -> BoxedStrategy<Held> {
        let creds = prop_oneof![
            3 => Just(Creds::Key),
            3 => Just(Creds::Native),
            1 => (prop::collection::vec(any::<u8>(), 0..40), prop::collection::vec(0u32..9, 0..4)).prop_map(|(s, k)| Creds::Plutus(s, k)),
        ];
        let wrong = prop_oneof![
            12 => Just(Wrong::No),
            1 => prop_oneof![Just(-2i8), Just(-1), Just(0), Just(1), Just(2)].prop_map(Wrong::Tx),
            1 => any::<u8>().prop_map(Wrong::Address),
            1 => prop_oneof![Just(-2i8), Just(-1), Just(0), Just(1), Just(2)].prop_map(Wrong::Policy),
            1 => any::<bool>().prop_map(Wrong::Name),
            1 => Just(Wrong::Quantity),
            1 => Just(Wrong::Value),
            1 => prop_oneof![Just(""), Just("{"), Just("7"), Just("\"x\""), Just("{\"datum\":3}")].prop_map(|s| Wrong::Extra(s.to_string())),
            1 => Just(Wrong::Script),
        ];
        (
            (any::<u32>(), prop_oneof![0u64..3, 0u64..70_000, any::<u64>()], addr(), plan(), creds),
            holding(6),
            prop::collection::vec(prop_oneof![3 => Just(0i8), 1 => -12i8..19], 7),
            prop::option::weighted(0.2, (any::<u8>(), any::<u64>())),
            crate::fees::datum(),
            0u8..3,
            prop::bool::weighted(0.7),
            wrong,
        )
            .prop_map(|((tx, index, mut addr, plan, creds), holding, scales, twice, datum, script_ref, extra, wrong)| {
                let twice = twice.filter(|_| wrong == Wrong::No);
                addr.script = !matches!(creds, Creds::Key);
                Held { tx, index, addr, plan, creds, holding, scales, twice, datum, script_ref, extra, wrong }
            })
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(400_000, 8_000_000)
    }
    fn run(c: &Held, cx: &mut Cx) -> Res {
        let text = bech(&c.addr.raw(&c.payment()), c.addr.network);
        let mut u = utxo(c.tx, c.index, &text, &c.holding);
        u.value = written(c.holding.0, c.scales[0]);
        u.assets = c.assets();
        if c.extra {
            u.extra = Some(serde_json::json!({"script_ref": c.script_ref(), "datum": c.datum.as_ref().map(|d| d.cml())}).to_string());
        }
        let creds = c.credentials();
        let ledger = c.ledger();
        let input = TransactionInput::new(&TransactionHash::from_bytes(bytes(c.tx, 32)).unwrap(), &c.index.into());
        if c.wrong != Wrong::No {
            let to_make = !matches!(c.wrong, Wrong::Tx(_) | Wrong::Script);
            let resize = |s: String, by: i8| match by {
                0 => format!("x{}", &s[1..]),
                b if b < 0 => s[..s.len() - b.unsigned_abs() as usize].to_string(),
                b => format!("{s}{}", "0".repeat(b as usize)),
            };
            match &c.wrong {
                Wrong::Tx(by) => u.pointer.transaction_id = dcspark_core::tx::TransactionId::new(resize(u.pointer.transaction_id.to_string(), *by)),
                Wrong::Address(at) => {
                    let mut b = text.clone().into_bytes();
                    let at = *at as usize % b.len();
                    b[at] = if b[at] == b'q' { b'p' } else { b'q' };
                    u.address = Address::new(String::from_utf8(b).unwrap());
                }
                Wrong::Value => u.value = Value::new(u.value.raw().clone() + deps::bigdecimal::BigDecimal::from(u64::MAX)) + big(1),
                Wrong::Extra(s) => u.extra = Some(s.clone()),
                Wrong::Script => {
                    if !matches!(c.creds, Creds::Native) {
                        return Ok(());
                    }
                }
                w => {
                    let Some(a) = u.assets.last_mut() else { return Ok(()) };
                    match w {
                        Wrong::Policy(by) => a.policy_id = dcspark_core::PolicyId::new(resize(a.policy_id.to_string(), *by)),
                        Wrong::Name(long) => {
                            a.asset_name = dcspark_core::AssetName::new(if *long { "00".repeat(33) } else { format!("{}0", a.asset_name) })
                        }
                        _ => a.quantity += big(u64::MAX as u128),
                    }
                }
            }
            let r = utxo_details_to_cml_input(&u, &creds);
            check!(r.is_err(), "{:?}: taken as an input: {r:?}", c.wrong);
            if to_make {
                let r = utxo_builder_to_cml_output(&UTxOBuilder { address: u.address, value: u.value, assets: u.assets, extra: u.extra });
                check!(r.is_err(), "{:?}: taken as an output: {r:?}", c.wrong);
            }
            cx.label("malformed");
            return Ok(());
        }
        cx.nontrivial_if(!c.holding.1.is_empty());
        if u.assets.len() > c.holding.1.len() {
            cx.label("a token in parts");
        }
        // as an input
        let i = utxo_details_to_cml_input(&u, &creds).or_fail("utxo_details_to_cml_input")?;
        check_eq!(i.input, input, "pointer");
        check_eq!(i.utxo_info, ledger, "output");
        let w = match &creds {
            CardanoPaymentCredentials::PaymentKey => Witness::Key(bytes(c.addr.payment, 28)),
            CardanoPaymentCredentials::NativeScript { native_script, witness_info } => Witness::Native(native_script.clone(), witness_info.clone()),
            CardanoPaymentCredentials::PlutusScript { partial_witness, required_signers, datum } => {
                Witness::Plutus(partial_witness.clone(), required_signers.clone(), datum.clone())
            }
        };
        check_eq!(i.witness, w, "witness");
        // as an output to be made
        let b = UTxOBuilder { address: u.address.clone(), value: u.value.clone(), assets: u.assets.clone(), extra: u.extra.clone() };
        check_eq!(utxo_builder_to_cml_output(&b).or_fail("utxo_builder_to_cml_output")?, ledger, "output to be made");
        // and back
        let want: BTreeMap<_, _> = c
            .holding
            .1
            .iter()
            .map(|(t, q)| ((hex::encode(t.policy()), hex::encode(&t.name), t.id().to_string()), q.to_string()))
            .collect();
        let back = utxo_details_from_io((input, ledger.clone())).or_fail("utxo_details_from_io")?;
        check_eq!(back.pointer, u.pointer, "pointer back");
        check_eq!((back.address.to_string(), back.value.to_string()), (text.clone(), c.holding.0.to_string()), "address and amount back");
        check_eq!(listed(&back.assets, "back")?, want, "tokens back");
        let made = utxo_builder_from_output(ledger.clone()).or_fail("utxo_builder_from_output")?;
        check_eq!((made.address.to_string(), made.value.to_string()), (text, c.holding.0.to_string()), "address and amount of an output");
        check_eq!(listed(&made.assets, "output")?, want, "tokens of an output");
        // there and back again
        check_eq!(utxo_builder_to_cml_output(&made).or_fail("again")?, ledger, "output again");
        let again = utxo_details_to_cml_input(&back, &creds).or_fail("again")?;
        check_eq!(again.utxo_info, ledger, "input again");
        check_eq!(again.input, i.input, "pointer again");
        Ok(())
    }
}
