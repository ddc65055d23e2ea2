//! C44: configurations
use dcspark_blockchain_source::cardano::time::Era;
use dcspark_core::{Rule, TokenId};
use deps::serde_json::{self, json, Map, Value as Json};
use indexed_log_map::config::IndexedLogMapConfig;
use multiverse::BestBlockSelectionRule;
use proptest::prelude::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use utxo_selection::algorithms::ThermostatAlgoConfig;
use vhrun::{check, check_eq, Check, Cx, Fail, OrFail, Res, Tier};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Settings {
    path: Option<String>,
    /// absent, or as given
    path_given: bool,
    indexing: Option<bool>,
    readonly: Option<bool>,
    depth: u64,
    age_gap: u64,
    asset: String,
    main: i64,
    side: i64,
    era: [u64; 5],
    accumulators: (u64, u64),
    amounts: (u64, u64),
    stray: String,
    /// which field is left out or written as something else
    field: u8,
    wrong: Json,
    as_text: bool,
}

fn read<T: DeserializeOwned>(j: &Json, as_text: bool) -> Result<T, serde_json::Error> {
    if as_text {
        serde_json::from_str(&j.to_string())
    } else {
        serde_json::from_value(j.clone())
    }
}

fn refused<T: DeserializeOwned>(j: Json, c: &Settings, what: &str) -> Res {
    check!(read::<T>(&j, c.as_text).is_err(), "{what}: {j} is accepted");
    Ok(())
}

fn object(j: &Json) -> Result<Map<String, Json>, Fail> {
    j.as_object().cloned().ok_or_else(|| Fail::new(format!("{j} is not an object")))
}

/// each field left out is refused, unless it has a default
fn without<T: DeserializeOwned>(j: &Json, c: &Settings, optional: &[&str], what: &str) -> Res {
    let o = object(j)?;
    let names: Vec<String> = o.keys().filter(|k| !optional.contains(&k.as_str())).cloned().collect();
    if names.is_empty() {
        return Ok(());
    }
    let name = &names[c.field as usize % names.len()];
    let mut less = o.clone();
    less.remove(name);
    refused::<T>(Json::Object(less), c, &format!("{what} without {name}"))?;
    let mut other = o;
    other.insert(name.clone(), c.wrong.clone());
    refused::<T>(Json::Object(other), c, &format!("{what} with {name} as something else"))
}

fn stray<T: DeserializeOwned>(j: &Json, c: &Settings, what: &str) -> Res {
    let mut o = object(j)?;
    if o.contains_key(&c.stray) {
        return Ok(());
    }
    o.insert(c.stray.clone(), c.wrong.clone());
    refused::<T>(Json::Object(o), c, &format!("{what} with a stray field"))
}

fn path_of(c: &IndexedLogMapConfig) -> Option<String> {
    c.storage_path.as_ref().map(|p| p.to_str().unwrap_or("(not text)").to_string())
}

pub struct C44;
impl Check for C44 {
    type Case = Settings;
    const ID: &'static str = "C44";
    const RULE: &'static str = "A case is a value of each configuration (any path, flags given or left out, 64-bit numbers), one field to leave out or write as something else, and a stray field. Each is read from JSON (as text or as a value), compared by field, written, compared with the JSON expected, and read again. Non-trivial: some flag is left out, or a number is beyond 32 bits.";
    fn strategy(_: Tier) -> BoxedStrategy<Settings> {
        let number = || prop_oneof![0u64..100, any::<u64>(), (0u32..64).prop_map(|n| 1u64 << n), (0u32..64).prop_map(|n| (1u64 << n) - 1), Just(u64::MAX)];
        let signed = || prop_oneof![-30i64..31, any::<i64>(), Just(i64::MIN), Just(i64::MAX)];
        (
            (prop::option::of(prop_oneof!["(/[a-z0-9._-]{0,8}){0,5}/?", "\\PC{0,12}", "[a-z .\\\\\"]{0,8}"]), any::<bool>(), any::<Option<bool>>(), any::<Option<bool>>()),
            (number(), number(), prop_oneof!["[0-9a-f]{0,64}", "0{64}", "\\PC{0,10}"], signed(), signed()),
            (prop::array::uniform5(number()), (number(), number()), (number(), number())),
            (
                prop_oneof!["[a-z_]{0,10}", "(storagePath|useKeyIndexing|read_only|Readonly|readonly |num_accumulator|ageGap|main_tokens)", "\\PC{0,6}"],
                any::<u8>(),
                prop_oneof![
                    Just(json!({})),
                    Just(json!([[]])),
                    any::<bool>().prop_map(|b| json!([b, { "a": b }])),
                    Just(json!({ "rule": "LongestChain" })),
                ],
                any::<bool>(),
            ),
        )
            .prop_map(|((path, path_given, indexing, readonly), (depth, age_gap, asset, main, side), (era, accumulators, amounts), (stray, field, wrong, as_text))| Settings {
                path,
                path_given,
                indexing,
                readonly,
                depth,
                age_gap,
                asset,
                main,
                side,
                era,
                accumulators,
                amounts,
                stray,
                field,
                wrong,
                as_text,
            })
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(300_000, 4_000_000)
    }
    fn run(c: &Settings, cx: &mut Cx) -> Res {
        let numbers = c.era.iter().chain([&c.depth, &c.age_gap, &c.accumulators.0, &c.accumulators.1]).any(|n| *n > u32::MAX as u64);
        cx.nontrivial_if(numbers || c.indexing.is_none() || c.readonly.is_none());

        // the keyed log
        let mut o = Map::new();
        if let Some(p) = &c.path {
            o.insert("storage_path".into(), json!(p));
        } else if c.path_given {
            o.insert("storage_path".into(), Json::Null);
        }
        for (name, flag) in [("use_key_indexing", c.indexing), ("readonly", c.readonly)] {
            if let Some(b) = flag {
                o.insert(name.into(), json!(b));
            }
        }
        let j = Json::Object(o);
        let what = "configuration of a keyed log";
        let full = json!({ "storage_path": c.path, "use_key_indexing": c.indexing.unwrap_or(false), "readonly": c.readonly.unwrap_or(false) });
        let mut x: IndexedLogMapConfig = read(&j, c.as_text).or_fail(what)?;
        for again in [false, true] {
            check_eq!(path_of(&x), c.path, "{what} {j}: path (read again: {again})");
            check_eq!(x.use_key_indexing, c.indexing.unwrap_or(false), "{what} {j}: indexing (read again: {again})");
            check_eq!(x.readonly, c.readonly.unwrap_or(false), "{what} {j}: read-only (read again: {again})");
            let w = serde_json::to_value(&x).or_fail(what)?;
            check_eq!(w, full, "{what} written");
            x = read(&w, c.as_text).or_fail(what)?;
        }
        stray::<IndexedLogMapConfig>(&j, c, what)?;

        // the rule for the best block
        let what = "rule for the best block";
        let (depth, age_gap) = (c.depth as usize, c.age_gap as usize);
        let j = json!({ "rule": "LongestChain", "depth": depth, "age_gap": age_gap });
        let rule = BestBlockSelectionRule::LongestChain { depth, age_gap };
        check_eq!(serde_json::to_value(rule).or_fail(what)?, j, "{what} written");
        check_eq!(read::<BestBlockSelectionRule>(&j, c.as_text).or_fail(what)?, rule, "{what} {j} read");
        check_eq!(read::<BestBlockSelectionRule>(&json!({ "age_gap": age_gap, "depth": depth, "rule": "LongestChain" }), true).or_fail(what)?, rule, "{what} {j} in another order");
        without::<BestBlockSelectionRule>(&j, c, &[], what)?;
        refused::<BestBlockSelectionRule>(json!({ "rule": c.stray, "depth": depth, "age_gap": age_gap }), c, what)?;

        // the rule for a token's decimals
        let what = "rule for a token";
        let j = json!({ "asset": c.asset, "mainchain_decimal_precision": c.main, "sidechain_decimal_precision": c.side });
        let mut x: Rule = read(&j, c.as_text).or_fail(what)?;
        for _ in 0..2 {
            check_eq!(x.asset, TokenId::new(c.asset.clone()), "{what} {j}: asset");
            check_eq!((x.mainchain_decimal_precision, x.sidechain_decimal_precision), (c.main, c.side), "{what} {j}: decimals");
            let w = serde_json::to_value(&x).or_fail(what)?;
            check_eq!(w, j, "{what} written");
            x = read(&w, c.as_text).or_fail(what)?;
        }
        without::<Rule>(&j, c, &[], what)?;

        // an era
        let what = "era";
        let e = c.era;
        let j = json!({ "first_slot": e[0], "start_epoch": e[1], "known_time": e[2], "slot_length": e[3], "epoch_length_seconds": e[4] });
        let x: Era = read(&j, c.as_text).or_fail(what)?;
        check_eq!([x.first_slot, x.start_epoch, x.known_time, x.slot_length, x.epoch_length_seconds], e, "{what} {j} read");
        without::<Era>(&j, c, &[], what)?;

        // the thermostat: what its numbers do is decided by C29
        let what = "configuration of the thermostat";
        let j = json!({
            "num_accumulators": c.accumulators.0,
            "num_accumulators_assets": c.accumulators.1,
            "native_utxo_thermostat_min": c.amounts.0.to_string(),
            "native_utxo_thermostat_max": c.amounts.1.to_string(),
            "main_token": c.asset,
        });
        read::<ThermostatAlgoConfig>(&j, c.as_text).or_fail(what)?;
        stray::<ThermostatAlgoConfig>(&j, c, what)?;
        without::<ThermostatAlgoConfig>(&j, c, &[], what)
    }
}
