//! C05-C09: numbers, UTxO store, transaction JSON, asset fingerprints
use crate::dec::*;
use dcspark_core::tx::*;
use dcspark_core::{
    Address, AssetName, BlockNumber, OutputIndex, PolicyId, Regulated, SlotNumber, Timestamp,
    TokenId, UTxOStore, UTxOStoreMut, Value,
};
use deps::serde_json;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use vhrun::{check, check_eq, pick, Check, Cx, Fail, OrFail, Res, Tier};

// ---------------------------------------------------------------------------------------------
pub struct C05;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Nums {
    a: u64,
    b: u64,
    text: String,
    width: u8,
}

fn near() -> impl Strategy<Value = u64> {
    prop_oneof![
        any::<u64>(),
        0u64..10,
        (0u64..10).prop_map(|x| u64::MAX - x),
        (0u32..64, -2i64..=2).prop_map(|(s, d)| (1u64 << s).wrapping_add(d as u64)),
    ]
}

impl Check for C05 {
    type Case = Nums;
    const ID: &'static str = "C05";
    const RULE: &'static str = "A case is two u64 (uniform, near 0, near u64::MAX, near powers of two), a digit-like text and a format width; block, slot, output-index and timestamp numbers are compared with plain u64 arithmetic, formatting, parsing and JSON. Non-trivial: a + b overflows, a < b, or the text parses.";
    fn strategy(_: Tier) -> BoxedStrategy<Nums> {
        (
            near(),
            near(),
            prop_oneof![
                "[0-9]{1,21}",
                "[+-]?[0-9]{0,4}[ _.a-f]?",
                any::<u64>().prop_map(|x| x.to_string()),
                any::<u64>().prop_map(|x| (x as u128 + u64::MAX as u128).to_string()),
                "\\PC{0,6}"
            ],
            0u8..30,
        )
            .prop_map(|(a, b, text, width)| Nums { a, b, text, width })
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(1_500_000, 15_000_000)
    }
    fn run(c: &Nums, cx: &mut Cx) -> Res {
        let (a, b) = (c.a, c.b);
        cx.nontrivial_if(a.checked_add(b).is_none() || a < b || c.text.parse::<u64>().is_ok());
        if a.checked_add(b).is_none() {
            cx.label("overflow");
        }
        let w = c.width as usize;
        macro_rules! common {
            ($T:ident) => {{
                let n = stringify!($T);
                let (x, y) = ($T::new(a), $T::new(b));
                check_eq!(u64::from(x), a, "{n} into u64");
                check_eq!($T::from(a), x, "{n} from u64");
                check_eq!(x.cmp(&y), a.cmp(&b), "{n} order");
                check_eq!(x == y, a == b, "{n} eq");
                check_eq!(u64::from($T::MAX), u64::MAX, "{n}::MAX");
                check_eq!(u64::from($T::MIN), 0, "{n}::MIN");
                check_eq!(u64::from($T::default()), 0, "{n} default");
                check_eq!(x.to_string(), a.to_string(), "{n} display");
                check_eq!(format!("{x:>w$}|{x:<w$}|{x:0w$}|{x:+}"), format!("{a:>w$}|{a:<w$}|{a:0w$}|{a:+}"), "{n} padded display");
                check_eq!(x.to_string().parse::<$T>().ok(), Some(x), "{n} parse of display");
                check_eq!(c.text.parse::<$T>().ok().map(u64::from), c.text.parse::<u64>().ok(), "{n} parse of {:?}", c.text);
                let j = serde_json::to_string(&x).or_fail(n)?;
                check_eq!(j, a.to_string(), "{n} as JSON");
                check_eq!(serde_json::from_str::<$T>(&j).ok(), Some(x), "{n} from JSON number");
            }};
        }
        macro_rules! arith {
            ($T:ident) => {{
                let n = stringify!($T);
                let x = $T::new(a);
                check_eq!(x.checked_add(b).map(u64::from), a.checked_add(b), "{n} checked_add");
                check_eq!(u64::from(x.saturating_add(b)), a.saturating_add(b), "{n} saturating_add");
                check_eq!(x.checked_next().map(u64::from), a.checked_add(1), "{n} checked_next");
                check_eq!(u64::from(x.saturating_next()), a.saturating_add(1), "{n} saturating_next");
                check_eq!(format!("{x:x} {x:X} {x:#x} {x:#X} {x:0w$x}"), format!("{a:x} {a:X} {a:#x} {a:#X} {a:0w$x}"), "{n} hex");
                check_eq!(format!("{x:o} {x:#o} {x:b} {x:#b}"), format!("{a:o} {a:#o} {a:b} {a:#b}"), "{n} octal and binary");
                check_eq!(format!("{x:e} {x:E}"), format!("{a:e} {a:E}"), "{n} exponent");
            }};
        }
        macro_rules! lenient {
            ($T:ident) => {{
                // these also read a JSON string of digits
                let n = stringify!($T);
                let j = serde_json::to_string(&c.text).or_fail(n)?;
                check_eq!(serde_json::from_str::<$T>(&j).ok().map(u64::from), c.text.parse::<u64>().ok(), "{n} from JSON string {j}");
                let j = format!("\"{a}\"");
                check_eq!(serde_json::from_str::<$T>(&j).ok().map(u64::from), Some(a), "{n} from JSON string {j}");
                check!(serde_json::from_str::<$T>("-1").is_err(), "{n} from a negative JSON number");
            }};
        }
        common!(BlockNumber);
        common!(SlotNumber);
        common!(OutputIndex);
        common!(Timestamp);
        arith!(BlockNumber);
        arith!(SlotNumber);
        arith!(OutputIndex);
        lenient!(BlockNumber);
        lenient!(SlotNumber);
        lenient!(Timestamp);
        check_eq!(u64::from(BlockNumber::new(a).saturating_sub(b)), a.saturating_sub(b), "saturating_sub");
        check_eq!(BlockNumber::new(a).into_inner(), a, "into_inner");
        check_eq!(Timestamp::new(a).into_inner(), a, "into_inner");
        if a < 1 << 40 {
            let t = Timestamp::new(a).into_unix_time();
            check_eq!(t.duration_since(std::time::UNIX_EPOCH).ok().map(|d| (d.as_secs(), d.subsec_nanos())), Some((a, 0)), "unix time");
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// UTxO store

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum SOp {
    /// pointer, amount, assets (token index -> quantity), which names go with the token
    Insert { tx: u8, ix: u8, value: Rep, assets: BTreeMap<u8, Rep>, alias: u8 },
    /// insert under a pointer that is (if any is) in the store
    InsertAgain { at: usize, value: Rep, assets: BTreeMap<u8, Rep> },
    Remove { at: usize },
    RemoveAny { tx: u8, ix: u8 },
    /// so many under one transaction, in these amounts, of these tokens
    Many { n: u16, values: Vec<Rep>, assets: BTreeMap<u8, Rep> },
    /// all that are listed in this stretch
    RemoveMany { from: usize, n: u16 },
    /// freeze, remember the snapshot, go on from it
    Freeze,
    /// go on from an earlier snapshot
    Resume { at: usize },
}

fn amount() -> impl Strategy<Value = Rep> {
    prop_oneof![
        4 => (0u64..6).prop_map(|x| Rep { m: x.to_string(), s: 0 }),
        2 => (0u64..60).prop_map(|x| Rep { m: x.to_string(), s: 1 }),
        2 => any::<u64>().prop_map(|x| Rep { m: x.to_string(), s: 0 }),
        1 => (0u64..6).prop_map(|x| Rep { m: format!("{x}000"), s: 3 }),
        1 => rep(-3, 18),
    ]
}

fn assets() -> impl Strategy<Value = BTreeMap<u8, Rep>> {
    prop::collection::btree_map(0u8..5, amount(), 0..4)
}

fn sops(max: usize, branching: bool) -> BoxedStrategy<Vec<SOp>> {
    // now and then many at once
    prop_oneof![60 => some_ops(max, branching, 0), 1 => some_ops(max / 2, branching, 3)].boxed()
}

fn some_ops(max: usize, branching: bool, rare: u32) -> BoxedStrategy<Vec<SOp>> {
    let op = prop_oneof![
        8 => (0u8..4, 0u8..6, amount(), assets(), 0u8..4).prop_map(|(tx, ix, value, assets, alias)| SOp::Insert { tx, ix, value, assets, alias }),
        1 => (any::<usize>(), amount(), assets()).prop_map(|(at, value, assets)| SOp::InsertAgain { at, value, assets }),
        5 => any::<usize>().prop_map(|at| SOp::Remove { at }),
        1 => (0u8..5, 0u8..7).prop_map(|(tx, ix)| SOp::RemoveAny { tx, ix }),
        rare => (prop_oneof![1u16..40, 30u16..400], prop::collection::vec(amount(), 1..4), assets())
            .prop_map(|(n, values, assets)| SOp::Many { n, values, assets }),
        rare => (any::<usize>(), prop_oneof![1u16..40, 30u16..500]).prop_map(|(from, n)| SOp::RemoveMany { from, n }),
        if branching { 4 } else { 2 } => Just(SOp::Freeze),
        if branching { 4 } else { 1 } => any::<usize>().prop_map(|at| SOp::Resume { at }),
    ];
    prop::collection::vec(op, 1..max).boxed()
}

fn token(i: u8) -> TokenId {
    TokenId::new(format!("tok{i}"))
}

const PARTS: u8 = 3;

fn details(tx: u8, ix: u8, value: &Rep, assets: &BTreeMap<u8, Rep>, alias: u8) -> UTxODetails {
    UTxODetails {
        pointer: UtxoPointer {
            transaction_id: TransactionId::new(format!("tx{tx}")),
            output_index: OutputIndex::new(ix as u64),
        },
        address: Address::new(format!("addr{}", ix % 2)),
        value: value.value(),
        // now and then every token is listed in two parts
        assets: (0..if alias == PARTS { 2 } else { 1 })
            .flat_map(|_| assets)
            .map(|(t, q)| TransactionAsset {
                policy_id: PolicyId::new(format!("policy{t}-{alias}")),
                asset_name: AssetName::new(format!("name{t}-{alias}")),
                fingerprint: token(*t),
                quantity: q.value(),
            })
            .collect(),
        metadata: Arc::new(serde_json::Value::Null),
        extra: None,
    }
}

#[derive(Clone, Default)]
struct Model {
    utxos: BTreeMap<(String, u64), UTxODetails>,
    dict: BTreeMap<TokenId, (PolicyId, AssetName)>,
}

fn key(p: &UtxoPointer) -> (String, u64) {
    (p.transaction_id.to_string(), u64::from(p.output_index))
}

impl Model {
    /// the UTxOs holding the token with their quantities of it
    fn holders(&self, t: &TokenId) -> Vec<((String, u64), Dec)> {
        self.utxos
            .iter()
            .filter_map(|(k, u)| {
                if t == &TokenId::MAIN {
                    Some((k.clone(), Dec::of(u.value.raw())))
                } else {
                    let mut parts = u.assets.iter().filter(|a| &a.fingerprint == t).peekable();
                    parts.peek()?;
                    Some((k.clone(), parts.fold(Dec::zero(), |s, a| s.add(&Dec::of(a.quantity.raw())))))
                }
            })
            .collect()
    }
}

fn sum(h: &[((String, u64), Dec)]) -> Dec {
    h.iter().fold(Dec::zero(), |t, x| t.add(&x.1))
}

fn compare(store: &UTxOStore, m: &Model) -> Res {
    check_eq!(store.len(), m.utxos.len(), "number of UTxOs");
    check_eq!(store.is_empty(), m.utxos.is_empty(), "is_empty");
    let all: BTreeMap<_, _> = store.iter().map(|(p, u)| (key(p), u.as_ref().clone())).collect();
    check_eq!(store.iter().count(), m.utxos.len(), "iter count");
    check!(all == m.utxos, "iter gives {:?}, expected {:?}", all, m.utxos);
    for tx in 0..5u8 {
        for ix in 0..7u64 {
            let p = UtxoPointer {
                transaction_id: TransactionId::new(format!("tx{tx}")),
                output_index: OutputIndex::new(ix),
            };
            check_eq!(store.contains(&p), m.utxos.contains_key(&key(&p)), "contains {p}");
            check_eq!(store.get(&p), m.utxos.get(&key(&p)), "get {p}");
        }
    }
    for (k, u) in &m.utxos {
        if k.0.starts_with("many") {
            check!(store.contains(&u.pointer), "{} is not there", u.pointer);
            check_eq!(store.get(&u.pointer), Some(u), "get {}", u.pointer);
        }
    }
    for t in (0..6u8).map(token).chain([TokenId::MAIN]) {
        let h = m.holders(&t);
        check_eq!(store.number_utxos_for_token(&t), h.len(), "UTxOs with {t}");
        check_eq!(
            store.contains_token(&t),
            t == TokenId::MAIN || !h.is_empty(),
            "contains_token {t}"
        );
        match store.get_balance_of(&t) {
            None => check!(h.is_empty(), "no balance of {t}, which {} UTxOs hold", h.len()),
            Some(v) => {
                check!(
                    Dec::of(v.raw()).same(&sum(&h)),
                    "balance of {t} is {v}, the UTxOs hold {} * 10^{}",
                    sum(&h).m,
                    -sum(&h).s
                );
                check!(!h.is_empty(), "a balance of {t}, which no UTxO holds");
            }
        }
        let names: BTreeSet<_> = h.iter().map(|x| x.0.clone()).collect();
        let listed: Vec<_> = store.iter_token(&t).map(|(p, u)| (key(p), key(&u.pointer))).collect();
        check_eq!(listed.len(), h.len(), "iter_token {t} count");
        check!(listed.iter().all(|(a, b)| a == b), "iter_token {t} pairs a pointer with another UTxO");
        check_eq!(listed.into_iter().map(|x| x.0).collect::<BTreeSet<_>>(), names, "iter_token {t}");
        let by_key: BTreeMap<_, _> = h.iter().map(|x| (&x.0, &x.1)).collect();
        let qty = |u: &UTxODetails| by_key.get(&key(&u.pointer)).map(|x| (*x).clone());
        let ordered = |v: Vec<&UTxODetails>, what: &str, up: bool| -> Res {
            check_eq!(v.len(), h.len(), "{what} {t} count");
            check_eq!(v.iter().map(|u| key(&u.pointer)).collect::<BTreeSet<_>>(), names, "{what} {t}");
            for u in &v {
                check_eq!(Some(*u), m.utxos.get(&key(&u.pointer)), "{what} {t} content");
            }
            for w in v.windows(2) {
                let (Some(a), Some(b)) = (qty(w[0]), qty(w[1])) else {
                    return Err(Fail::new(format!("{what} {t}: unknown UTxO")));
                };
                let o = a.cmp(&b);
                check!(if up { o.is_le() } else { o.is_ge() }, "{what} {t} is out of order: {} before {}", w[0].pointer, w[1].pointer);
            }
            Ok(())
        };
        ordered(store.iter_token_ordered_by_value(&t).collect(), "ascending", true)?;
        ordered(store.iter_token_ordered_by_value_rev(&t).collect(), "descending", false)?;
        if t == TokenId::MAIN {
            ordered(store.iter_ordered_by_wmain().collect(), "by main value", true)?;
        } else {
            check_eq!(store.get_asset_ids(&t), m.dict.get(&t), "get_asset_ids {t}");
        }
    }
    Ok(())
}

fn compare_mut(s: &UTxOStoreMut, m: &Model) -> Res {
    for t in (0..6u8).map(token) {
        let h = m.holders(&t);
        let got = s.token_balance(&t).map(|v| Dec::of(v.raw()));
        match got {
            None => check!(h.is_empty(), "mutable: no balance of {t}, held by {}", h.len()),
            Some(d) => check!(d.same(&sum(&h)), "mutable: balance of {t} is {} * 10^{}", d.m, -d.s),
        }
    }
    let h = m.holders(&TokenId::MAIN);
    check!(
        Dec::of(s.balance().raw()).same(&sum(&h)),
        "mutable: balance {} but the UTxOs hold {} * 10^{}",
        s.balance(),
        sum(&h).m,
        -sum(&h).s
    );
    Ok(())
}

fn run_store(ops: &[SOp], cx: &mut Cx, every: bool) -> Res {
    let mut snaps: Vec<(UTxOStore, Model)> = vec![(UTxOStore::new(), Model::default())];
    let mut cur = UTxOStore::new().thaw();
    let mut m = Model::default();
    compare(&snaps[0].0, &snaps[0].1)?;
    let mut removed = false;
    let mut many = 0;
    for op in ops {
        match op {
            SOp::Insert { tx, ix, value, assets, alias } => {
                let d = details(*tx, *ix, value, assets, *alias);
                let k = key(&d.pointer);
                let r = if *alias == 0 { cur.insert_compat(d.clone()) } else { cur.insert(d.clone()) };
                if m.utxos.contains_key(&k) {
                    check!(r.is_err(), "a second UTxO was inserted at {}", d.pointer);
                    cx.label("duplicate refused");
                } else {
                    r.or_fail("insert")?;
                    for a in &d.assets {
                        m.dict
                            .entry(a.fingerprint.clone())
                            .or_insert_with(|| (a.policy_id.clone(), a.asset_name.clone()));
                    }
                    m.utxos.insert(k, d);
                }
            }
            SOp::InsertAgain { at, value, assets } => {
                let keys: Vec<_> = m.utxos.values().cloned().collect();
                if let Some(u) = pick(&keys, *at) {
                    let mut d = details(0, 0, value, assets, 7);
                    d.pointer = u.pointer.clone();
                    check!(cur.insert(d).is_err(), "a second UTxO was inserted at {}", u.pointer);
                    cx.label("duplicate refused");
                }
            }
            SOp::Many { n, values, assets } => {
                many += 1;
                for i in 0..*n {
                    let mut d = details(0, 0, &values[i as usize % values.len()], assets, 0);
                    d.pointer = UtxoPointer {
                        transaction_id: TransactionId::new(format!("many{many}")),
                        output_index: OutputIndex::new(i as u64),
                    };
                    cur.insert(d.clone()).or_fail("insert")?;
                    for a in &d.assets {
                        m.dict
                            .entry(a.fingerprint.clone())
                            .or_insert_with(|| (a.policy_id.clone(), a.asset_name.clone()));
                    }
                    m.utxos.insert(key(&d.pointer), d);
                }
                cx.label("many at once");
            }
            SOp::RemoveMany { from, n } => {
                let keys: Vec<_> = m.utxos.values().map(|u| u.pointer.clone()).collect();
                for i in 0..(*n as usize).min(keys.len()) {
                    let p = &keys[(from % keys.len() + i) % keys.len()];
                    cur.remove(p).or_fail("remove")?;
                    m.utxos.remove(&key(p));
                    removed = true;
                }
            }
            SOp::Remove { at } => {
                let keys: Vec<_> = m.utxos.values().map(|u| u.pointer.clone()).collect();
                if let Some(p) = pick(&keys, *at) {
                    cur.remove(p).or_fail("remove")?;
                    m.utxos.remove(&key(p));
                    removed = true;
                }
            }
            SOp::RemoveAny { tx, ix } => {
                let p = UtxoPointer {
                    transaction_id: TransactionId::new(format!("tx{tx}")),
                    output_index: OutputIndex::new(*ix as u64),
                };
                let r = cur.remove(&p);
                check_eq!(r.is_ok(), m.utxos.remove(&key(&p)).is_some(), "remove {p}");
                if r.is_err() {
                    cx.label("missing refused");
                }
            }
            SOp::Freeze => {
                let s = std::mem::replace(&mut cur, UTxOStore::new().thaw()).freeze();
                compare(&s, &m)?;
                cur = s.thaw();
                if !m.utxos.is_empty() && removed {
                    cx.nontrivial();
                }
                snaps.push((s, m.clone()));
            }
            SOp::Resume { at } => {
                let (s, sm) = pick(&snaps, *at).unwrap();
                if !sm.utxos.is_empty() {
                    cx.label("resumed from a non-empty snapshot");
                }
                cur = s.thaw();
                m = sm.clone();
            }
        }
        compare_mut(&cur, &m)?;
        if every {
            for (i, (s, sm)) in snaps.iter().enumerate() {
                compare(s, sm).map_err(|f| Fail::new(format!("snapshot {i} changed after {op:?}: {}", f.msg)))?;
            }
        }
    }
    let s = cur.freeze();
    compare(&s, &m)?;
    cx.nontrivial_if(removed && !m.utxos.is_empty());
    for (i, (s, sm)) in snaps.iter().enumerate() {
        compare(s, sm).map_err(|f| Fail::new(format!("snapshot {i} changed: {}", f.msg)))?;
    }
    if m.utxos.values().filter(|u| u.assets.len() > 1).count() > 1 {
        cx.label("several multi-asset UTxOs");
    }
    Ok(())
}

pub struct C06;
impl Check for C06 {
    type Case = Vec<SOp>;
    const ID: &'static str = "C06";
    const RULE: &'static str = "A case is a history of up to 40 (now and then more, with hundreds at once) inserts (multi-asset, tokens listed in parts, equal values, other representations of equal values), refused duplicates, removals, refused removals, freezes and resumptions over 24 pointers and 5 tokens; every read of the frozen store is compared with a plain map. Non-trivial: a removal happened and UTxOs remain.";
    const ASSUMPTIONS: &'static [&'static str] = &["a UTxO lists each token at most once, and never the main token, among its assets (as ledger multi-asset values do)"];
    fn strategy(_: Tier) -> BoxedStrategy<Vec<SOp>> {
        sops(40, false)
    }
    fn cases(t: Tier) -> u32 {
        t.pick(120_000, 1_500_000)
    }
    fn run(c: &Vec<SOp>, cx: &mut Cx) -> Res {
        run_store(c, cx, false)
    }
}

pub struct C07;
impl Check for C07 {
    type Case = Vec<SOp>;
    const ID: &'static str = "C07";
    const RULE: &'static str = "A case is a branching history of up to 25 changes, freezes and resumptions from any earlier snapshot; after every step every snapshot ever taken is compared in full with what it held when taken. Non-trivial: a removal happened before a freeze or UTxOs remain after one.";
    const ASSUMPTIONS: &'static [&'static str] = C06::ASSUMPTIONS;
    fn strategy(_: Tier) -> BoxedStrategy<Vec<SOp>> {
        sops(25, true)
    }
    fn cases(t: Tier) -> u32 {
        t.pick(60_000, 700_000)
    }
    fn run(c: &Vec<SOp>, cx: &mut Cx) -> Res {
        run_store(c, cx, true)
    }
}

// ---------------------------------------------------------------------------------------------
pub struct C08;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TxCase {
    id: String,
    inputs: Vec<(String, u64)>,
    outputs: Vec<OutCase>,
    meta: serde_json::Value,
    stray: String,
    leave_out: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OutCase {
    tx: String,
    ix: u64,
    address: String,
    value: Rep,
    assets: Vec<(String, String, String, Rep)>,
    meta: serde_json::Value,
    extra: Option<String>,
}

fn json_value() -> BoxedStrategy<serde_json::Value> {
    let leaf = prop_oneof![
        Just(serde_json::Value::Null),
        any::<bool>().prop_map(serde_json::Value::from),
        any::<i64>().prop_map(serde_json::Value::from),
        any::<u64>().prop_map(serde_json::Value::from),
        "\\PC{0,8}".prop_map(serde_json::Value::from),
    ];
    leaf.prop_recursive(3, 12, 4, |inner| {
        prop_oneof![
            prop::collection::vec(inner.clone(), 0..4).prop_map(serde_json::Value::from),
            prop::collection::btree_map("\\PC{0,5}", inner, 0..4)
                .prop_map(|m| serde_json::Value::Object(m.into_iter().collect())),
        ]
    })
    .boxed()
}

fn text() -> impl Strategy<Value = String> {
    prop_oneof!["[0-9a-f]{0,64}", "addr_test1[0-9a-z]{0,20}", "\\PC{0,10}", "[\"\\\\\\n\\t/<>\\x00-\\x1f]{1,4}"]
}

fn out_case() -> impl Strategy<Value = OutCase> {
    (
        text(),
        near(),
        text(),
        rep(-20, 18),
        prop::collection::vec((text(), text(), text(), rep(-20, 18)), 0..4),
        json_value(),
        prop::option::of(text()),
    )
        .prop_map(|(tx, ix, address, value, assets, meta, extra)| OutCase { tx, ix, address, value, assets, meta, extra })
}

impl OutCase {
    fn assets(&self) -> Vec<TransactionAsset> {
        self.assets
            .iter()
            .map(|(p, n, f, q)| TransactionAsset {
                policy_id: PolicyId::new(p.clone()),
                asset_name: AssetName::new(n.clone()),
                fingerprint: TokenId::new(f.clone()),
                quantity: q.value(),
            })
            .collect()
    }
    fn details(&self) -> UTxODetails {
        UTxODetails {
            pointer: UtxoPointer {
                transaction_id: TransactionId::new(self.tx.clone()),
                output_index: OutputIndex::new(self.ix),
            },
            address: Address::new(self.address.clone()),
            value: self.value.value(),
            assets: self.assets(),
            metadata: Arc::new(self.meta.clone()),
            extra: self.extra.clone(),
        }
    }
    fn builder(&self) -> UTxOBuilder {
        UTxOBuilder {
            address: Address::new(self.address.clone()),
            value: self.value.value(),
            assets: self.assets(),
            extra: self.extra.clone(),
        }
    }
}

fn rt<T: Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug>(
    t: &T,
    what: &str,
) -> Result<serde_json::Value, Fail> {
    let s = serde_json::to_string(t).or_fail(what)?;
    let back: T = serde_json::from_str(&s).map_err(|e| Fail::new(format!("{what}: own JSON {s} refused: {e}")))?;
    check!(&back == t, "{what}: {t:?} reads back as {back:?}");
    let v = serde_json::to_value(t).or_fail(what)?;
    let back: T = serde_json::from_value(v.clone()).map_err(|e| Fail::new(format!("{what}: own JSON value {v} refused: {e}")))?;
    check!(&back == t, "{what}: {t:?} reads back from a JSON value as {back:?}");
    let again = serde_json::to_string(&back).or_fail(what)?;
    check_eq!(again, s, "{what}: JSON of the copy");
    Ok(v)
}

impl Check for C08 {
    type Case = TxCase;
    const ID: &'static str = "C08";
    const RULE: &'static str = "A case is a transaction (arbitrary identifiers, control characters, amounts in any representation, nested metadata) written to JSON and read back, with the published field names checked, a stray field added and defaulted fields left out. Non-trivial: it has an input and an output with an asset.";
    fn strategy(_: Tier) -> BoxedStrategy<TxCase> {
        (
            text(),
            prop::collection::vec((text(), near()), 0..4),
            prop::collection::vec(out_case(), 0..4),
            json_value(),
            "[a-zA-Z_]{1,12}",
            0u8..4,
        )
            .prop_map(|(id, inputs, outputs, meta, stray, leave_out)| TxCase { id, inputs, outputs, meta, stray, leave_out })
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(150_000, 2_000_000)
    }
    fn run(c: &TxCase, cx: &mut Cx) -> Res {
        let tx = Transaction {
            transaction_id: TransactionId::new(c.id.clone()),
            inputs: c
                .inputs
                .iter()
                .map(|(t, i)| UtxoPointer {
                    transaction_id: TransactionId::new(t.clone()),
                    output_index: OutputIndex::new(*i),
                })
                .collect(),
            outputs: c.outputs.iter().map(|o| o.details()).collect(),
            metadata: Arc::new(c.meta.clone()),
        };
        cx.nontrivial_if(!tx.inputs.is_empty() && tx.outputs.iter().any(|o| !o.assets.is_empty()));
        let v = rt(&tx, "transaction")?;
        // the published names
        check_eq!(v["transactionId"], serde_json::Value::from(c.id.clone()), "transactionId");
        check_eq!(v["metadata"], c.meta, "metadata");
        check_eq!(v["inputs"].as_array().map(|a| a.len()), Some(c.inputs.len()), "inputs");
        for (i, (t, ix)) in c.inputs.iter().enumerate() {
            check_eq!(v["inputs"][i], serde_json::json!({"transactionId": t, "outputIndex": ix}), "input {i}");
            check_eq!(tx.inputs[i].to_string(), format!("{t}@{ix}"), "pointer display");
        }
        for (i, o) in c.outputs.iter().enumerate() {
            let j = &v["outputs"][i];
            check_eq!(j["pointer"], serde_json::json!({"transactionId": o.tx, "outputIndex": o.ix}), "pointer");
            check_eq!(j["address"], serde_json::Value::from(o.address.clone()), "address");
            let amount = j["value"].as_str().and_then(Dec::read).or_fail("value in JSON")?;
            check!(amount.same(&o.value.dec()), "output {i}: value written as {}", j["value"]);
            check_eq!(j["extra"], serde_json::json!(o.extra), "extra");
            for (k, (p, n, f, q)) in o.assets.iter().enumerate() {
                let a = &j["assets"][k];
                check_eq!(a["policyId"], serde_json::json!(p), "policyId");
                check_eq!(a["assetName"], serde_json::json!(n), "assetName");
                check_eq!(a["fingerprint"], serde_json::json!(f), "fingerprint");
                let amount = a["quantity"].as_str().and_then(Dec::read).or_fail("quantity in JSON")?;
                check!(amount.same(&q.dec()), "quantity written as {}", a["quantity"]);
            }
            rt(&o.details(), "output")?;
            rt(&o.builder(), "output to be")?;
            for a in o.assets() {
                rt(&a, "asset")?;
            }
        }
        // unknown fields are refused where the format says so
        let known = ["transactionId", "inputs", "outputs", "metadata"];
        if !known.contains(&c.stray.as_str()) {
            let mut w = v.clone();
            w[&c.stray] = serde_json::json!(1);
            check!(serde_json::from_value::<Transaction>(w).is_err(), "a transaction with a stray field {:?} is accepted", c.stray);
        }
        if let Some(p) = tx.inputs.first() {
            let mut w = serde_json::to_value(p).or_fail("pointer")?;
            if !["transactionId", "outputIndex"].contains(&c.stray.as_str()) {
                w[&c.stray] = serde_json::json!(1);
                check!(serde_json::from_value::<UtxoPointer>(w).is_err(), "a pointer with a stray field {:?} is accepted", c.stray);
            }
        }
        if let Some(a) = c.outputs.iter().flat_map(|o| o.assets()).next() {
            let mut w = serde_json::to_value(&a).or_fail("asset")?;
            if !["policyId", "assetName", "fingerprint", "quantity"].contains(&c.stray.as_str()) {
                w[&c.stray] = serde_json::json!(1);
                check!(serde_json::from_value::<TransactionAsset>(w).is_err(), "an asset with a stray field {:?} is accepted", c.stray);
            }
        }
        // what may be left out
        let mut w = v.clone();
        let mut want = tx.clone();
        if c.leave_out & 1 == 1 {
            w.as_object_mut().unwrap().remove("metadata");
            want.metadata = Default::default();
        }
        if c.leave_out & 2 == 2 {
            for (j, o) in w["outputs"].as_array_mut().unwrap().iter_mut().zip(want.outputs.iter_mut()) {
                j.as_object_mut().unwrap().remove("assets");
                j.as_object_mut().unwrap().remove("extra");
                o.assets = vec![];
                o.extra = None;
            }
        }
        let got: Transaction = serde_json::from_value(w).or_fail("transaction with defaulted fields")?;
        check!(got == want, "with defaulted fields left out, reads as {got:?}");
        for missing in ["transactionId", "inputs", "outputs"] {
            let mut w = v.clone();
            w.as_object_mut().unwrap().remove(missing);
            check!(serde_json::from_value::<Transaction>(w).is_err(), "a transaction without {missing} is accepted");
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
pub struct C09;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Fp {
    Valid { policy: Vec<u8>, name: Vec<u8>, upper: bool },
    /// two assets whose concatenations may coincide
    Shifted { bytes: Vec<u8>, cut: usize },
    Text { policy: String, name: String },
}

/// RFC 7693 BLAKE2b, unkeyed, written from the specification
pub fn blake2b(out: usize, data: &[u8]) -> Vec<u8> {
    const IV: [u64; 8] = [
        0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1,
        0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179,
    ];
    const SIGMA: [[usize; 16]; 10] = [
        [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
        [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
        [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
        [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
        [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
        [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
        [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
        [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
        [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
        [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
    ];
    let mut h = IV;
    h[0] ^= 0x01010000 ^ out as u64;
    let blocks = data.len().div_ceil(128).max(1);
    for b in 0..blocks {
        let chunk = &data[b * 128..data.len().min(b * 128 + 128)];
        let mut buf = [0u8; 128];
        buf[..chunk.len()].copy_from_slice(chunk);
        let m: Vec<u64> = buf.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        let mut v = [0u64; 16];
        v[..8].copy_from_slice(&h);
        v[8..].copy_from_slice(&IV);
        let last = b + 1 == blocks;
        v[12] ^= if last { data.len() as u64 } else { (b as u64 + 1) * 128 };
        if last {
            v[14] = !v[14];
        }
        for r in 0..12 {
            let s = &SIGMA[r % 10];
            let mut g = |a: usize, b: usize, c: usize, d: usize, x: u64, y: u64| {
                v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
                v[d] = (v[d] ^ v[a]).rotate_right(32);
                v[c] = v[c].wrapping_add(v[d]);
                v[b] = (v[b] ^ v[c]).rotate_right(24);
                v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
                v[d] = (v[d] ^ v[a]).rotate_right(16);
                v[c] = v[c].wrapping_add(v[d]);
                v[b] = (v[b] ^ v[c]).rotate_right(63);
            };
            g(0, 4, 8, 12, m[s[0]], m[s[1]]);
            g(1, 5, 9, 13, m[s[2]], m[s[3]]);
            g(2, 6, 10, 14, m[s[4]], m[s[5]]);
            g(3, 7, 11, 15, m[s[6]], m[s[7]]);
            g(0, 5, 10, 15, m[s[8]], m[s[9]]);
            g(1, 6, 11, 12, m[s[10]], m[s[11]]);
            g(2, 7, 8, 13, m[s[12]], m[s[13]]);
            g(3, 4, 9, 14, m[s[14]], m[s[15]]);
        }
        for i in 0..8 {
            h[i] ^= v[i] ^ v[i + 8];
        }
    }
    h.iter().flat_map(|x| x.to_le_bytes()).take(out).collect()
}

fn expected_fp(bytes: &[u8]) -> String {
    let mut s = hex::encode(blake2b(20, bytes));
    while s.len() < 64 {
        s.push('0');
    }
    s
}

impl Check for C09 {
    type Case = Fp;
    const ID: &'static str = "C09";
    const RULE: &'static str = "A case is a 28-byte policy with a name of 0..=300 bytes (either hex case), a byte string cut at another place, or arbitrary text for both; the identifier is compared with an own BLAKE2b-160 of the concatenation, and malformed hex must be an error. Non-trivial: a name longer than one byte, or refused text.";
    fn strategy(_: Tier) -> BoxedStrategy<Fp> {
        prop_oneof![
            6 => (prop::collection::vec(any::<u8>(), 28), prop_oneof![prop::collection::vec(any::<u8>(), 0..33), prop::collection::vec(any::<u8>(), 95..103), prop::collection::vec(any::<u8>(), 0..300), prop::collection::vec(Just(0u8), 0..40)], any::<bool>())
                .prop_map(|(policy, name, upper)| Fp::Valid { policy, name, upper }),
            1 => (prop::collection::vec(any::<u8>(), 0..80), 0usize..80).prop_map(|(bytes, cut)| Fp::Shifted { bytes, cut }),
            2 => ("[0-9a-fA-F]{56}", "[0-9a-gA-F]{0,9}").prop_map(|(policy, name)| Fp::Text { policy, name }),
            1 => ("[0-9a-f]{50,60}", "[0-9a-f]{0,8}").prop_map(|(policy, name)| Fp::Text { policy, name }),
            1 => ("[0-9a-f]{27}\\PC[0-9a-f]{28}", "[0-9a-f]{0,8}").prop_map(|(policy, name)| Fp::Text { policy, name }),
            1 => ("\\PC{0,30}", "\\PC{0,30}").prop_map(|(policy, name)| Fp::Text { policy, name }),
        ]
        .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(1_200_000, 15_000_000)
    }
    fn run(c: &Fp, cx: &mut Cx) -> Res {
        use cardano_utils::fingerprint;
        let (p, n) = match c {
            Fp::Valid { policy, name, upper } => {
                let f = |b: &Vec<u8>| if *upper { hex::encode_upper(b) } else { hex::encode(b) };
                cx.label(if name.is_empty() { "no name" } else if name.len() > 100 { "name beyond a hash block" } else { "named" });
                (f(policy), f(name))
            }
            Fp::Shifted { bytes, cut } => {
                let cut = (*cut).min(bytes.len());
                (hex::encode(&bytes[..cut]), hex::encode(&bytes[cut..]))
            }
            Fp::Text { policy, name } => (policy.clone(), name.clone()),
        };
        let want = match (hex::decode(&p), hex::decode(&n)) {
            (Ok(p), Ok(n)) if p.len() == 28 => Some([p, n].concat()),
            _ => None,
        };
        let got = fingerprint(&PolicyId::new(p.clone()), &AssetName::new(n.clone()));
        match want {
            Some(bytes) => {
                cx.nontrivial_if(n.len() > 2);
                let got = got.map_err(|e| Fail::new(format!("policy {p} name {n}: refused: {e:#}")))?;
                check_eq!(got.as_ref().to_string(), expected_fp(&bytes), "fingerprint of policy {p} name {n}");
            }
            None => {
                cx.nontrivial();
                cx.label("malformed");
                check!(got.is_err(), "policy {p:?} name {n:?} is malformed but gives {:?}", got);
            }
        }
        Ok(())
    }
}

#[allow(unused)]
fn _t(_: Value<Regulated>) {}
