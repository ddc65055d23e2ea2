//! C25-C30: input selection and change balancing
use crate::dec::*;
use dcspark_core::tx::*;
use dcspark_core::{
    Address, AssetName, Balance, OutputIndex, PolicyId, Regulated, TokenId, UTxOStore, Value,
};
use deps::serde_json;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;
use utxo_selection::algorithms::*;
use utxo_selection::*;
use vhrun::{check, check_eq, pick, Check, Cx, Fail, OrFail, Res, Tier};

type Setup = InputOutputSetup<UTxODetails, UTxOBuilder>;
type Outcome = InputSelectionResult<UTxODetails, UTxOBuilder>;
type Assets = Vec<(u8, u16)>;

/// tokens there are
const TOKENS: u8 = 12;

fn big(x: u128) -> Value<Regulated> {
    Value::new(deps::bigdecimal::BigDecimal::from(x))
}

pub fn names(t: u8) -> (PolicyId, AssetName, TokenId) {
    // tokens 0 and 1 share their policy, 1 and 2 their name
    (
        PolicyId::new(format!("policy{}", if t < 4 { [0, 0, 1, 2][t as usize] } else { t % 3 })),
        AssetName::new(format!("name{}", if t < 4 { [0, 1, 1, 0][t as usize] } else { t })),
        TokenId::new(format!("fingerprint{t}")),
    )
}

fn asset(t: u8, q: Value<Regulated>) -> TransactionAsset {
    let (p, n, f) = names(t);
    let mut a = TransactionAsset::new(p, n, f);
    a.quantity = q;
    a
}

/// the integer a value holds
fn int(v: &Value<Regulated>, what: &str) -> Result<i128, Fail> {
    let d = Dec::of(v.raw());
    check!(d.decimals() == 0, "{what}: {v} is no integer");
    let (neg, p) = if d.is_neg() { (-1, d.neg()) } else { (1, d) };
    let f: i128 = p.floor().to_string().parse().or_fail("a huge amount")?;
    Ok(neg * f)
}

/// amounts by token; MAIN under None
type Sums = BTreeMap<Option<String>, i128>;

fn add_assets(s: &mut Sums, assets: &[TransactionAsset], what: &str) -> Res {
    for a in assets {
        *s.entry(Some(a.fingerprint.to_string())).or_default() += int(&a.quantity, what)?;
    }
    Ok(())
}

fn sum_inputs<'a>(it: impl IntoIterator<Item = &'a UTxODetails>) -> Result<Sums, Fail> {
    let mut s = Sums::new();
    for i in it {
        *s.entry(None).or_default() += int(&i.value, "input")?;
        add_assets(&mut s, &i.assets, "input")?;
    }
    Ok(s)
}

fn sum_outputs<'a>(it: impl IntoIterator<Item = &'a UTxOBuilder>) -> Result<Sums, Fail> {
    let mut s = Sums::new();
    for o in it {
        *s.entry(None).or_default() += int(&o.value, "output")?;
        add_assets(&mut s, &o.assets, "output")?;
    }
    Ok(s)
}

fn sum_map(main: &Value<Regulated>, m: &HashMap<TokenId, TransactionAsset>) -> Result<Sums, Fail> {
    let mut s = Sums::new();
    s.insert(None, int(main, "balance")?);
    for (t, a) in m {
        check_eq!(t, &a.fingerprint, "a balance is filed under another token");
        *s.entry(Some(t.to_string())).or_default() += int(&a.quantity, "balance")?;
    }
    Ok(s)
}

fn plus(a: &Sums, b: &Sums) -> Sums {
    let mut r = a.clone();
    for (k, v) in b {
        *r.entry(k.clone()).or_default() += v;
    }
    r
}

fn same(a: &Sums, b: &Sums) -> bool {
    a.keys().chain(b.keys()).all(|k| a.get(k).unwrap_or(&0) == b.get(k).unwrap_or(&0))
}

// ---------------------------------------------------------------------------------------------
/// Fees linear in what was added, the exact counterpart of the trait's contract.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Costs {
    base: u16,
    input: u16,
    input_asset: u16,
    output: u16,
    output_asset: u16,
    min_value: u16,
    room: u16,
}

#[derive(Clone, Debug)]
pub struct Est {
    c: Costs,
    unit: u64,
    pub ins: Vec<UTxODetails>,
    pub outs: Vec<UTxOBuilder>,
}

impl Est {
    fn new(c: &Costs, unit: u64) -> Self {
        Est { c: c.clone(), unit, ins: vec![], outs: vec![] }
    }
    fn cost_in(&self, i: &UTxODetails) -> u128 {
        (self.c.input as u128 + self.c.input_asset as u128 * i.assets.len() as u128) * self.unit as u128
    }
    fn cost_out(&self, o: &UTxOBuilder) -> u128 {
        (self.c.output as u128 + self.c.output_asset as u128 * o.assets.len() as u128) * self.unit as u128
    }
    fn required(&self) -> u128 {
        self.c.base as u128 * self.unit as u128
            + self.ins.iter().map(|i| self.cost_in(i)).sum::<u128>()
            + self.outs.iter().map(|o| self.cost_out(o)).sum::<u128>()
    }
    fn min_value(&self) -> u128 {
        self.c.min_value as u128 * self.unit as u128
    }
}

impl TransactionFeeEstimator for Est {
    type InputUtxo = UTxODetails;
    type OutputUtxo = UTxOBuilder;
    fn min_required_fee(&self) -> anyhow::Result<Value<Regulated>> {
        Ok(big(self.required()))
    }
    fn fee_for_input(&self, i: &UTxODetails) -> anyhow::Result<Value<Regulated>> {
        Ok(big(self.cost_in(i)))
    }
    fn add_input(&mut self, i: UTxODetails) -> anyhow::Result<()> {
        self.ins.push(i);
        Ok(())
    }
    fn fee_for_output(&self, o: &UTxOBuilder) -> anyhow::Result<Value<Regulated>> {
        Ok(big(self.cost_out(o)))
    }
    fn add_output(&mut self, o: UTxOBuilder) -> anyhow::Result<()> {
        self.outs.push(o);
        Ok(())
    }
    fn min_value_for_output(&mut self, _: UTxOBuilder) -> anyhow::Result<Value<Regulated>> {
        Ok(big(self.min_value()))
    }
    fn current_size(&self) -> anyhow::Result<usize> {
        Ok(self.required().min(usize::MAX as u128) as usize)
    }
    fn max_size(&self) -> anyhow::Result<usize> {
        Ok((self.c.room as usize).saturating_mul(self.unit as usize))
    }
}

fn costs() -> impl Strategy<Value = Costs> {
    let c = || prop_oneof![3 => 0u16..4, 1 => Just(0u16), 1 => 0u16..30];
    (c(), c(), prop_oneof![3 => Just(0u16), 1 => 0u16..5], c(), prop_oneof![3 => Just(0u16), 1 => 0u16..5], c(), 0u16..400)
        .prop_map(|(base, input, input_asset, output, output_asset, min_value, room)| Costs {
            base,
            input,
            input_asset,
            output,
            output_asset,
            min_value,
            room,
        })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Spec {
    unit: u64,
    available: Vec<(u16, Assets)>,
    fixed_inputs: Vec<(u16, Assets)>,
    outputs: Vec<(u16, Assets)>,
    costs: Costs,
    change_address: bool,
    /// amounts are asked for by the balances alone, no output is listed
    bare: bool,
}

fn amount() -> impl Strategy<Value = u16> {
    prop_oneof![4 => 0u16..12, 4 => 0u16..200, 2 => 0u16..1000]
}

fn assets() -> impl Strategy<Value = Assets> {
    prop_oneof![
        3 => Just(vec![]),
        4 => (0u8..4, amount()).prop_map(|a| vec![a]),
        2 => prop::collection::btree_map(0u8..4, amount(), 0..4).prop_map(|m| m.into_iter().collect()),
        1 => prop::collection::btree_map(0..TOKENS, amount(), 3..10).prop_map(|m| m.into_iter().collect()),
        // tokens listed in parts
        1 => prop::collection::vec((0u8..4, amount()), 2..4),
    ]
}

fn holdings(n: impl Into<prop::collection::SizeRange>) -> impl Strategy<Value = Vec<(u16, Assets)>> {
    prop::collection::vec((amount(), assets()), n)
}

fn units() -> impl Strategy<Value = u64> {
    prop_oneof![Just(1u64), Just(1), Just(100_000), Just(1_000_000_007), Just(10_000_000_000_000), Just(15_000_000_000_000_007)]
}

fn spec(max: usize) -> BoxedStrategy<Spec> {
    let outs = (
        prop_oneof![60 => holdings(0..4), 1 => holdings(4..30)],
        prop::option::weighted(0.25, any::<usize>()),
    )
        .prop_map(|(mut o, dup)| {
            // an output like another one
            if let Some(x) = dup.and_then(|d| pick(&o, d)).cloned() {
                o.push(x);
            }
            o
        });
    (
        units(),
        prop_oneof![70 => holdings(0..max), 10 => holdings(0..max * 3), 1 => holdings(max * 3..max * 15)],
        prop_oneof![3 => holdings(0..1), 1 => holdings(1..3)],
        outs,
        costs(),
        prop::bool::weighted(0.9),
        prop::bool::weighted(0.15),
    )
        .prop_map(|(unit, available, fixed_inputs, outputs, costs, change_address, bare)| Spec {
            unit,
            available,
            fixed_inputs,
            outputs,
            costs,
            change_address,
            bare,
        })
        .boxed()
}

fn utxo(tx: &str, ix: usize, unit: u64, h: &(u16, Assets)) -> UTxODetails {
    UTxODetails {
        pointer: UtxoPointer {
            transaction_id: TransactionId::new(tx.to_string()),
            output_index: OutputIndex::new(ix as u64),
        },
        address: Address::new("wallet"),
        value: big(h.0 as u128 * unit as u128),
        assets: h.1.iter().map(|(t, q)| asset(*t, big(*q as u128 * unit as u128))).collect(),
        metadata: Arc::new(serde_json::Value::Null),
        extra: None,
    }
}

fn output(unit: u64, h: &(u16, Assets)) -> UTxOBuilder {
    UTxOBuilder::new(
        Address::new("payee"),
        big(h.0 as u128 * unit as u128),
        h.1.iter().map(|(t, q)| asset(*t, big(*q as u128 * unit as u128))).collect(),
    )
}

type Key = (String, u64);
fn key(u: &UTxODetails) -> Key {
    (u.pointer.transaction_id.to_string(), u64::from(u.pointer.output_index))
}
fn by_key<'a>(us: impl IntoIterator<Item = &'a UTxODetails>) -> BTreeMap<Key, UTxODetails> {
    us.into_iter().map(|u| (key(u), u.clone())).collect()
}

impl Spec {
    fn available(&self) -> Vec<UTxODetails> {
        self.available.iter().enumerate().map(|(i, h)| utxo("have", i, self.unit, h)).collect()
    }
    fn fixed_inputs(&self) -> Vec<UTxODetails> {
        self.fixed_inputs.iter().enumerate().map(|(i, h)| utxo("fixed", i, self.unit, h)).collect()
    }
    fn outputs(&self) -> Vec<UTxOBuilder> {
        self.outputs.iter().map(|h| output(self.unit, h)).collect()
    }
    fn setup(&self) -> Setup {
        let mut s = Setup::from_fixed_inputs_and_outputs(
            self.fixed_inputs(),
            self.outputs(),
            self.change_address.then(|| Address::new("change")),
        );
        if self.bare {
            s.fixed_inputs.clear();
            s.fixed_outputs.clear();
        }
        s
    }
    /// an estimator that knows what is fixed
    fn est(&self) -> Est {
        let mut e = Est::new(&self.costs, self.unit);
        if !self.bare {
            e.ins = self.fixed_inputs();
            e.outs = self.outputs();
        }
        e
    }
}

fn labels(c: &Spec, cx: &mut Cx, ok: bool) {
    cx.label(if ok { "selected" } else { "refused" });
    if c.outputs.iter().any(|o| !o.1.is_empty()) {
        cx.label("tokens asked for");
    }
    if !c.fixed_inputs.is_empty() {
        cx.label("fixed inputs");
    }
}

/// What every selection has to say about itself: the inputs it took are distinct and were
/// available, the balances are the sums, the fee is the one required, and the estimator was told.
/// Returns the sums of inputs and outputs.
fn honest(r: &Outcome, setup: &Setup, before: &[UTxODetails], est0: &Est, est: &Est) -> Result<(Sums, Sums), Fail> {
    check_eq!(r.fixed_inputs, setup.fixed_inputs, "fixed inputs");
    check_eq!(r.fixed_outputs, setup.fixed_outputs, "fixed outputs");
    let have = by_key(before);
    let chosen = by_key(&r.chosen_inputs);
    check_eq!(chosen.len(), r.chosen_inputs.len(), "an input is chosen twice");
    for (k, u) in &chosen {
        check_eq!(have.get(k), Some(u), "chosen input was not available");
    }
    check_eq!(est.ins.len(), est0.ins.len() + chosen.len(), "inputs the estimator knows");
    check_eq!(by_key(&est.ins[est0.ins.len()..]), chosen, "inputs the estimator was told of");
    check_eq!(est.outs.len(), est0.outs.len() + r.changes.len(), "outputs the estimator knows");
    let start = sum_map(&setup.input_balance, &setup.input_asset_balance)?;
    let ins = plus(&start, &sum_inputs(&r.chosen_inputs)?);
    let said = sum_map(&r.input_balance, &r.input_asset_balance)?;
    check!(same(&said, &ins), "input balance {said:?}, inputs sum up to {ins:?}");
    let outs = plus(&sum_map(&setup.output_balance, &setup.output_asset_balance)?, &sum_outputs(&r.changes)?);
    let said = sum_map(&r.output_balance, &r.output_asset_balance)?;
    check!(same(&said, &outs), "output balance {said:?}, outputs sum up to {outs:?}");
    for ch in &r.changes {
        check_eq!(Some(&ch.address), setup.change_address.as_ref(), "address of the change");
        check!(int(&ch.value, "change")? >= 0, "a change of {}", ch.value);
        for a in &ch.assets {
            check!(int(&a.quantity, "change")? > 0, "a change holds {} of {}", a.quantity, a.fingerprint);
            let known = (0..TOKENS).map(names).any(|(p, n, f)| (&a.policy_id, &a.asset_name, &a.fingerprint) == (&p, &n, &f));
            check!(known, "a change holds an asset {} with the names {} {}", a.fingerprint, a.policy_id, a.asset_name);
        }
    }
    check!(int(&r.fee, "fee")? >= 0, "a fee of {}", r.fee);
    Ok((ins, outs))
}

/// with what was fixed, and listed, all tokens are exactly used up
fn exact(r: &Outcome, ins: &Sums, outs: &Sums) -> Res {
    let mut o = outs.clone();
    *o.entry(None).or_default() += int(&r.fee, "fee")?;
    check!(same(ins, &o), "inputs {ins:?}, outputs and fee {o:?}");
    check!(r.is_balanced(), "is_balanced denies");
    Ok(())
}

/// outputs and fee are covered, token by token
fn covers(r: &Outcome, ins: &Sums, outs: &Sums) -> Res {
    let mut o = outs.clone();
    *o.entry(None).or_default() += int(&r.fee, "fee")?;
    for (t, need) in &o {
        let got = ins.get(t).unwrap_or(&0);
        check!(got >= need, "{}: inputs hold {got}, {need} needed", t.as_deref().unwrap_or("main token"));
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
pub struct C25;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Books {
    ins: Vec<(Rep, Vec<(u8, Rep)>)>,
    outs: Vec<(Rep, Vec<(u8, Rep)>)>,
    chosen: Vec<(Rep, Vec<(u8, Rep)>)>,
    changes: Vec<(Rep, Vec<(u8, Rep)>)>,
    fee: Rep,
    /// make the last change take up what is missing
    close: bool,
    /// then put one amount off by this
    off: Option<(u8, Rep)>,
}

fn small_rep() -> impl Strategy<Value = Rep> {
    prop_oneof![
        5 => (0u64..20).prop_map(|x| Rep { m: x.to_string(), s: 0 }),
        2 => any::<u64>().prop_map(|x| Rep { m: x.to_string(), s: 0 }),
        2 => (0u64..60).prop_map(|x| Rep { m: x.to_string(), s: 1 }),
        1 => (0u64..6).prop_map(|x| Rep { m: format!("{x}000"), s: 3 }),
        1 => rep(-3, 18),
    ]
}

fn rep_holdings(max: usize) -> impl Strategy<Value = Vec<(Rep, Vec<(u8, Rep)>)>> {
    let h = || (small_rep(), prop::collection::vec((0u8..3, small_rep()), 0..3));
    prop_oneof![60 => prop::collection::vec(h(), 0..max), 1 => prop::collection::vec(h(), max..max * 10)]
}

fn dec_sums<'a>(it: impl Iterator<Item = (&'a Value<Regulated>, &'a Vec<TransactionAsset>)>) -> BTreeMap<String, Dec> {
    let mut m: BTreeMap<String, Dec> = BTreeMap::new();
    m.insert(String::new(), Dec::zero());
    for (v, assets) in it {
        let e = m.get_mut("").unwrap();
        *e = e.add(&Dec::of(v.raw()));
        for a in assets {
            let e = m.entry(a.fingerprint.to_string()).or_insert_with(Dec::zero);
            *e = e.add(&Dec::of(a.quantity.raw()));
        }
    }
    m
}

fn details_of(tx: &str, ix: usize, h: &(Rep, Vec<(u8, Rep)>)) -> UTxODetails {
    let mut u = utxo(tx, ix, 1, &(0, vec![]));
    u.value = h.0.value();
    u.assets = h.1.iter().map(|(t, q)| asset(*t, q.value())).collect();
    u
}

fn builder_of(h: &(Rep, Vec<(u8, Rep)>)) -> UTxOBuilder {
    UTxOBuilder::new(Address::new("a"), h.0.value(), h.1.iter().map(|(t, q)| asset(*t, q.value())).collect())
}

fn agree(m: &BTreeMap<String, Dec>, main: &Value<Regulated>, assets: &HashMap<TokenId, TransactionAsset>, what: &str) -> Res {
    check!(Dec::of(main.raw()).same(&m[""]), "{what}: main {main}, expected {:?}", m[""]);
    check_eq!(
        assets.keys().map(|k| k.to_string()).collect::<BTreeSet<_>>(),
        m.keys().filter(|k| !k.is_empty()).cloned().collect(),
        "{what}: tokens"
    );
    for (t, a) in assets {
        check!(Dec::of(a.quantity.raw()).same(&m[&t.to_string()]), "{what}: {t} is {}, expected {:?}", a.quantity, m[&t.to_string()]);
        let known = (0..TOKENS).map(names).any(|(p, n, f)| (&a.policy_id, &a.asset_name, &a.fingerprint, t) == (&p, &n, &f, &f));
        check!(known, "{what}: {t} has the names {} {} {}", a.policy_id, a.asset_name, a.fingerprint);
    }
    Ok(())
}

fn is(b: &Balance<Regulated>, d: &Dec, what: &str) -> Res {
    let got = match b {
        Balance::Debt(v) => {
            check!(!Dec::of(v.raw()).is_zero(), "{what}: a debt of nothing");
            Dec::of(v.raw()).neg()
        }
        Balance::Balanced => Dec::zero(),
        Balance::Excess(v) => {
            check!(!Dec::of(v.raw()).is_zero(), "{what}: an excess of nothing");
            Dec::of(v.raw())
        }
    };
    check!(got.same(d), "{what}: {got:?}, expected {d:?}");
    Ok(())
}

impl Check for C25 {
    type Case = Books;
    const ID: &'static str = "C25";
    const RULE: &'static str = "A case is a transaction of up to 16 inputs and outputs with decimal amounts in any representation, often closed exactly by its last change and then perhaps put off by one amount; the setup's sums, the balances by token and the three predicates are compared with exact sums. Non-trivial: it was closed.";
    fn strategy(_: Tier) -> BoxedStrategy<Books> {
        (
            rep_holdings(4),
            rep_holdings(4),
            rep_holdings(4),
            rep_holdings(4),
            small_rep(),
            prop::bool::weighted(0.8),
            prop::option::weighted(0.4, (0u8..6, small_rep())),
        )
            .prop_map(|(ins, outs, chosen, changes, fee, close, off)| Books { ins, outs, chosen, changes, fee, close, off })
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(400_000, 8_000_000)
    }
    fn run(c: &Books, cx: &mut Cx) -> Res {
        let ins: Vec<_> = c.ins.iter().enumerate().map(|(i, h)| details_of("fixed", i, h)).collect();
        let mut chosen: Vec<_> = c.chosen.iter().enumerate().map(|(i, h)| details_of("chosen", i, h)).collect();
        let outs: Vec<_> = c.outs.iter().map(builder_of).collect();
        let mut changes: Vec<_> = c.changes.iter().map(builder_of).collect();
        let s = Setup::from_fixed_inputs_and_outputs(ins.clone(), outs.clone(), None);
        agree(&dec_sums(ins.iter().map(|i| (&i.value, &i.assets))), &s.input_balance, &s.input_asset_balance, "setup's inputs")?;
        agree(&dec_sums(outs.iter().map(|i| (&i.value, &i.assets))), &s.output_balance, &s.output_asset_balance, "setup's outputs")?;
        check_eq!(&s.fixed_inputs, &ins, "setup keeps its inputs");
        check_eq!(&s.fixed_outputs, &outs, "setup keeps its outputs");
        let mut fee = c.fee.value::<Regulated>();
        let diff = |chosen: &[UTxODetails], changes: &[UTxOBuilder], fee: &Value<Regulated>| {
            let mut d = dec_sums(ins.iter().chain(chosen).map(|i| (&i.value, &i.assets)));
            for (t, o) in dec_sums(outs.iter().chain(changes).map(|i| (&i.value, &i.assets))) {
                let e = d.entry(t).or_insert_with(Dec::zero);
                *e = e.sub(&o);
            }
            let e = d.get_mut("").unwrap();
            *e = e.sub(&Dec::of(fee.raw()));
            d
        };
        if c.close {
            // what is left over goes to one more output, what is lacking comes from one more input
            let d = diff(&chosen, &changes, &fee);
            let mut i = details_of("closing", 0, &(Rep { m: "0".into(), s: 0 }, vec![]));
            let mut o = builder_of(&(Rep { m: "0".into(), s: 0 }, vec![]));
            for (t, v) in d {
                let a: Value<Regulated> = value_of(&if v.is_neg() { v.neg() } else { v.clone() });
                if t.is_empty() {
                    if v.is_neg() {
                        i.value = a;
                    } else {
                        o.value = a;
                    }
                } else if !v.is_zero() {
                    let n = (0..TOKENS).find(|k| names(*k).2.to_string() == t).unwrap();
                    if v.is_neg() { i.assets.push(asset(n, a)) } else { o.assets.push(asset(n, a)) }
                }
            }
            chosen.push(i);
            changes.push(o);
            cx.nontrivial();
        }
        if let Some((w, v)) = &c.off {
            let v = v.value::<Regulated>();
            match w {
                0 => fee += v,
                1 => chosen.last_mut().map(|i| i.value += v).unwrap_or(()),
                2 => changes.last_mut().map(|i| i.value += v).unwrap_or(()),
                3 => chosen.iter_mut().flat_map(|i| i.assets.last_mut()).next().map(|a| a.quantity += v).unwrap_or(()),
                4 => changes.iter_mut().flat_map(|i| i.assets.last_mut()).next().map(|a| a.quantity += v).unwrap_or(()),
                _ => changes.last_mut().map(|i| i.assets.push(asset(3, v))).unwrap_or(()),
            }
        }
        let d = diff(&chosen, &changes, &fee);
        let main = d[""].is_zero();
        let tokens = d.iter().all(|(t, v)| t.is_empty() || v.is_zero());
        cx.label(if main && tokens { "balanced" } else if main { "tokens off" } else { "main token off" });
        let all = Setup::from_fixed_inputs_and_outputs(
            ins.iter().chain(&chosen).cloned().collect(),
            outs.iter().chain(&changes).cloned().collect(),
            None,
        );
        is(&calculate_main_token_balance(&all.input_balance, &all.output_balance, &fee), &d[""], "balance of the main token")?;
        let b = calculate_asset_balance(&all.input_asset_balance, &all.output_asset_balance);
        check_eq!(
            b.keys().map(|k| k.to_string()).collect::<BTreeSet<_>>(),
            d.keys().filter(|k| !k.is_empty()).cloned().collect(),
            "tokens balanced"
        );
        for (t, b) in &b {
            is(b, &d[&t.to_string()], "balance of a token")?;
        }
        check_eq!(are_assets_balanced(&all.input_asset_balance, &all.output_asset_balance), tokens, "are_assets_balanced");
        let r = Outcome {
            input_balance: all.input_balance,
            input_asset_balance: all.input_asset_balance,
            output_balance: all.output_balance,
            output_asset_balance: all.output_asset_balance,
            fixed_inputs: ins.clone(),
            fixed_outputs: outs.clone(),
            chosen_inputs: chosen.clone(),
            changes: changes.clone(),
            fee,
        };
        check_eq!(r.is_balanced(), main && tokens, "is_balanced");
        check_eq!(r.are_utxos_balanced(), main && tokens, "are_utxos_balanced");
        // balances that do not tell of the outputs listed
        if main && tokens && (!changes.is_empty() || !chosen.is_empty()) {
            let mut x = r.clone();
            let (i, o) = (sum_dec(&x.chosen_inputs.pop().map(|u| (u.value, u.assets))), sum_dec(&x.changes.pop().map(|u| (u.value, u.assets))));
            let equal = i.keys().chain(o.keys()).all(|k| {
                i.get(k).cloned().unwrap_or_else(Dec::zero).same(&o.get(k).cloned().unwrap_or_else(Dec::zero))
            });
            check_eq!(x.is_balanced(), true, "is_balanced goes by the balances");
            check_eq!(x.are_utxos_balanced(), equal, "are_utxos_balanced after taking an input and an output away");
            cx.label("listed inputs and outputs differ from the balances");
        }
        Ok(())
    }
}

fn sum_dec(x: &Option<(Value<Regulated>, Vec<TransactionAsset>)>) -> BTreeMap<String, Dec> {
    dec_sums(x.iter().map(|(v, a)| (v, a)))
}

fn value_of(d: &Dec) -> Value<Regulated> {
    deps::bigdecimal::BigDecimal::new(d.m.clone(), d.s).into()
}

// ---------------------------------------------------------------------------------------------
pub struct C26;

/// available inputs as a store
fn store_of(all: &[UTxODetails]) -> Result<UTxOStore, Fail> {
    let mut store = UTxOStore::new().thaw();
    for u in all {
        store.insert(u.clone()).or_fail("insert")?;
    }
    Ok(store.freeze())
}

/// what a store holds
fn held(store: &UTxOStore) -> BTreeMap<Key, UTxODetails> {
    by_key(store.iter().map(|x| x.1.as_ref()))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Largest {
    /// in which of the ways inputs are made available
    how: u8,
    first: Spec,
    /// what is asked for next: of what is left, or of newly set inputs
    next: Vec<(bool, Spec)>,
}

impl Check for C26 {
    type Case = Largest;
    const ID: &'static str = "C26";
    const RULE: &'static str = "A case is up to three selections from up to 12 available outputs, set in any of the ways there are, or from what is left of them; fixed inputs, up to 4 outputs (some equal, some zero) over 4 tokens, linear fees, in one of five magnitudes, with or without the outputs listed. Non-trivial: at least one input was selected, or the selection was refused.";
    fn strategy(_: Tier) -> BoxedStrategy<Largest> {
        (any::<u8>(), spec(13), prop_oneof![3 => Just(vec![]).boxed(), 1 => prop::collection::vec((any::<bool>(), spec(9)), 1..3).boxed()])
            .prop_map(|(how, first, next)| Largest { how, first, next })
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(240_000, 6_000_000)
    }
    fn run(c: &Largest, cx: &mut Cx) -> Res {
        let mut before = c.first.available();
        let mut alg = match c.how % 3 {
            0 => LargestFirst::try_from(store_of(&before)?).or_fail("from a store")?,
            1 => LargestFirst::try_from(before.clone()).or_fail("from inputs")?,
            _ => LargestFirst::try_from(vec![]).or_fail("empty")?,
        };
        for (k, (renew, spec)) in [(c.how % 3 == 2, c.first.clone())].into_iter().chain(c.next.iter().cloned()).enumerate() {
            if k > 0 {
                cx.label(if renew { "inputs set anew" } else { "from what is left" });
            }
            if renew {
                before = spec.available();
                if (c.how / 4) % 2 == 0 {
                    alg.set_available_inputs(before.clone()).or_fail("set_available_inputs")?;
                } else {
                    alg.set_available_utxos(store_of(&before)?).or_fail("set_available_utxos")?;
                }
            }
            check_eq!(by_key(&alg.available_inputs()), by_key(&before), "available inputs");
            check_eq!(held(&alg.get_available_utxos().or_fail("get_available_utxos")?), by_key(&before), "available store");
            let mut next = before.clone();
            let (setup, est0) = (spec.setup(), spec.est());
            let mut est = est0.clone();
            let r = alg.select_inputs(&mut est, setup.clone());
            labels(&spec, cx, r.is_ok());
            let rest = |chosen: &[UTxODetails]| {
                let gone = by_key(chosen);
                by_key(before.iter().filter(|u| !gone.contains_key(&key(u))))
            };
            let have = by_key(&before);
            let out = sum_map(&setup.output_balance, &setup.output_asset_balance)?;
            match r {
                Ok(r) => {
                    cx.nontrivial_if(!r.chosen_inputs.is_empty());
                    let (ins, outs) = honest(&r, &setup, &before, &est0, &est)?;
                    check!(r.changes.is_empty(), "changes");
                    check_eq!(int(&r.fee, "fee")?, est.required() as i128, "fee");
                    covers(&r, &ins, &outs)?;
                    check_eq!(by_key(&alg.available_inputs()), rest(&r.chosen_inputs), "left available");
                    next = rest(&r.chosen_inputs).into_values().collect();
                    // each was the largest one left for a token not covered by then, tokens first
                    let mut got = sum_map(&setup.input_balance, &setup.input_asset_balance)?;
                    let mut left = have.clone();
                    let mut fee = est0.required() as i128;
                    for u in &r.chosen_inputs {
                        let q = |u: &UTxODetails, t: &str| {
                            let parts: Vec<_> = u.assets.iter().filter(|a| a.fingerprint.to_string() == t).collect();
                            (!parts.is_empty()).then(|| parts.iter().map(|a| int(&a.quantity, "q").unwrap_or(0)).sum::<i128>())
                        };
                        let open: Vec<&String> = out
                            .iter()
                            .filter_map(|(t, n)| t.as_ref().filter(|_| got.get(t).unwrap_or(&0) < n))
                            .collect();
                        let largest = if open.is_empty() {
                            check!(got[&None] < out[&None] + fee, "{} was selected with everything covered", u.pointer);
                            let m = left.values().map(|x| int(&x.value, "v").unwrap_or(0)).max();
                            m == Some(int(&u.value, "v")?)
                        } else {
                            open.iter().any(|t| q(u, t).is_some() && q(u, t) == left.values().filter_map(|x| q(x, t)).max())
                        };
                        check!(largest, "{} is not the largest for what was open", u.pointer);
                        left.remove(&key(u));
                        got = plus(&got, &sum_inputs([u])?);
                        fee += est0.cost_in(u) as i128;
                    }
                }
                Err(_) => {
                    cx.nontrivial();
                    check_eq!(by_key(&alg.available_inputs()), have, "available after a refusal");
                    // only where it could not be done by this rule
                    let start = sum_map(&setup.input_balance, &setup.input_asset_balance)?;
                    let all = plus(&start, &sum_inputs(&before)?);
                    let lacking = out.iter().any(|(t, n)| t.is_some() && all.get(t).unwrap_or(&0) < n);
                    if !lacking {
                        // fees of an input may exceed what it holds: only then may it be refused
                        // though there is enough altogether
                        let need = out[&None] + est0.required() as i128;
                        let worth: i128 = before.iter().map(|u| int(&u.value, "v").unwrap_or(0) - est0.cost_in(u) as i128).sum();
                        check!(start[&None] + worth < need, "refused with {} over {need} available", start[&None] + worth);
                        cx.label("main token lacking");
                    } else {
                        cx.label("token lacking");
                    }
                }
            }
            check_eq!(held(&alg.get_available_utxos().or_fail("get_available_utxos")?), by_key(&next), "available store afterwards");
            before = next;
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
pub struct C27;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Rest {
    spec: Spec,
    /// make the inputs suffice for the outputs, with this left after the required fee
    left: Option<u16>,
    /// nothing of the tokens is left over
    tokens_used_up: bool,
    extra: Option<String>,
}

impl Check for C27 {
    type Case = Rest;
    const ID: &'static str = "C27";
    const RULE: &'static str = "A case is fixed inputs and outputs, mostly made to suffice with an amount left over that lies around the cost of one more output; both balancers are given it. Non-trivial: the inputs suffice.";
    fn strategy(_: Tier) -> BoxedStrategy<Rest> {
        (spec(3), prop::option::weighted(0.85, prop_oneof![0u16..40, 0u16..1000]), any::<bool>(), prop::option::of("[a-z]{1,3}"))
            .prop_map(|(spec, left, tokens_used_up, extra)| Rest { spec, left, tokens_used_up, extra })
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(400_000, 8_000_000)
    }
    fn run(c: &Rest, cx: &mut Cx) -> Res {
        let mut spec = c.spec.clone();
        spec.bare = false;
        let mut ins = spec.fixed_inputs();
        if let Some(left) = c.left {
            // one more input holding what lacks
            let (i, o) = (sum_inputs(&ins)?, sum_outputs(&spec.outputs())?);
            let mut u = utxo("filler", 0, 1, &(0, vec![]));
            for t in 0..TOKENS {
                let k = Some(names(t).2.to_string());
                let lack = o.get(&k).unwrap_or(&0) - i.get(&k).unwrap_or(&0);
                if lack > 0 {
                    let more = if c.tokens_used_up { 0 } else { (left % 3) as i128 };
                    u.assets.push(asset(t, big((lack + more) as u128)));
                }
            }
            let mut e = spec.est();
            e.ins.push(u.clone());
            let need = o.get(&None).unwrap_or(&0) + e.required() as i128 + left as i128 * spec.unit as i128;
            let lack = need - i.get(&None).unwrap_or(&0);
            u.value = big(lack.max(0) as u128);
            ins.push(u);
        }
        let setup = Setup::from_fixed_inputs_and_outputs(ins.clone(), spec.outputs(), spec.change_address.then(|| Address::new("change")));
        let mut est0 = spec.est();
        est0.ins = ins;
        let (i, o) = (
            sum_map(&setup.input_balance, &setup.input_asset_balance)?,
            sum_map(&setup.output_balance, &setup.output_asset_balance)?,
        );
        let tokens: BTreeMap<&Option<String>, i128> = i
            .keys()
            .chain(o.keys())
            .filter(|k| k.is_some())
            .map(|k| (k, i.get(k).unwrap_or(&0) - o.get(k).unwrap_or(&0)))
            .collect();
        let main = i[&None] - o[&None] - est0.required() as i128;
        cx.nontrivial_if(main >= 0 && tokens.values().all(|x| *x >= 0));
        let before = spec.available();

        // everything left is the fee
        let mut alg = FeeChangeBalancer::default();
        if c.tokens_used_up {
            alg.set_available_inputs(before.clone()).or_fail("set_available_inputs")?;
        } else {
            alg.set_available_utxos(store_of(&before)?).or_fail("set_available_utxos")?;
        }
        check_eq!(held(&alg.get_available_utxos().or_fail("get_available_utxos")?), by_key(&before), "available store");
        let mut est = est0.clone();
        let r = alg.select_inputs(&mut est, setup.clone());
        check_eq!(by_key(&alg.available_inputs()), by_key(&before), "available inputs");
        let can = main >= 0 && tokens.values().all(|x| *x == 0);
        check_eq!(r.is_ok(), can, "fee balancer: done, with {main} left of the main token and {tokens:?}");
        if let Ok(r) = r {
            cx.label("left as fee");
            let (ins, outs) = honest(&r, &setup, &before, &est0, &est)?;
            check!(r.chosen_inputs.is_empty() && r.changes.is_empty(), "inputs or outputs added");
            exact(&r, &ins, &outs)?;
            check!(r.are_utxos_balanced(), "are_utxos_balanced denies");
            check!(int(&r.fee, "fee")? >= est.required() as i128, "fee too low");
        }

        // everything left goes to one output
        let mut alg = SingleOutputChangeBalancer::default();
        if let Some(e) = &c.extra {
            alg.set_extra(e.clone());
        }
        if c.tokens_used_up {
            alg.set_available_utxos(store_of(&before)?).or_fail("set_available_utxos")?;
        } else {
            alg.set_available_inputs(before.clone()).or_fail("set_available_inputs")?;
        }
        check_eq!(held(&alg.get_available_utxos().or_fail("get_available_utxos")?), by_key(&before), "available store");
        let mut est = est0.clone();
        let r = alg.select_inputs(&mut est, setup.clone());
        check_eq!(by_key(&alg.available_inputs()), by_key(&before), "available inputs");
        let n = tokens.values().filter(|x| **x > 0).count();
        let mut probe = UTxOBuilder::new(Address::new("change"), 0u64.into(), vec![]);
        probe.assets = (0..n).map(|t| asset(t as u8, 1u64.into())).collect();
        let cost = est0.cost_out(&probe) as i128;
        let can = main >= cost && tokens.values().all(|x| *x >= 0) && setup.change_address.is_some();
        check_eq!(r.is_ok(), can, "change balancer: done, with {main} left for an output that costs {cost}, {tokens:?}");
        if let Ok(r) = r {
            cx.label("left as change");
            if main == cost {
                cx.label("change of nothing");
            }
            let (ins, outs) = honest(&r, &setup, &before, &est0, &est)?;
            check!(r.chosen_inputs.is_empty(), "inputs added");
            check_eq!(r.changes.len(), 1, "changes");
            let ch = &r.changes[0];
            check_eq!(int(&ch.value, "change")?, main - cost, "change");
            check_eq!(&ch.extra, &c.extra, "extra of the change");
            check_eq!(&est.outs[est0.outs.len()..], &r.changes[..], "outputs the estimator was told of");
            exact(&r, &ins, &outs)?;
            check!(r.are_utxos_balanced(), "are_utxos_balanced denies");
            check_eq!(int(&r.fee, "fee")?, est.required() as i128, "fee");
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
pub struct C28;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Rounds {
    first: Spec,
    /// what is asked for next: of what is left, or of newly set inputs
    next: Vec<(bool, Spec)>,
}

impl Check for C28 {
    type Case = Rounds;
    const ID: &'static str = "C28";
    const RULE: &'static str = "A case is up to three selections by one RandomImprove, from what is left of its inputs or from newly set ones, with amounts as for C26; the code draws its own random numbers. Non-trivial: at least one input was selected.";
    const REPLAY_RUNS: u32 = 200;
    fn strategy(_: Tier) -> BoxedStrategy<Rounds> {
        (spec(25), prop::collection::vec((any::<bool>(), spec(13)), 0..3))
            .prop_map(|(first, next)| Rounds { first, next })
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(300_000, 8_000_000)
    }
    fn run(c: &Rounds, cx: &mut Cx) -> Res {
        let mut alg = if c.next.len() == 1 {
            RandomImprove::try_from(store_of(&c.first.available())?).or_fail("from a store")?
        } else {
            RandomImprove::try_from(c.first.available()).or_fail("from inputs")?
        };
        let mut have = by_key(&c.first.available());
        for (k, (renew, spec)) in [(false, c.first.clone())].into_iter().chain(c.next.iter().cloned()).enumerate() {
            let mut spec = spec;
            spec.bare = false;
            if renew {
                // told apart from those of earlier rounds
                let fresh: Vec<_> = spec
                    .available()
                    .into_iter()
                    .map(|mut u| {
                        u.pointer.transaction_id = TransactionId::new(format!("round{k}"));
                        u
                    })
                    .collect();
                alg.set_available_inputs(fresh.clone()).or_fail("set_available_inputs")?;
                have = by_key(&fresh);
                cx.label("inputs set anew");
            }
            check_eq!(by_key(&alg.available_inputs()), have, "available inputs");
            check_eq!(alg.available_inputs().len(), have.len(), "number of available inputs");
            let (setup, est0) = (spec.setup(), spec.est());
            let mut est = est0.clone();
            let r = alg.select_inputs(&mut est, setup.clone());
            labels(&spec, cx, r.is_ok());
            let before: Vec<_> = have.values().cloned().collect();
            match r {
                Ok(r) => {
                    cx.nontrivial_if(!r.chosen_inputs.is_empty());
                    let (ins, outs) = honest(&r, &setup, &before, &est0, &est)?;
                    check!(r.changes.is_empty(), "changes");
                    check_eq!(int(&r.fee, "fee")?, est.required() as i128, "fee");
                    covers(&r, &ins, &outs)?;
                    for u in &r.chosen_inputs {
                        have.remove(&key(u));
                    }
                }
                Err(_) => {
                    // with one payment of the main token alone, only when there is too little
                    if spec.outputs.len() == 1 && spec.outputs[0].1.is_empty() && spec.fixed_inputs.is_empty() {
                        let worth: i128 = before.iter().map(|u| int(&u.value, "v").unwrap_or(0) - est0.cost_in(u) as i128).sum();
                        let need = spec.outputs[0].0 as i128 * spec.unit as i128 + est0.required() as i128;
                        check!(worth < need, "refused with {worth} available for {need}");
                        cx.label("single payment refused");
                    }
                }
            }
            check_eq!(by_key(&alg.available_inputs()), have, "available inputs afterwards");
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
pub struct C29;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Warm {
    accumulators: u8,
    accumulators_assets: u8,
    min: u16,
    span: u16,
    rounds: Vec<(bool, Spec)>,
}

impl Warm {
    fn config(&self, unit: u64) -> Result<ThermostatAlgoConfig, Fail> {
        serde_json::from_value(serde_json::json!({
            "num_accumulators": 1 + self.accumulators as usize,
            "num_accumulators_assets": 1 + self.accumulators_assets as usize,
            "native_utxo_thermostat_min": (self.min as u128 * unit as u128).to_string(),
            "native_utxo_thermostat_max": ((self.min as u128 + self.span as u128) * unit as u128).to_string(),
            "main_token": TokenId::MAIN.to_string(),
        }))
        .or_fail("configuration")
    }
}

impl Check for C29 {
    type Case = Warm;
    const ID: &'static str = "C29";
    const RULE: &'static str = "A case is a thermostat configuration and up to three selections by one Thermostat, from what is left or from newly set inputs (up to 40), with any fees. Non-trivial: a change output was made.";
    const REPLAY_RUNS: u32 = 40;
    fn strategy(_: Tier) -> BoxedStrategy<Warm> {
        let round = prop_oneof![2 => spec(14), 1 => spec(41)].prop_map(|mut s| {
            s.bare = false;
            s.costs.output_asset = 0;
            s
        });
        let round = (round, prop::bool::weighted(0.7), any::<u16>()).prop_map(|(mut s, able, few)| {
            if able {
                // no more tokens asked for than outputs with that token alone hold
                s.change_address = true;
                let mut left: BTreeMap<u8, u32> = BTreeMap::new();
                for (_, a) in &s.available {
                    if let [(t, q)] = a[..] {
                        *left.entry(t).or_default() += q as u32;
                    }
                }
                for (_, a) in &mut s.outputs {
                    a.retain(|x| left.contains_key(&x.0));
                    a.truncate(1 + (few % 2) as usize);
                    for (t, q) in a {
                        let l = left.get_mut(t).unwrap();
                        *q = (*q as u32 % (*l + 1)).min(u16::MAX as u32) as u16;
                        *l -= *q as u32;
                    }
                }
                for _ in 0..few % 4 {
                    s.available.push((few, vec![]));
                }
            }
            s
        });
        (0u8..5, 0u8..5, prop_oneof![0u16..40, 0u16..300], 0u16..200, prop::collection::vec((any::<bool>(), round), 1..4))
            .prop_map(|(accumulators, accumulators_assets, min, span, mut rounds)| {
                // one chain: one magnitude, and no configured amount below what an output must hold
                let (unit, least) = (rounds[0].1.unit, rounds[0].1.costs.min_value);
                for r in &mut rounds {
                    r.1.unit = unit;
                    r.1.costs.min_value = least;
                }
                Warm { accumulators, accumulators_assets, min: min.max(least), span, rounds }
            })
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(200_000, 5_000_000)
    }
    fn run(c: &Warm, cx: &mut Cx) -> Res {
        let mut alg: Option<Thermostat> = None;
        let mut have = BTreeMap::new();
        for (k, (renew, spec)) in c.rounds.iter().enumerate() {
            let alg = match &mut alg {
                Some(a) => a,
                None => alg.insert(Thermostat::new(c.config(spec.unit)?)),
            };
            if *renew || k == 0 {
                let fresh: Vec<_> = spec
                    .available()
                    .into_iter()
                    .map(|mut u| {
                        u.pointer.transaction_id = TransactionId::new(format!("round{k}"));
                        u
                    })
                    .collect();
                alg.set_available_inputs(fresh.clone()).or_fail("set_available_inputs")?;
                have = by_key(&fresh);
            }
            check_eq!(by_key(&alg.available_inputs()), have, "available inputs");
            let (setup, est0) = (spec.setup(), spec.est());
            let mut est = est0.clone();
            let r = alg.select_inputs(&mut est, setup.clone());
            labels(spec, cx, r.is_ok());
            let before: Vec<_> = have.values().cloned().collect();
            if let Ok(r) = &r {
                cx.nontrivial_if(!r.changes.is_empty());
                let (ins, outs) = honest(r, &setup, &before, &est0, &est)?;
                exact(r, &ins, &outs)?;
                check!(r.are_utxos_balanced(), "are_utxos_balanced denies");
                // an output's cost is flat here, so this is that of the changes as they came to be
                let (fee, need) = (int(&r.fee, "fee")?, est.required() as i128);
                check!(fee >= need, "fee {fee}, {need} required");
                for ch in &r.changes {
                    check!(int(&ch.value, "change")? >= est.min_value() as i128, "a change of {}, an output has to hold {}", ch.value, est.min_value());
                }
                if r.changes.len() > 1 {
                    cx.label("several changes");
                }
                for u in &r.chosen_inputs {
                    have.remove(&key(u));
                }
            } else if spec.change_address && spec.fixed_inputs.is_empty() && spec.outputs.iter().any(|o| o.0 > 0) {
                // no reason to refuse when each token is there alone in outputs, and the main
                // token for whatever may have to be added
                let out = sum_map(&setup.output_balance, &setup.output_asset_balance)?;
                let alone: Vec<_> = before.iter().filter(|u| u.assets.len() < 2).cloned().collect();
                let held = sum_inputs(&alone)?;
                let tokens = out.iter().all(|(t, n)| t.is_none() || held.get(t).unwrap_or(&0) >= n);
                let max = (c.min as i128 + c.span as i128 + spec.costs.min_value as i128) * spec.unit as i128;
                let out_cost = est0.cost_out(&output(1, &(0, vec![]))) as i128;
                let need = out[&None]
                    + est0.required() as i128
                    + before.iter().map(|u| est0.cost_in(u) as i128).sum::<i128>()
                    + (out.len() as i128) * (max + 4 * out_cost);
                let pure: i128 = before.iter().filter(|u| u.assets.is_empty()).map(|u| int(&u.value, "v").unwrap_or(0)).sum();
                cx.label(if !tokens { "refused: tokens lacking" } else { "refused: main token scarce" });
                if tokens && pure >= need {
                    let e = r.err().map(|e| format!("{e:#}")).unwrap_or_default();
                    return Err(Fail::new(format!("refused ({e}) with {pure} of the main token for {need}")));
                }
            }
            check_eq!(by_key(&alg.available_inputs()), have, "available inputs afterwards");
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
pub struct C30;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pay {
    /// largest first, random improve, thermostat
    by: u8,
    /// what is left goes to the fee (if no token is left) or to one change
    to_fee: bool,
    outputs: Vec<(u16, Assets)>,
    /// an output of the wallet that has to be spent
    must: Option<usize>,
    /// hand the store over, or its outputs
    store: bool,
    /// on top of these, the payer gets this much first
    income: Option<(u16, Assets)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Wallet {
    unit: u64,
    start: Vec<(u16, Assets)>,
    costs: Costs,
    config: (u8, u8, u16, u16),
    pays: Vec<Pay>,
}

impl Check for C30 {
    type Case = Wallet;
    const ID: &'static str = "C30";
    const RULE: &'static str = "A case is a wallet of up to 15 outputs and up to 10 payments from it, each selected by any of the three algorithms (one object of each serves all the payments) and balanced by one of the two balancers, then applied to the wallet. Non-trivial: at least two payments were made.";
    const REPLAY_RUNS: u32 = 60;
    fn strategy(_: Tier) -> BoxedStrategy<Wallet> {
        let small = || prop_oneof![0u16..12, 0u16..100];
        let pay = (
            0u8..3,
            prop::bool::weighted(0.2),
            prop::collection::vec((small(), prop::collection::btree_map(0u8..4, 0u16..10, 0..2).prop_map(|m| m.into_iter().collect())), 1..3),
            prop::option::weighted(0.2, any::<usize>()),
            any::<bool>(),
            prop::option::weighted(0.4, (amount(), assets())),
        )
            .prop_map(|(by, to_fee, outputs, must, store, income)| Pay { by, to_fee, outputs, must, store, income });
        (units(), holdings(2..15), costs(), (0u8..4, 0u8..4, 0u16..60, 0u16..60), prop::collection::vec(pay, 2..11))
            .prop_map(|(unit, start, mut costs, config, pays)| {
                costs.output_asset = 0;
                Wallet { unit, start, costs, config, pays }
            })
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(120_000, 3_000_000)
    }
    fn run(c: &Wallet, cx: &mut Cx) -> Res {
        let mut wallet = UTxOStore::new().thaw();
        for (i, h) in c.start.iter().enumerate() {
            wallet.insert(utxo("start", i, c.unit, h)).or_fail("insert")?;
        }
        let mut wallet = wallet.freeze();
        let all = |w: &UTxOStore| w.iter().map(|(_, u)| u.as_ref().clone()).collect::<Vec<_>>();
        let mut total = sum_inputs(&all(&wallet))?;
        let mut largest = LargestFirst::try_from(wallet.clone()).or_fail("new")?;
        let mut random = RandomImprove::try_from(wallet.clone()).or_fail("new")?;
        let warm = Warm {
            accumulators: c.config.0,
            accumulators_assets: c.config.1,
            min: c.config.2.max(c.costs.min_value),
            span: c.config.3,
            rounds: vec![],
        };
        let mut thermostat = Thermostat::new(warm.config(c.unit)?);
        let mut made = 0;
        for (k, p) in c.pays.iter().enumerate() {
            if let Some(h) = &p.income {
                let mut w = wallet.thaw();
                let u = utxo(&format!("income{k}"), 0, c.unit, h);
                total = plus(&total, &sum_inputs([&u])?);
                w.insert(u).or_fail("insert")?;
                wallet = w.freeze();
            }
            let have = all(&wallet);
            let must: Vec<UTxODetails> = p.must.and_then(|m| pick(&have, m)).cloned().into_iter().collect();
            let mut w = wallet.thaw();
            for u in &must {
                w.remove(&u.pointer).or_fail("remove")?;
            }
            let rest = w.freeze();
            let outs: Vec<_> = p.outputs.iter().map(|h| output(c.unit, h)).collect();
            let setup = Setup::from_fixed_inputs_and_outputs(must.clone(), outs.clone(), Some(Address::new("change")));
            let mut est0 = Est::new(&c.costs, c.unit);
            est0.ins = must.clone();
            est0.outs = outs.clone();
            let mut est = est0.clone();
            let before = all(&rest);
            let r = match p.by {
                0 => {
                    if p.store { largest.set_available_utxos(rest.clone()) } else { largest.set_available_inputs(before.clone()) }.or_fail("set")?;
                    largest.select_inputs(&mut est, setup.clone())
                }
                1 => {
                    random.set_available_inputs(before.clone()).or_fail("set")?;
                    random.select_inputs(&mut est, setup.clone())
                }
                _ => {
                    if p.store { thermostat.set_available_utxos(rest.clone()) } else { thermostat.set_available_inputs(before.clone()) }.or_fail("set")?;
                    thermostat.select_inputs(&mut est, setup.clone())
                }
            };
            let Ok(r) = r else {
                cx.label("no selection");
                continue;
            };
            let (ins, outs_) = honest(&r, &setup, &before, &est0, &est)?;
            covers(&r, &ins, &outs_)?;
            let r = if p.by < 2 {
                let setup = Setup {
                    input_balance: r.input_balance,
                    input_asset_balance: r.input_asset_balance,
                    output_balance: r.output_balance,
                    output_asset_balance: r.output_asset_balance,
                    fixed_inputs: r.fixed_inputs.into_iter().chain(r.chosen_inputs).collect(),
                    fixed_outputs: r.fixed_outputs,
                    change_address: Some(Address::new("change")),
                };
                let exactly = are_assets_balanced(&setup.input_asset_balance, &setup.output_asset_balance);
                let r = if p.to_fee && exactly {
                    FeeChangeBalancer::default().select_inputs(&mut est, setup).or_fail("the fee balancer refused")?
                } else {
                    match SingleOutputChangeBalancer::default().select_inputs(&mut est, setup) {
                        Ok(r) => r,
                        Err(_) => {
                            cx.label("no room for the change");
                            continue;
                        }
                    }
                };
                check!(r.chosen_inputs.is_empty(), "a balancer chose inputs");
                r
            } else {
                r
            };
            cx.label(["largest first", "random improve", "thermostat"][(p.by % 3) as usize]);
            check!(r.are_utxos_balanced(), "payment {k} is not balanced");
            let (fee, need) = (int(&r.fee, "fee")?, est.required() as i128);
            check!(fee >= need, "payment {k}: fee {fee}, {need} required");
            // apply it
            let mut w = wallet.thaw();
            for u in r.fixed_inputs.iter().chain(&r.chosen_inputs) {
                w.remove(&u.pointer).or_fail("spending an output that is not there")?;
            }
            for u in &must {
                check!(r.fixed_inputs.contains(u), "payment {k} leaves out {}", u.pointer);
            }
            check_eq!(r.fixed_outputs, outs, "payment {k}: outputs");
            for (i, ch) in r.changes.iter().enumerate() {
                let mut u = utxo(&format!("pay{k}"), i, 1, &(0, vec![]));
                u.value = ch.value.clone();
                u.assets = ch.assets.clone();
                u.address = ch.address.clone();
                w.insert(u).or_fail("insert")?;
            }
            wallet = w.freeze();
            let mut gone = sum_outputs(&outs)?;
            *gone.entry(None).or_default() += fee;
            let now = sum_inputs(&all(&wallet))?;
            check!(same(&plus(&now, &gone), &total), "payment {k}: {total:?} before, {now:?} after paying {gone:?}");
            for (t, n) in &now {
                let t = t.as_ref().map_or(TokenId::MAIN, |t| TokenId::new(t.clone()));
                let b = wallet.get_balance_of(&t).map(|v| int(&v, "balance")).transpose()?;
                check_eq!(b.unwrap_or(0), *n, "the wallet's balance of {t}");
            }
            total = now;
            made += 1;
        }
        cx.nontrivial_if(made > 1);
        Ok(())
    }
}
