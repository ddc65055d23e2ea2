//! C37: assumed fees and sizes; C40: multisig plans and network configurations
use crate::gen::*;
use cardano_multiplatform_lib as cml;
use cardano_utils::multisig_plan::{Hash, MultisigPlan};
use cardano_utils::network_id::NetworkInfo;
use cml::crypto::*;
use cml::ledger::alonzo::fees::min_no_script_fee;
use cml::metadata::*;
use cml::*;
use dcspark_core::{Regulated, Value};
use deps::bigdecimal::ToPrimitive;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use utxo_selection::estimators::ThermostatFeeEstimator;
use utxo_selection::TransactionFeeEstimator;
use vhrun::{check, check_eq, Check, Cx, Fail, OrFail, Res, Tier};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Custom {
    pub magic: u32,
    pub id: u8,
    pub coefficient: u32,
    pub constant: u32,
    pub per_word: u32,
    pub pool: u64,
    pub key: u64,
    pub max_value: u32,
    pub max_tx: u32,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Net {
    Mainnet,
    Testnet,
    Custom(Custom),
}
impl Net {
    pub fn json(&self) -> serde_json::Value {
        match self {
            Net::Mainnet => "mainnet".into(),
            Net::Testnet => "testnet".into(),
            Net::Custom(c) => serde_json::json!({"custom": {
                "protocol_magic": c.magic,
                "network_id": c.id,
                "linear_fee_coefficient": c.coefficient.to_string(),
                "linear_fee_constant": c.constant.to_string(),
                "coins_per_utxo_word": c.per_word.to_string(),
                "pool_deposit": c.pool.to_string(),
                "key_deposit": c.key.to_string(),
                "max_value_size": c.max_value,
                "max_tx_size": c.max_tx,
            }}),
        }
    }
    pub fn info(&self) -> Result<NetworkInfo, Fail> {
        serde_json::from_value(self.json()).or_fail("network configuration")
    }
    /// coefficient and constant
    pub fn linear(&self) -> (u64, u64) {
        match self {
            Net::Custom(c) => (c.coefficient as u64, c.constant as u64),
            _ => (44, 155381),
        }
    }
    pub fn max_tx(&self) -> usize {
        match self {
            Net::Custom(c) => c.max_tx as usize,
            _ => 16384,
        }
    }
}
pub fn custom() -> impl Strategy<Value = Custom> {
    (
        (any::<u32>(), 0u8..16),
        prop_oneof![Just(0u32), Just(44), 1u32..500, any::<u32>()],
        prop_oneof![Just(0u32), Just(155381), any::<u32>()],
        any::<u32>(),
        any::<u64>(),
        any::<u64>(),
        any::<u32>(),
        any::<u32>(),
    )
        .prop_map(|((magic, id), coefficient, constant, per_word, pool, key, max_value, max_tx)| Custom {
            magic,
            id,
            coefficient,
            constant,
            per_word,
            pool,
            key,
            max_value,
            max_tx,
        })
}
pub fn net() -> impl Strategy<Value = Net> {
    prop_oneof![Just(Net::Mainnet), Just(Net::Testnet), custom().prop_map(Net::Custom)]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub keys: Vec<u32>,
    pub quorum: u32,
}
impl Plan {
    pub fn plan(&self) -> MultisigPlan {
        MultisigPlan { quorum: self.quorum, keys: self.keys.iter().map(|k| Hash(key(*k))).collect() }
    }
    /// the script's CBOR
    pub fn script(&self) -> Vec<u8> {
        let mut b = vec![0x83, 3];
        head(&mut b, 0, self.quorum);
        head(&mut b, 4, self.keys.len() as u32);
        for k in &self.keys {
            b.extend([0x82, 0, 0x58, 28]);
            b.extend(bytes(*k, 28));
        }
        b
    }
    pub fn hash(&self) -> Vec<u8> {
        let mut data = vec![0];
        data.extend(self.script());
        let h = cryptoxide::hashing::blake2b::Blake2b::<224>::new().update(&data);
        let mut out = [0u8; 28];
        h.finalize_at(&mut out);
        out.to_vec()
    }
}
fn head(b: &mut Vec<u8>, major: u8, n: u32) {
    match n {
        0..=23 => b.push(major << 5 | n as u8),
        24..=255 => b.extend([major << 5 | 24, n as u8]),
        256..=65535 => {
            b.push(major << 5 | 25);
            b.extend((n as u16).to_be_bytes());
        }
        _ => {
            b.push(major << 5 | 26);
            b.extend(n.to_be_bytes());
        }
    }
}
pub fn plan() -> impl Strategy<Value = Plan> {
    (prop_oneof![4 => prop::collection::vec(0u32..1000, 1..12), 1 => prop::collection::vec(0u32..1000, 12..40)], any::<prop::sample::Index>())
        .prop_map(|(keys, q)| Plan { quorum: q.index(keys.len()) as u32 + 1, keys })
}

/// the transaction with these inputs and outputs, signed by the quorum
pub fn transaction(ins: &TransactionInputs, outs: &TransactionOutputs, fee: u64, plan: &Plan, magic: Option<&str>) -> Transaction {
    let mut body = TransactionBody::new(ins, outs, &fee.into(), None);
    let aux = magic.map(|m| {
        let mut data = GeneralTransactionMetadata::new();
        data.insert(&87.into(), &TransactionMetadatum::new_text(m.to_string()).unwrap());
        let mut aux = AuxiliaryData::new();
        aux.set_metadata(&data);
        body.set_auxiliary_data_hash(&AuxiliaryDataHash::from_bytes(vec![0; 32]).unwrap());
        aux
    });
    let mut set = TransactionWitnessSet::new();
    let mut v = Vkeywitnesses::new();
    for _ in 0..plan.quorum {
        let k = Vkey::new(&PublicKey::from_bytes(&[0; 32]).unwrap());
        v.add(&Vkeywitness::new(&k, &Ed25519Signature::from_bytes(vec![0; 64]).unwrap()));
    }
    set.set_vkeys(&v);
    let mut all = NativeScripts::new();
    let mut keys = NativeScripts::new();
    for k in &plan.keys {
        keys.add(&NativeScript::new_script_pubkey(&ScriptPubkey::new(&key(*k))));
    }
    all.add(&NativeScript::new_script_n_of_k(&ScriptNOfK::new(plan.quorum, &keys)));
    set.set_native_scripts(&all);
    Transaction::new(&body, &set, aux)
}

pub fn amount_of(v: &Value<Regulated>, what: &str) -> Result<u64, Fail> {
    v.to_string().parse().or_fail(what)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    In(u32, u8, Holding),
    Out(Addr, Holding),
    Magic,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Tx {
    net: Net,
    plan: Plan,
    magic: String,
    steps: Vec<Step>,
    datum: Option<DatumSpec>,
    per_byte: u32,
}

pub fn magic() -> impl Strategy<Value = String> {
    prop_oneof!["[a-z.-]{0,30}", "[a-z]{64}", "\\PC{0,16}"].prop_map(|s| {
        let mut s: String = s;
        while s.len() > 64 {
            s.pop();
        }
        s
    })
}

pub struct C37;
impl Check for C37 {
    type Case = Tx;
    const ID: &'static str = "C37";
    const RULE: &'static str = "A case is a network (main, test or custom), a plan of up to 40 keys, up to 300 inputs and 60 outputs of at most one token, added in any order with or without a magic, whose transaction is also built and encoded; fees and sizes are compared with its own. Non-trivial: there are inputs and outputs.";
    fn strategy(_: Tier) -> BoxedStrategy<Tx> {
        let input = || (any::<u32>(), any::<u8>(), holding(2)).prop_map(|(t, i, h)| Step::In(t, i, h));
        let out = || (addr(), holding(1)).prop_map(|(a, h)| Step::Out(a, h));
        let steps = prop_oneof![
            6 => prop::collection::vec(prop_oneof![input(), out()], 0..14),
            1 => prop::collection::vec(prop_oneof![5 => input(), 1 => out()], 20..360),
        ];
        (net(), plan(), magic(), steps, prop::option::weighted(0.5, any::<prop::sample::Index>()), datum(), 0u32..100_000)
            .prop_map(|(net, plan, magic, mut steps, at, datum, per_byte)| {
                if let Some(at) = at {
                    steps.insert(at.index(steps.len() + 1), Step::Magic);
                }
                Tx { net, plan, magic, steps, datum, per_byte }
            })
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(80_000, 1_500_000)
    }
    fn run(c: &Tx, cx: &mut Cx) -> Res {
        let info = c.net.info()?;
        let (coefficient, constant) = c.net.linear();
        let new = || ThermostatFeeEstimator::new(info.clone(), &c.plan.plan(), (c.per_byte as u64).into());
        let mut est = new();
        let (mut ins, mut outs) = (TransactionInputs::new(), TransactionOutputs::new());
        let (mut n_in, mut n_out, mut with_magic) = (0u64, 0u64, None);
        check_eq!(est.max_size().or_fail("max_size")?, c.net.max_tx(), "max_size");
        for s in c.steps.iter().map(Some).chain([None]) {
            let fee = est.min_required_fee().or_fail("min_required_fee")?;
            // at the end, and along the way for the short ones
            if s.is_none() || c.steps.len() < 14 {
                let paid = amount_of(&fee, "fee")?;
                let tx = transaction(&ins, &outs, paid, &c.plan, with_magic);
                let real = u64::from(min_no_script_fee(&tx, &ledger::alonzo::fees::LinearFee::new(&coefficient.into(), &constant.into())).or_fail("fee")?);
                check!(paid >= real, "{n_in} inputs, {n_out} outputs: assumed fee {paid}, of the transaction {real}");
                let more = 90 + 4 * n_in + 125 * n_out + 6 * c.plan.quorum as u64;
                check!(paid <= real + coefficient * more, "{n_in} inputs, {n_out} outputs: assumed fee {paid}, of the transaction {real}");
                let (size, said) = (tx.to_bytes().len(), est.current_size().or_fail("current_size")?);
                check!(said >= size, "{n_in} inputs, {n_out} outputs: assumed size {said}, of the transaction {size}");
            }
            let dearer = |est: &ThermostatFeeEstimator, by: Value<Regulated>, what: &str| -> Res {
                check_eq!(est.min_required_fee().or_fail("min_required_fee")?, fee + by, "fee after {what}");
                Ok(())
            };
            match s {
                Some(Step::In(tx, index, h)) => {
                    let u = utxo(*tx, *index as u64, "addr", h);
                    let by = est.fee_for_input(&u).or_fail("fee_for_input")?;
                    est.add_input(u).or_fail("add_input")?;
                    dearer(&est, by, "an input")?;
                    ins.add(&TransactionInput::new(&TransactionHash::from_bytes(bytes(*tx, 32)).unwrap(), &(*index as u64).into()));
                    n_in += 1;
                }
                Some(Step::Out(a, h)) => {
                    let o = output(&a.text(), h);
                    let by = est.fee_for_output(&o).or_fail("fee_for_output")?;
                    est.add_output(o).or_fail("add_output")?;
                    dearer(&est, by, "an output")?;
                    outs.add(&ledger_output(&a.cml(), h));
                    n_out += 1;
                }
                Some(Step::Magic) => {
                    est.add_protocol_magic(&c.magic);
                    with_magic = Some(&c.magic[..]);
                    cx.label("magic");
                }
                None => {}
            }
        }
        cx.nontrivial_if(n_in > 0 && n_out > 0);
        // the order does not matter
        let mut other = new();
        for s in c.steps.iter().rev() {
            match s {
                Step::In(tx, index, h) => other.add_input(utxo(*tx, *index as u64, "addr", h)).or_fail("add_input")?,
                Step::Out(a, h) => other.add_output(output(&a.text(), h)).or_fail("add_output")?,
                Step::Magic => other.add_protocol_magic(&c.magic),
            }
        }
        check_eq!(other.min_required_fee().or_fail("fee")?, est.min_required_fee().or_fail("fee")?, "fee in the other order");
        check_eq!(other.current_size().or_fail("size")?, est.current_size().or_fail("size")?, "size in the other order");
        // an output with what it has to hold is one the ledger takes
        for tokens in [false, true] {
            for s in &c.steps {
                let Step::Out(a, h) = s else { continue };
                let h = if tokens { h.clone() } else { (h.0, vec![]) };
                let mut o = output(&a.text(), &h);
                if let Some(d) = &c.datum {
                    o.extra = Some(serde_json::json!({"script_ref": null, "datum": d.cml()}).to_string());
                }
                let min = est.min_value_for_output(o).or_fail("min_value_for_output")?.to_u64().or_fail("min")?;
                let mut l = ledger_output(&a.cml(), &(min, h.1.clone()));
                if let Some(d) = &c.datum {
                    l.set_datum(&d.cml());
                }
                let least = u64::from(ledger::babbage::min_ada::min_ada_required(&l, &(c.per_byte as u64).into()).or_fail("min")?);
                if min < least {
                    let msg = format!("an output has to hold {min}, the ledger says {least}");
                    let sig = if h.1.is_empty() { msg.clone() } else { "min_value_for_output of an output with a token".to_string() };
                    return Err(Fail { sig, msg });
                }
            }
        }
        Ok(())
    }
}

pub fn datum() -> impl Strategy<Value = Option<DatumSpec>> {
    prop_oneof![
        2 => Just(None),
        1 => (0u32..100).prop_map(|n| Some(DatumSpec::Hash(n))),
        1 => prop::collection::vec(any::<u8>(), 0..50).prop_map(|b| Some(DatumSpec::Inline(b))),
    ]
}

// ---------------------------------------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Conf {
    net: Net,
    plan: Plan,
    network: u8,
    /// bytes of the keys' texts to leave out or to add, upper case
    bad: Option<(u8, i8)>,
    upper: bool,
    magic: String,
    stray: String,
    gone: Option<u8>,
}

pub struct C40;
impl Check for C40 {
    type Case = Conf;
    const ID: &'static str = "C40";
    const RULE: &'static str = "A case is a plan of up to 40 keys and a network (main, test or custom with any parameters), both read from JSON, perhaps with a malformed key, a missing or a stray field; script, hash, address, fees, sizes and the builder's configuration are compared with what the ledger's rules say. Non-trivial: nothing is malformed.";
    fn strategy(_: Tier) -> BoxedStrategy<Conf> {
        (
            net(),
            plan(),
            0u8..16,
            prop::option::weighted(0.2, (any::<u8>(), prop_oneof![Just(-2i8), Just(-1), Just(1), Just(2), Just(0)])),
            any::<bool>(),
            magic(),
            prop_oneof![2 => Just(String::new()), 1 => "[a-z_]{1,12}", 1 => Just("coins_per_utxo_byte".to_string())],
            prop::option::weighted(0.2, any::<u8>()),
        )
            .prop_map(|(net, plan, network, bad, upper, magic, stray, gone)| Conf { net, plan, network, bad, upper, magic, stray, gone })
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(150_000, 2_000_000)
    }
    fn run(c: &Conf, cx: &mut Cx) -> Res {
        // the plan
        let mut keys: Vec<String> = c.plan.keys.iter().map(|k| hex::encode(bytes(*k, 28))).collect();
        if c.upper {
            keys.iter_mut().for_each(|k| *k = k.to_uppercase());
        }
        if let Some((at, how)) = c.bad {
            let n = keys.len();
            let k = &mut keys[at as usize % n];
            match how {
                0 => k.replace_range(7..8, "g"),
                x if x < 0 => k.truncate(k.len() - x.unsigned_abs() as usize),
                x => k.push_str(&"0".repeat(x as usize)),
            }
        }
        let file = cx.dir().join("plan.json");
        std::fs::write(&file, serde_json::json!({"quorum": c.plan.quorum, "keys": keys}).to_string()).or_fail("write")?;
        let read = MultisigPlan::load(&file);
        if c.bad.is_some() {
            check!(read.is_err(), "a plan with the keys {keys:?} was read");
        } else {
            let p = read.or_fail("load")?;
            check_eq!(p.quorum, c.plan.quorum, "quorum");
            check_eq!(p.keys.iter().map(|k| k.0.to_bytes()).collect::<Vec<_>>(), c.plan.keys.iter().map(|k| bytes(*k, 28)).collect::<Vec<_>>(), "keys");
            let s = p.to_script();
            check_eq!(s.len(), 1, "scripts");
            check_eq!(hex::encode(s.get(0).to_bytes()), hex::encode(c.plan.script()), "script");
            check_eq!(hex::encode(p.hash().to_bytes()), hex::encode(c.plan.hash()), "script hash");
            let mut raw = vec![7 << 4 | c.network];
            raw.extend(c.plan.hash());
            check_eq!(hex::encode(p.address(c.network).to_bytes()), hex::encode(raw), "address");
            cx.nontrivial();
        }
        // the network
        let mut json = c.net.json();
        if let Some(o) = json.get_mut("custom").and_then(|o| o.as_object_mut()) {
            let known: Vec<String> = o.keys().cloned().collect();
            let mut fine = true;
            if !c.stray.is_empty() && !known.contains(&c.stray) {
                o.insert(c.stray.clone(), 1.into());
                fine = false;
            }
            if let Some(g) = c.gone {
                o.remove(&known[g as usize % known.len()]);
                fine = false;
            }
            if !fine {
                check!(serde_json::from_value::<NetworkInfo>(json.clone()).is_err(), "{json} was read");
                cx.label("malformed network");
            }
        }
        let info = c.net.info()?;
        let (coefficient, constant) = c.net.linear();
        let n = info.network_info();
        let b = info.transaction_builder();
        let f = info.linear_fee();
        check_eq!((u64::from(f.coefficient()), u64::from(f.constant())), (coefficient, constant), "linear fee");
        check_eq!((u64::from(b.fee_algo.coefficient()), u64::from(b.fee_algo.constant())), (coefficient, constant), "linear fee of the builder");
        check_eq!(info.max_tx_size(), c.net.max_tx(), "max_tx_size");
        check_eq!(b.max_tx_size as usize, c.net.max_tx(), "max_tx_size of the builder");
        let (id, magic, per_byte, pool, key, max_value) = match &c.net {
            Net::Mainnet => (1, 764824073, 4310, 500_000_000, 2_000_000, 5000),
            Net::Testnet => (0, 1097911063, 4310, 500_000_000, 2_000_000, 5000),
            Net::Custom(x) => (x.id, x.magic, x.per_word as u64 / 8, x.pool, x.key, x.max_value),
        };
        check_eq!((n.network_id(), n.protocol_magic()), (id, magic), "network");
        check_eq!(
            (u64::from(b.coins_per_utxo_byte), u64::from(b.pool_deposit), u64::from(b.key_deposit), b.max_value_size),
            (per_byte, pool, key, max_value),
            "builder's configuration"
        );
        // assumed costs are those of the assumed sizes
        let cost = |size: usize| coefficient * size as u64;
        check_eq!(u64::from(info.assumed_empty_transaction()), cost(info.estimated_size_empty()) + constant, "empty transaction");
        check_eq!(u64::from(info.assumed_cost_one_input()), cost(info.estimated_size_input()), "one input");
        check_eq!(u64::from(info.assumed_cost_one_output()), cost(info.estimated_size_output()), "one output");
        let script = 1 + 1 + 1 + c.plan.script().len();
        check_eq!(u64::from(info.assumed_cost_native_script(&c.plan.plan())), cost(script), "script");
        check!(u64::from(info.assumed_cost_one_witness()) >= cost(1 + 2 + 32 + 2 + 64), "witness");
        let signed = script + c.plan.quorum as usize * (1 + 2 + 32 + 2 + 64);
        let over = info.estimate_size_overhead(&c.plan.plan());
        check!(over >= signed, "overhead {over}, script and signatures {signed}");
        let text = c.magic.len() + if c.magic.len() > 23 { 2 } else { 1 };
        check!(u64::from(info.assumed_cost_metadata_protocol_magic(&c.magic)) >= cost(1 + 2 + text), "magic");
        Ok(())
    }
}
