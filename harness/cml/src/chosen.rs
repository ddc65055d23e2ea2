//! C39: selections with the estimators for Cardano pay what their transactions need
use crate::fees::{amount_of, net, plan, Net, Plan};
use crate::gen::*;
use cardano_multiplatform_lib as cml;
use cardano_utils::payment_credentials::CardanoPaymentCredentials;
use cml::builders::tx_builder::TransactionBuilder;
use cml::builders::witness_builder::NativeScriptWitnessInfo;
use cml::crypto::*;
use cml::ledger::alonzo::fees::{min_no_script_fee, LinearFee};
use cml::*;
use dcspark_core::tx::{UTxOBuilder, UTxODetails};
use dcspark_core::Address;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use utxo_selection::algorithms::*;
use utxo_selection::estimators::{CmlFeeEstimator, ThermostatFeeEstimator};
use utxo_selection::*;
use vhrun::{check, check_eq, Check, Cx, Fail, OrFail, Res, Tier};

type Setup = InputOutputSetup<UTxODetails, UTxOBuilder>;
type Outcome = InputSelectionResult<UTxODetails, UTxOBuilder>;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sel {
    net: Net,
    plan: Plan,
    /// the estimator that assumes, or the one over the builder
    flat: bool,
    /// spent by keys, or by the plan's script
    keys: bool,
    magic: Option<String>,
    /// largest first, random improve, thermostat
    by: u8,
    to_fee: bool,
    default: bool,
    thermostat: (u8, u8, u32, u32),
    /// by payment key and amount in thousandths, tokens
    available: Vec<(u8, u32, Vec<(u8, u64)>)>,
    fixed: Vec<(u8, u32, Vec<(u8, u64)>)>,
    outputs: Vec<(Addr, u32, Option<(u8, u64)>)>,
    change: Addr,
}

fn kind(t: u8) -> Token {
    Token { policy: t as u32 % 3, name: (0..t * 6).collect() }
}
fn held(c: u32, t: &[(u8, u64)]) -> Holding {
    (c as u64 * 1000, t.iter().map(|(t, q)| (kind(*t), *q)).collect())
}

impl Sel {
    fn wallet(&self, key: u8) -> String {
        let a = Addr { network: 1, script: !self.keys, payment: key as u32, stake: None };
        let payment = if self.keys { bytes(key as u32, 28) } else { self.plan.hash() };
        bech(&a.raw(&payment), 1)
    }
    fn inputs(&self, tx: u32, v: &[(u8, u32, Vec<(u8, u64)>)]) -> Vec<UTxODetails> {
        v.iter().enumerate().map(|(i, (k, c, t))| utxo(tx, i as u64, &self.wallet(*k), &held(*c, t))).collect()
    }
}

enum Est {
    Flat(ThermostatFeeEstimator),
    Cml(CmlFeeEstimator),
}
macro_rules! either {
    ($s:expr, $e:ident => $x:expr) => {
        match $s {
            Est::Flat($e) => $x,
            Est::Cml($e) => $x,
        }
    };
}
impl TransactionFeeEstimator for Est {
    type InputUtxo = UTxODetails;
    type OutputUtxo = UTxOBuilder;
    fn min_required_fee(&self) -> anyhow::Result<dcspark_core::Value<dcspark_core::Regulated>> {
        either!(self, e => e.min_required_fee())
    }
    fn fee_for_input(&self, i: &UTxODetails) -> anyhow::Result<dcspark_core::Value<dcspark_core::Regulated>> {
        either!(self, e => e.fee_for_input(i))
    }
    fn add_input(&mut self, i: UTxODetails) -> anyhow::Result<()> {
        either!(self, e => e.add_input(i))
    }
    fn fee_for_output(&self, o: &UTxOBuilder) -> anyhow::Result<dcspark_core::Value<dcspark_core::Regulated>> {
        either!(self, e => e.fee_for_output(o))
    }
    fn add_output(&mut self, o: UTxOBuilder) -> anyhow::Result<()> {
        either!(self, e => e.add_output(o))
    }
    fn min_value_for_output(&mut self, o: UTxOBuilder) -> anyhow::Result<dcspark_core::Value<dcspark_core::Regulated>> {
        either!(self, e => e.min_value_for_output(o))
    }
    fn current_size(&self) -> anyhow::Result<usize> {
        either!(self, e => e.current_size())
    }
    fn max_size(&self) -> anyhow::Result<usize> {
        either!(self, e => e.max_size())
    }
}

fn ledger_of(o: &UTxOBuilder) -> Result<(address::Address, Holding), Fail> {
    let mut h: BTreeMap<String, (Token, u64)> = BTreeMap::new();
    for a in &o.assets {
        let t = (0..5).map(kind).find(|t| t.id() == a.fingerprint).or_fail("an unknown token")?;
        check_eq!(
            (a.policy_id.to_string(), a.asset_name.to_string()),
            (hex::encode(t.policy()), hex::encode(&t.name)),
            "names of an asset"
        );
        h.entry(a.fingerprint.to_string()).or_insert((t, 0)).1 += amount_of(&a.quantity, "quantity")?;
    }
    let a = address::Address::from_bech32(o.address.as_ref()).or_fail("address")?;
    Ok((a, (amount_of(&o.value, "value")?, h.into_values().collect())))
}

/// what is in a list of outputs, by token
fn sums<'a>(it: impl Iterator<Item = (&'a dcspark_core::Value<dcspark_core::Regulated>, &'a Vec<dcspark_core::tx::TransactionAsset>)>) -> Result<BTreeMap<String, u128>, Fail> {
    let mut m: BTreeMap<String, u128> = BTreeMap::new();
    for (v, a) in it {
        *m.entry(String::new()).or_default() += amount_of(v, "value")? as u128;
        for a in a {
            *m.entry(a.fingerprint.to_string()).or_default() += amount_of(&a.quantity, "quantity")? as u128;
        }
    }
    m.retain(|_, v| *v > 0);
    Ok(m)
}

pub struct C39;
impl Check for C39 {
    type Case = Sel;
    const ID: &'static str = "C39";
    const RULE: &'static str = "A case is a wallet of up to 20 outputs of several keys or of a script, outputs to pay, an algorithm, a balancer and one of the two estimators; the transaction selected is built and its fee compared with that of its encoding. Non-trivial: a selection was made that chose inputs.";
    const REPLAY_RUNS: u32 = 40;
    fn strategy(_: Tier) -> BoxedStrategy<Sel> {
        let quantity = || prop_oneof![1u64..30, 1u64..5_000_000, 1u64..(1 << 50)];
        let coins = || prop_oneof![4 => 1000u32..20_000, 2 => 1000u32..200_000, 1 => 1000u32..4_000_000_000];
        let hold = move || {
            (
                0u8..4,
                coins(),
                prop_oneof![
                    3 => Just(vec![]),
                    3 => (0u8..5, quantity()).prop_map(|x| vec![x]),
                    1 => prop::collection::btree_map(0u8..5, quantity(), 1..5).prop_map(|m| m.into_iter().collect())
                ],
            )
        };
        let out = std::sync::Arc::new((addr(), prop_oneof![1000u32..8_000, 1000u32..60_000], prop::option::weighted(0.4, (0u8..5, prop_oneof![1u64..12, 1u64..5_000_000]))));
        (
            (prop_oneof![2 => Just(Net::Mainnet), 1 => net()], plan(), prop::bool::weighted(0.5), any::<bool>(), prop::option::weighted(0.3, crate::fees::magic())),
            (0u8..3, prop::bool::weighted(0.15), prop::bool::weighted(0.3), (1u8..5, 1u8..5, 1_000_000u32..4_000_000, 0u32..8_000_000)),
            prop_oneof![30 => prop::collection::vec(hold(), 1..20), 1 => prop::collection::vec(hold(), 20..90)],
            prop_oneof![2 => prop::collection::vec(hold(), 0..1), 1 => prop::collection::vec(hold(), 1..3)],
            prop_oneof![30 => prop::collection::vec(out.clone(), 1..4), 1 => prop::collection::vec(out, 4..14)],
            addr(),
        )
            .prop_map(|((net, plan, flat, keys, magic), (by, to_fee, default, thermostat), available, fixed, outputs, change)| Sel {
                net,
                keys: keys && !flat,
                magic: magic.filter(|_| flat),
                plan,
                flat,
                by,
                to_fee,
                default,
                thermostat,
                available,
                fixed,
                outputs,
                change,
            })
            .prop_filter("a fee that can be paid", |c| match &c.net {
                Net::Custom(c) => c.coefficient < 500 && c.coefficient > 0 && c.constant < 10_000_000,
                _ => true,
            })
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(300_000, 5_000_000)
    }
    fn run(c: &Sel, cx: &mut Cx) -> Res {
        let info = c.net.info()?;
        let (coefficient, constant) = c.net.linear();
        let mut est = if c.flat {
            let mut e = ThermostatFeeEstimator::new(info, &c.plan.plan(), 4310u64.into());
            if let Some(m) = &c.magic {
                e.add_protocol_magic(m);
            }
            Est::Flat(e)
        } else {
            let creds = if c.keys {
                CardanoPaymentCredentials::PaymentKey
            } else {
                CardanoPaymentCredentials::NativeScript {
                    native_script: c.plan.plan().to_script().get(0),
                    witness_info: NativeScriptWitnessInfo::num_signatures(c.plan.quorum),
                }
            };
            let b = TransactionBuilder::new(&info.transaction_builder());
            Est::Cml(CmlFeeEstimator::new(b, creds, true, 4310u64.into()).or_fail("CmlFeeEstimator::new")?)
        };
        let before = c.inputs(1, &c.available);
        let fixed = c.inputs(2, &c.fixed);
        let outs: Vec<UTxOBuilder> =
            c.outputs.iter().map(|(a, v, t)| output(&a.text(), &held(*v, &t.iter().copied().collect::<Vec<_>>()))).collect();
        let mut told = |est: &mut Est, o: Option<&UTxOBuilder>, i: Option<&UTxODetails>| -> Res {
            let fee = est.min_required_fee().or_fail("min_required_fee")?;
            let by = match (o, i) {
                (Some(o), _) => est.fee_for_output(o).or_fail("fee_for_output")?,
                (_, Some(i)) => est.fee_for_input(i).or_fail("fee_for_input")?,
                _ => return Ok(()),
            };
            o.map_or(Ok(()), |o| est.add_output(o.clone())).or_fail("add_output")?;
            i.map_or(Ok(()), |i| est.add_input(i.clone())).or_fail("add_input")?;
            check_eq!(est.min_required_fee().or_fail("min_required_fee")?, fee + by, "fee after adding");
            Ok(())
        };
        for i in &fixed {
            told(&mut est, None, Some(i))?;
        }
        for o in &outs {
            told(&mut est, Some(o), None)?;
        }
        let setup = Setup::from_fixed_inputs_and_outputs(fixed.clone(), outs.clone(), Some(Address::new(c.change.text())));
        let r = match c.by {
            0 => {
                let mut a = LargestFirst::try_from(before.clone()).or_fail("new")?;
                a.select_inputs(&mut est, setup)
            }
            1 => {
                let mut a = RandomImprove::try_from(before.clone()).or_fail("new")?;
                a.select_inputs(&mut est, setup)
            }
            _ => {
                let config = if c.default {
                    ThermostatAlgoConfig::default()
                } else {
                    let (a, b, min, span) = c.thermostat;
                    serde_json::from_value(serde_json::json!({
                        "num_accumulators": a, "num_accumulators_assets": b,
                        "native_utxo_thermostat_min": min.to_string(),
                        "native_utxo_thermostat_max": (min as u64 + span as u64).to_string(),
                        "main_token": dcspark_core::TokenId::MAIN.to_string(),
                    }))
                    .or_fail("configuration")?
                };
                let mut a = Thermostat::new(config);
                a.set_available_inputs(before.clone()).or_fail("set")?;
                a.select_inputs(&mut est, setup)
            }
        };
        let Ok(r) = r else {
            cx.label("refused");
            return Ok(());
        };
        let chose = !r.chosen_inputs.is_empty();
        let r: Outcome = if c.by < 2 {
            let setup = Setup {
                input_balance: r.input_balance,
                input_asset_balance: r.input_asset_balance,
                output_balance: r.output_balance,
                output_asset_balance: r.output_asset_balance,
                fixed_inputs: r.fixed_inputs.into_iter().chain(r.chosen_inputs).collect(),
                fixed_outputs: r.fixed_outputs,
                change_address: Some(Address::new(c.change.text())),
            };
            let exactly = are_assets_balanced(&setup.input_asset_balance, &setup.output_asset_balance);
            let r = if c.to_fee && exactly {
                FeeChangeBalancer::default().select_inputs(&mut est, setup).or_fail("the fee balancer refused")
            } else {
                match SingleOutputChangeBalancer::default().select_inputs(&mut est, setup) {
                    Ok(r) => Ok(r),
                    Err(_) => {
                        cx.label("no room for the change");
                        return Ok(());
                    }
                }
            };
            r?
        } else {
            r
        };
        cx.nontrivial_if(chose);
        let how = format!("{} with {}", ["largest first", "random improve", "thermostat"][c.by as usize], if c.flat { "assumed fees" } else { "the builder's fees" });
        cx.label(how.clone());
        // the transaction
        let spent: Vec<&UTxODetails> = r.fixed_inputs.iter().chain(&r.chosen_inputs).collect();
        let made: Vec<&UTxOBuilder> = r.fixed_outputs.iter().chain(&r.changes).collect();
        check_eq!(r.fixed_outputs, outs, "outputs");
        let fee = amount_of(&r.fee, "fee")?;
        let ins = sums(spent.iter().map(|u| (&u.value, &u.assets)))?;
        let mut all = sums(made.iter().map(|u| (&u.value, &u.assets)))?;
        *all.entry(String::new()).or_default() += fee as u128;
        check_eq!(all, ins, "outputs and fee of the transaction, and its inputs");
        let (mut tx_ins, mut tx_outs) = (TransactionInputs::new(), TransactionOutputs::new());
        let mut payers = BTreeSet::new();
        for u in &spent {
            let index = u64::from(u.pointer.output_index);
            tx_ins.add(&TransactionInput::new(&TransactionHash::from_hex(u.pointer.transaction_id.as_ref()).or_fail("hash")?, &index.into()));
            payers.insert(u.address.to_string());
        }
        let mut many = false;
        for o in &made {
            let (a, h) = ledger_of(o)?;
            many |= h.1.len() > 1;
            tx_outs.add(&ledger_output(&a, &h));
        }
        let mut p = c.plan.clone();
        let tx = if c.keys {
            p.quorum = payers.len() as u32;
            let mut set = TransactionWitnessSet::new();
            let mut v = Vkeywitnesses::new();
            for _ in &payers {
                let k = Vkey::new(&PublicKey::from_bytes(&[0; 32]).unwrap());
                v.add(&Vkeywitness::new(&k, &Ed25519Signature::from_bytes(vec![0; 64]).unwrap()));
            }
            set.set_vkeys(&v);
            Transaction::new(&TransactionBody::new(&tx_ins, &tx_outs, &fee.into(), None), &set, None)
        } else {
            crate::fees::transaction(&tx_ins, &tx_outs, fee, &p, c.magic.as_deref())
        };
        if c.flat && many {
            cx.label("outputs with several tokens");
            return Ok(());
        }
        let need = u64::from(min_no_script_fee(&tx, &LinearFee::new(&coefficient.into(), &constant.into())).or_fail("fee")?);
        if fee < need {
            let msg = format!("{how}: fee {fee}, the transaction needs {need}");
            let sig = if !c.flat && c.by == 2 && r.changes.iter().any(|o| !o.assets.is_empty()) {
                format!("{how}: changes with tokens cost more")
            } else {
                msg.clone()
            };
            return Err(Fail { sig, msg });
        }
        let (size, said) = (tx.to_bytes().len(), est.current_size().or_fail("current_size")?);
        if c.flat {
            check!(said >= size, "{how}: assumed size {said}, of the transaction {size}");
        }
        Ok(())
    }
}
