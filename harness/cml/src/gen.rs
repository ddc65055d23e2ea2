//! addresses, tokens, outputs and inputs of Cardano
use crate::dec::Rep;
use cardano_multiplatform_lib as cml;
use cml::address as ca;
use cml::crypto::*;
use dcspark_core::tx::*;
use dcspark_core::{Address, AssetName, OutputIndex, PolicyId, Regulated, TokenId, Value};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::Arc;

/// 28 or 32 bytes that depend on a number
pub fn bytes(n: u32, len: usize) -> Vec<u8> {
    let mut x = n as u64 ^ 0x9e37_79b9_7f4a_7c15;
    (0..len)
        .map(|_| {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            (x >> 33) as u8
        })
        .collect()
}
pub fn key(n: u32) -> Ed25519KeyHash {
    Ed25519KeyHash::from_bytes(bytes(n, 28)).unwrap()
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Addr {
    pub network: u8,
    pub script: bool,
    pub payment: u32,
    /// stake credential: a script's?
    pub stake: Option<(bool, u32)>,
}
impl Addr {
    pub fn with(&self, payment: &ca::StakeCredential) -> ca::Address {
        match &self.stake {
            Some((script, n)) => ca::BaseAddress::new(self.network, payment, &credential(*script, *n)).to_address(),
            None => ca::EnterpriseAddress::new(self.network, payment).to_address(),
        }
    }
    pub fn cml(&self) -> ca::Address {
        self.with(&credential(self.script, self.payment))
    }
    /// its bytes and bech32 text, by the standard
    pub fn raw(&self, payment: &[u8]) -> Vec<u8> {
        let kind = match &self.stake {
            Some((stake, _)) => (*stake as u8) << 1 | self.script as u8,
            None => 6 | self.script as u8,
        };
        let mut b = vec![kind << 4 | self.network];
        b.extend(payment);
        if let Some((_, n)) = &self.stake {
            b.extend(bytes(*n, 28));
        }
        b
    }
    pub fn text(&self) -> String {
        bech(&self.raw(&bytes(self.payment, 28)), self.network)
    }
}
pub fn bech(raw: &[u8], network: u8) -> String {
    use bech32::ToBase32;
    bech32::encode(if network == 1 { "addr" } else { "addr_test" }, raw.to_base32(), bech32::Variant::Bech32).unwrap()
}
pub fn credential(script: bool, n: u32) -> ca::StakeCredential {
    if script {
        ca::StakeCredential::from_scripthash(&ScriptHash::from_bytes(bytes(n, 28)).unwrap())
    } else {
        ca::StakeCredential::from_keyhash(&key(n))
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Token {
    pub policy: u32,
    pub name: Vec<u8>,
}
impl Token {
    pub fn policy(&self) -> Vec<u8> {
        bytes(self.policy, 28)
    }
    /// CIP-14 hash, as this library writes it
    pub fn id(&self) -> TokenId {
        let mut data = self.policy();
        data.extend(&self.name);
        let h = cryptoxide::hashing::blake2b::Blake2b::<160>::new().update(&data);
        let mut out = [0u8; 20];
        h.finalize_at(&mut out);
        TokenId::new(format!("{:0<64}", hex::encode(out)))
    }
    pub fn asset(&self, quantity: Value<Regulated>) -> TransactionAsset {
        let mut a = TransactionAsset::new(
            PolicyId::new(hex::encode(self.policy())),
            AssetName::new(hex::encode(&self.name)),
            self.id(),
        );
        a.quantity = quantity;
        a
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum DatumSpec {
    Hash(u32),
    Inline(Vec<u8>),
}
impl DatumSpec {
    pub fn cml(&self) -> cml::Datum {
        match self {
            DatumSpec::Hash(n) => cml::Datum::new_data_hash(&DataHash::from_bytes(bytes(*n, 32)).unwrap()),
            DatumSpec::Inline(b) => cml::Datum::new_data(&cml::plutus::PlutusData::new_bytes(b.clone())),
        }
    }
}

/// an amount and, token by token, its assets
pub type Holding = (u64, Vec<(Token, u64)>);

pub fn addr() -> impl Strategy<Value = Addr> {
    (0u8..2, prop::bool::weighted(0.2), 0u32..1000, prop::option::weighted(0.6, (any::<bool>(), 0u32..1000)))
        .prop_map(|(network, script, payment, stake)| Addr { network, script, payment, stake })
}
pub fn token() -> impl Strategy<Value = Token> {
    (
        0u32..3,
        prop_oneof![3 => prop::collection::vec(0u8..3, 0..3), 2 => prop::collection::vec(any::<u8>(), 0..33), 1 => prop::collection::vec(any::<u8>(), 32)],
    )
        .prop_map(|(policy, name)| Token { policy, name })
}
pub fn tokens(max: usize) -> impl Strategy<Value = Vec<Token>> {
    prop::collection::vec(token(), 0..max + 1).prop_map(|mut v| {
        let mut seen = vec![];
        v.retain(|t| {
            let new = !seen.contains(t);
            seen.push(t.clone());
            new
        });
        v
    })
}
pub fn amount() -> impl Strategy<Value = u64> {
    prop_oneof![
        2 => 1u64..30,
        2 => 1u64..70_000,
        4 => 1_000_000u64..200_000_000,
        2 => 1u64..45_000_000_000_000_000,
        1 => any::<u64>().prop_map(|x| x.max(1)),
        1 => Just(u64::MAX),
        1 => Just(1 << 32),
    ]
}
pub fn holding(max: usize) -> impl Strategy<Value = Holding> {
    (amount(), tokens(max), prop::collection::vec(amount(), max)).prop_map(|(v, t, q)| (v, t.into_iter().zip(q).collect()))
}

pub fn big(x: u128) -> Value<Regulated> {
    Value::new(deps::bigdecimal::BigDecimal::from(x))
}
/// a number written with another scale
pub fn written(x: u64, scale: i8) -> Value<Regulated> {
    let mut m = x as u128;
    let mut s = 0i64;
    while s > scale as i64 && m % 10 == 0 && m != 0 {
        m /= 10;
        s -= 1;
    }
    while s < scale as i64 && s < 18 {
        m *= 10;
        s += 1;
    }
    Rep { m: m.to_string(), s }.value()
}

pub fn utxo(tx: u32, index: u64, address: &str, h: &Holding) -> UTxODetails {
    UTxODetails {
        pointer: UtxoPointer { transaction_id: TransactionId::new(hex::encode(bytes(tx, 32))), output_index: OutputIndex::new(index) },
        address: Address::new(address.to_string()),
        value: big(h.0 as u128),
        assets: h.1.iter().map(|(t, q)| t.asset(big(*q as u128))).collect(),
        metadata: Arc::new(Default::default()),
        extra: None,
    }
}
pub fn output(address: &str, h: &Holding) -> UTxOBuilder {
    UTxOBuilder::new(
        Address::new(address.to_string()),
        big(h.0 as u128),
        h.1.iter().map(|(t, q)| t.asset(big(*q as u128))).collect(),
    )
}

/// what an output says, as the ledger sees it; not by the code under test
pub fn ledger_output(address: &ca::Address, h: &Holding) -> cml::TransactionOutput {
    let mut v = cml::ledger::common::value::Value::new(&h.0.into());
    if !h.1.is_empty() {
        let mut m = cml::MultiAsset::new();
        for (t, q) in &h.1 {
            m.set_asset(&ScriptHash::from_bytes(t.policy()).unwrap(), &cml::AssetName::new(t.name.clone()).unwrap(), &(*q).into());
        }
        v.set_multiasset(&m);
    }
    cml::TransactionOutput::new(address, &v)
}
