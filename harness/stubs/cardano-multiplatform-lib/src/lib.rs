//! A stand-in for the items of cardano-multiplatform-lib (3.1) that cardano-utils and
//! utxo-selection use: the same names, with the ledger's encoding (CDDL of Babbage) in shortest
//! form, which is what sizes and fees are of.
use std::collections::BTreeMap;
use std::fmt;

pub mod cbor;
use cbor as c;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct JsError(String);
pub type DeserializeError = JsError;
impl JsError {
    pub fn from_str(s: &str) -> Self {
        JsError(s.to_string())
    }
}
impl fmt::Display for JsError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for JsError {}
fn err<T>(s: impl Into<String>) -> Result<T, JsError> {
    Err(JsError(s.into()))
}

macro_rules! hash {
    ($n:ident, $len:expr) => {
        #[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
        #[serde(try_from = "String", into = "String")]
        pub struct $n(Vec<u8>);
        impl $n {
            pub fn from_bytes(bytes: Vec<u8>) -> Result<Self, crate::JsError> {
                if bytes.len() != $len {
                    return crate::err(format!("{}: {} bytes", stringify!($n), bytes.len()));
                }
                Ok($n(bytes))
            }
            pub fn to_bytes(&self) -> Vec<u8> {
                self.0.clone()
            }
            pub fn from_hex(s: &str) -> Result<Self, crate::JsError> {
                Self::from_bytes(hex::decode(s).map_err(|e| crate::JsError(e.to_string()))?)
            }
            pub fn to_hex(&self) -> String {
                hex::encode(&self.0)
            }
        }
        impl std::fmt::Display for $n {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str(&hex::encode(&self.0))
            }
        }
        impl From<$n> for String {
            fn from(x: $n) -> String {
                x.to_hex()
            }
        }
        impl TryFrom<String> for $n {
            type Error = String;
            fn try_from(s: String) -> Result<Self, String> {
                Self::from_hex(&s).map_err(|e| e.to_string())
            }
        }
    };
}

pub mod crypto {
    hash!(Ed25519KeyHash, 28);
    hash!(ScriptHash, 28);
    hash!(TransactionHash, 32);
    hash!(DataHash, 32);
    hash!(AuxiliaryDataHash, 32);
    hash!(Ed25519Signature, 64);
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct PublicKey(pub(crate) [u8; 32]);
    impl PublicKey {
        pub fn from_bytes(b: &[u8]) -> Result<Self, crate::JsError> {
            b.try_into().map(PublicKey).or(crate::err("public key"))
        }
        pub fn as_bytes(&self) -> Vec<u8> {
            self.0.to_vec()
        }
        pub fn hash(&self) -> Ed25519KeyHash {
            Ed25519KeyHash::from_bytes(blake2b_224(&self.0)).unwrap()
        }
    }
    #[cfg(feature = "bip32")]
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct Bip32PublicKey(ed25519_bip32::XPub);
    #[cfg(feature = "bip32")]
    impl Bip32PublicKey {
        pub fn from_bytes(b: &[u8]) -> Result<Self, crate::JsError> {
            ed25519_bip32::XPub::from_slice(b).map(Self).map_err(|e| crate::JsError(e.to_string()))
        }
        pub fn as_bytes(&self) -> Vec<u8> {
            [self.0.public_key_slice(), self.0.chain_code_slice()].concat()
        }
        pub fn derive(&self, index: u32) -> Result<Self, crate::JsError> {
            self.0
                .derive(ed25519_bip32::DerivationScheme::V2, index)
                .map(Self)
                .map_err(|e| crate::JsError(e.to_string()))
        }
        pub fn to_raw_key(&self) -> PublicKey {
            PublicKey(self.0.public_key())
        }
        pub fn chaincode(&self) -> Vec<u8> {
            self.0.chain_code_slice().to_vec()
        }
    }
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct Vkey(pub(crate) PublicKey);
    impl Vkey {
        pub fn new(k: &PublicKey) -> Self {
            Vkey(k.clone())
        }
    }
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct Vkeywitness {
        pub(crate) vkey: Vkey,
        pub(crate) signature: Ed25519Signature,
    }
    impl Vkeywitness {
        pub fn new(vkey: &Vkey, signature: &Ed25519Signature) -> Self {
            Vkeywitness { vkey: vkey.clone(), signature: signature.clone() }
        }
    }
    #[derive(Debug, Clone, PartialEq, Eq, Default)]
    pub struct Vkeywitnesses(pub(crate) Vec<Vkeywitness>);
    impl Vkeywitnesses {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn add(&mut self, w: &Vkeywitness) {
            self.0.push(w.clone())
        }
    }
    pub fn blake2b_224(data: &[u8]) -> Vec<u8> {
        let h = cryptoxide::hashing::blake2b::Blake2b::<224>::new().update(data);
        let mut out = [0; 28];
        h.finalize_at(&mut out);
        out.to_vec()
    }
    pub fn blake2b_256(data: &[u8]) -> Vec<u8> {
        let h = cryptoxide::hashing::blake2b::Blake2b::<256>::new().update(data);
        let mut out = [0; 32];
        h.finalize_at(&mut out);
        out.to_vec()
    }
}
use crypto::*;
pub type PolicyID = ScriptHash;

pub mod address {
    use super::*;
    use bech32::{FromBase32, ToBase32};

    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct NetworkInfo {
        network_id: u8,
        protocol_magic: u32,
    }
    impl NetworkInfo {
        pub fn new(network_id: u8, protocol_magic: u32) -> Self {
            Self { network_id, protocol_magic }
        }
        pub fn network_id(&self) -> u8 {
            self.network_id
        }
        pub fn protocol_magic(&self) -> u32 {
            self.protocol_magic
        }
        pub fn testnet() -> Self {
            Self::new(0, 1097911063)
        }
        pub fn mainnet() -> Self {
            Self::new(1, 764824073)
        }
    }

    #[derive(Debug, Clone, PartialEq, Eq, Hash)]
    pub struct StakeCredential {
        script: bool,
        hash: Vec<u8>,
    }
    impl StakeCredential {
        pub fn from_keyhash(h: &Ed25519KeyHash) -> Self {
            Self { script: false, hash: h.to_bytes() }
        }
        pub fn from_scripthash(h: &ScriptHash) -> Self {
            Self { script: true, hash: h.to_bytes() }
        }
    }

    #[derive(Debug, Clone, PartialEq, Eq, Hash)]
    pub struct Address(Vec<u8>);
    impl Address {
        pub fn from_bytes(b: Vec<u8>) -> Result<Self, JsError> {
            let len = match b.first().map(|h| h >> 4) {
                Some(0..=3) => 57,
                Some(6 | 7 | 14 | 15) => 29,
                Some(x) => return err(format!("kind of address {x}")),
                None => return err("empty address"),
            };
            if b.len() != len {
                return err(format!("address of {} bytes", b.len()));
            }
            Ok(Address(b))
        }
        pub fn to_bytes(&self) -> Vec<u8> {
            self.0.clone()
        }
        pub fn network_id(&self) -> Result<u8, JsError> {
            Ok(self.0[0] & 15)
        }
        pub fn to_bech32(&self, prefix: Option<String>) -> Result<String, JsError> {
            let prefix = prefix.unwrap_or_else(|| {
                let head = if self.0[0] >> 4 >= 14 { "stake" } else { "addr" };
                let tail = if self.0[0] & 15 == 1 { "" } else { "_test" };
                format!("{head}{tail}")
            });
            bech32::encode(&prefix, self.0.to_base32(), bech32::Variant::Bech32).map_err(|e| JsError(e.to_string()))
        }
        pub fn from_bech32(s: &str) -> Result<Self, JsError> {
            let (_, data, _) = bech32::decode(s).map_err(|e| JsError(e.to_string()))?;
            Self::from_bytes(Vec::<u8>::from_base32(&data).map_err(|e| JsError(e.to_string()))?)
        }
    }

    pub struct BaseAddress(Address);
    impl BaseAddress {
        pub fn new(network: u8, payment: &StakeCredential, stake: &StakeCredential) -> Self {
            let mut b = vec![(payment.script as u8) << 4 | (stake.script as u8) << 5 | (network & 15)];
            b.extend(&payment.hash);
            b.extend(&stake.hash);
            BaseAddress(Address(b))
        }
        pub fn to_address(&self) -> Address {
            self.0.clone()
        }
    }
    pub struct EnterpriseAddress(Address);
    impl EnterpriseAddress {
        pub fn new(network: u8, payment: &StakeCredential) -> Self {
            let mut b = vec![6 << 4 | (payment.script as u8) << 4 | (network & 15)];
            b.extend(&payment.hash);
            EnterpriseAddress(Address(b))
        }
        pub fn to_address(&self) -> Address {
            self.0.clone()
        }
    }
}
use address::Address;

pub mod ledger {
    pub mod common {
        pub mod value {
            use crate::*;
            #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default, serde::Serialize, serde::Deserialize)]
            pub struct BigNum(u64);
            pub type Coin = BigNum;
            impl BigNum {
                pub fn from_str(s: &str) -> Result<Self, JsError> {
                    s.parse().map(BigNum).map_err(|e: std::num::ParseIntError| JsError(e.to_string()))
                }
                pub fn to_str(&self) -> String {
                    self.0.to_string()
                }
                pub fn zero() -> Self {
                    BigNum(0)
                }
                pub fn is_zero(&self) -> bool {
                    self.0 == 0
                }
                pub fn checked_mul(&self, o: &BigNum) -> Result<BigNum, JsError> {
                    self.0.checked_mul(o.0).map(BigNum).ok_or(JsError("overflow".into()))
                }
                pub fn checked_add(&self, o: &BigNum) -> Result<BigNum, JsError> {
                    self.0.checked_add(o.0).map(BigNum).ok_or(JsError("overflow".into()))
                }
                pub fn checked_sub(&self, o: &BigNum) -> Result<BigNum, JsError> {
                    self.0.checked_sub(o.0).map(BigNum).ok_or(JsError("underflow".into()))
                }
                pub fn clamped_sub(&self, o: &BigNum) -> BigNum {
                    BigNum(self.0.saturating_sub(o.0))
                }
                pub fn compare(&self, o: &BigNum) -> i8 {
                    self.0.cmp(&o.0) as i8
                }
            }
            impl From<u64> for BigNum {
                fn from(x: u64) -> Self {
                    BigNum(x)
                }
            }
            impl From<BigNum> for u64 {
                fn from(x: BigNum) -> u64 {
                    x.0
                }
            }
            impl fmt::Display for BigNum {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    self.0.fmt(f)
                }
            }

            #[derive(Debug, Clone, PartialEq, Eq)]
            pub struct Value {
                coin: Coin,
                multiasset: Option<MultiAsset>,
            }
            impl Value {
                pub fn new(coin: &Coin) -> Self {
                    Value { coin: *coin, multiasset: None }
                }
                pub fn coin(&self) -> Coin {
                    self.coin
                }
                pub fn set_coin(&mut self, coin: &Coin) {
                    self.coin = *coin;
                }
                pub fn multiasset(&self) -> Option<MultiAsset> {
                    self.multiasset.clone()
                }
                pub fn set_multiasset(&mut self, m: &MultiAsset) {
                    self.multiasset = Some(m.clone());
                }
                pub(crate) fn write(&self, out: &mut Vec<u8>) {
                    match &self.multiasset {
                        Some(m) if m.len() > 0 => {
                            c::array(out, 2);
                            c::uint(out, self.coin.0);
                            m.write(out);
                        }
                        _ => c::uint(out, self.coin.0),
                    }
                }
            }
        }
    }
    pub mod alonzo {
        pub mod fees {
            use crate::ledger::common::value::*;
            use crate::*;
            #[derive(Debug, Clone, PartialEq, Eq)]
            pub struct LinearFee {
                coefficient: Coin,
                constant: Coin,
            }
            impl LinearFee {
                pub fn new(coefficient: &Coin, constant: &Coin) -> Self {
                    LinearFee { coefficient: *coefficient, constant: *constant }
                }
                pub fn coefficient(&self) -> Coin {
                    self.coefficient
                }
                pub fn constant(&self) -> Coin {
                    self.constant
                }
            }
            pub fn min_no_script_fee(tx: &Transaction, fee: &LinearFee) -> Result<Coin, JsError> {
                BigNum::from(tx.to_bytes().len() as u64).checked_mul(&fee.coefficient)?.checked_add(&fee.constant)
            }
        }
    }
    pub mod babbage {
        pub mod min_ada {
            use crate::ledger::common::value::*;
            use crate::plutus::ScriptRef;
            use crate::*;
            /// the least an output has to hold
            pub fn min_ada_required(output: &TransactionOutput, per_byte: &BigNum) -> Result<BigNum, JsError> {
                let mut out = output.clone();
                loop {
                    let size = out.to_bytes().len() as u64;
                    let min = BigNum::from(160 + size).checked_mul(per_byte)?;
                    if out.amount().coin() >= min {
                        return Ok(min);
                    }
                    let mut v = out.amount();
                    v.set_coin(&min);
                    out.amount = v;
                }
            }
            pub fn min_pure_ada(
                per_byte: &BigNum,
                address: &Address,
                datum: &Option<Datum>,
                script_ref: &Option<ScriptRef>,
            ) -> Result<BigNum, JsError> {
                let mut out = TransactionOutput::new(address, &Value::new(&BigNum::zero()));
                out.datum = datum.clone();
                out.script_ref = script_ref.clone();
                // the amount alone moves with itself
                min_ada_required(&out, per_byte)
            }
        }
    }
}
use ledger::common::value::*;

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct AssetName(Vec<u8>);
impl AssetName {
    pub fn new(name: Vec<u8>) -> Result<Self, JsError> {
        if name.len() > 32 {
            return err("a name of more than 32 bytes");
        }
        Ok(AssetName(name))
    }
    pub fn name(&self) -> Vec<u8> {
        self.0.clone()
    }
    /// its CBOR
    pub fn to_bytes(&self) -> Vec<u8> {
        let mut out = vec![];
        c::bytes(&mut out, &self.0);
        out
    }
}

macro_rules! keys {
    ($n:ident, $t:ty) => {
        #[derive(Debug, Clone)]
        pub struct $n(Vec<$t>);
        impl $n {
            pub fn len(&self) -> usize {
                self.0.len()
            }
            pub fn get(&self, i: usize) -> $t {
                self.0[i].clone()
            }
        }
    };
}
keys!(PolicyIDs, PolicyID);
keys!(AssetNames, AssetName);

#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct Assets(BTreeMap<AssetName, BigNum>);
impl Assets {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn insert(&mut self, k: &AssetName, v: &BigNum) -> Option<BigNum> {
        self.0.insert(k.clone(), *v)
    }
    pub fn get(&self, k: &AssetName) -> Option<BigNum> {
        self.0.get(k).copied()
    }
    pub fn keys(&self) -> AssetNames {
        AssetNames(self.0.keys().cloned().collect())
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct MultiAsset(BTreeMap<PolicyID, Assets>);
impl MultiAsset {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn get(&self, p: &PolicyID) -> Option<Assets> {
        self.0.get(p).cloned()
    }
    pub fn insert(&mut self, p: &PolicyID, a: &Assets) -> Option<Assets> {
        self.0.insert(p.clone(), a.clone())
    }
    pub fn set_asset(&mut self, p: &PolicyID, n: &AssetName, v: &BigNum) -> Option<BigNum> {
        self.0.entry(p.clone()).or_default().insert(n, v)
    }
    pub fn get_asset(&self, p: &PolicyID, n: &AssetName) -> BigNum {
        self.0.get(p).and_then(|a| a.get(n)).unwrap_or_default()
    }
    pub fn keys(&self) -> PolicyIDs {
        PolicyIDs(self.0.keys().cloned().collect())
    }
    fn write(&self, out: &mut Vec<u8>) {
        c::map(out, self.0.len());
        for (p, a) in &self.0 {
            c::bytes(out, &p.to_bytes());
            c::map(out, a.0.len());
            for (n, q) in &a.0 {
                c::bytes(out, &n.0);
                c::uint(out, u64::from(*q));
            }
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct TransactionInput {
    transaction_id: TransactionHash,
    index: BigNum,
}
impl TransactionInput {
    pub fn new(id: &TransactionHash, index: &BigNum) -> Self {
        TransactionInput { transaction_id: id.clone(), index: *index }
    }
    pub fn transaction_id(&self) -> TransactionHash {
        self.transaction_id.clone()
    }
    pub fn index(&self) -> BigNum {
        self.index
    }
    fn write(&self, out: &mut Vec<u8>) {
        c::array(out, 2);
        c::bytes(out, &self.transaction_id.to_bytes());
        c::uint(out, u64::from(self.index));
    }
}

#[derive(Debug, Clone, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub enum DatumEnum {
    Hash(DataHash),
    Data(plutus::PlutusData),
}
#[derive(Debug, Clone, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub struct Datum(DatumEnum);
impl Datum {
    pub fn new_data_hash(h: &DataHash) -> Self {
        Datum(DatumEnum::Hash(h.clone()))
    }
    pub fn new_data(d: &plutus::PlutusData) -> Self {
        Datum(DatumEnum::Data(d.clone()))
    }
}

pub mod plutus {
    use super::*;
    #[derive(Debug, Clone, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
    pub enum PlutusData {
        Integer(u64),
        Bytes(Vec<u8>),
    }
    impl PlutusData {
        pub fn new_bytes(b: Vec<u8>) -> Self {
            PlutusData::Bytes(b)
        }
        pub fn to_bytes(&self) -> Vec<u8> {
            let mut out = vec![];
            match self {
                PlutusData::Integer(n) => c::uint(&mut out, *n),
                PlutusData::Bytes(b) => c::bytes(&mut out, b),
            }
            out
        }
    }
    #[derive(Debug, Clone, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
    pub enum ScriptRef {
        Native(NativeScript),
        PlutusV2(Vec<u8>),
    }
    impl ScriptRef {
        pub fn new_native_script(s: &NativeScript) -> Self {
            ScriptRef::Native(s.clone())
        }
        pub(crate) fn to_bytes(&self) -> Vec<u8> {
            let mut out = vec![];
            c::array(&mut out, 2);
            match self {
                ScriptRef::Native(s) => {
                    c::uint(&mut out, 0);
                    s.write(&mut out);
                }
                ScriptRef::PlutusV2(b) => {
                    c::uint(&mut out, 2);
                    c::bytes(&mut out, b);
                }
            }
            out
        }
    }
    #[derive(Debug, Clone)]
    pub struct ExUnitPrices(UnitInterval, UnitInterval);
    impl ExUnitPrices {
        pub fn new(mem: &UnitInterval, step: &UnitInterval) -> Self {
            ExUnitPrices(mem.clone(), step.clone())
        }
    }
}
use plutus::{PlutusData, ScriptRef};

#[derive(Debug, Clone)]
pub struct UnitInterval(BigNum, BigNum);
impl UnitInterval {
    pub fn new(n: &BigNum, d: &BigNum) -> Self {
        UnitInterval(*n, *d)
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct TransactionOutput {
    address: Address,
    amount: Value,
    datum: Option<Datum>,
    script_ref: Option<ScriptRef>,
}
impl TransactionOutput {
    pub fn new(address: &Address, amount: &Value) -> Self {
        TransactionOutput { address: address.clone(), amount: amount.clone(), datum: None, script_ref: None }
    }
    pub fn address(&self) -> Address {
        self.address.clone()
    }
    pub fn amount(&self) -> Value {
        self.amount.clone()
    }
    pub fn datum(&self) -> Option<Datum> {
        self.datum.clone()
    }
    pub fn script_ref(&self) -> Option<ScriptRef> {
        self.script_ref.clone()
    }
    pub fn set_datum(&mut self, d: &Datum) {
        self.datum = Some(d.clone());
    }
    pub fn set_script_ref(&mut self, s: &ScriptRef) {
        self.script_ref = Some(s.clone());
    }
    pub fn to_bytes(&self) -> Vec<u8> {
        let mut out = vec![];
        self.write(&mut out);
        out
    }
    fn write(&self, out: &mut Vec<u8>) {
        let inline = matches!(&self.datum, Some(Datum(DatumEnum::Data(_))));
        if !inline && self.script_ref.is_none() {
            c::array(out, 2 + self.datum.is_some() as usize);
            c::bytes(out, &self.address.to_bytes());
            self.amount.write(out);
            if let Some(Datum(DatumEnum::Hash(h))) = &self.datum {
                c::bytes(out, &h.to_bytes());
            }
            return;
        }
        c::map(out, 2 + self.datum.is_some() as usize + self.script_ref.is_some() as usize);
        c::uint(out, 0);
        c::bytes(out, &self.address.to_bytes());
        c::uint(out, 1);
        self.amount.write(out);
        match &self.datum {
            Some(Datum(DatumEnum::Hash(h))) => {
                c::uint(out, 2);
                c::array(out, 2);
                c::uint(out, 0);
                c::bytes(out, &h.to_bytes());
            }
            Some(Datum(DatumEnum::Data(d))) => {
                c::uint(out, 2);
                c::array(out, 2);
                c::uint(out, 1);
                c::tag(out, 24);
                c::bytes(out, &d.to_bytes());
            }
            None => {}
        }
        if let Some(s) = &self.script_ref {
            c::uint(out, 3);
            c::tag(out, 24);
            c::bytes(out, &s.to_bytes());
        }
    }
}

macro_rules! list {
    ($n:ident, $t:ty) => {
        #[derive(Debug, Clone, PartialEq, Eq, Default, serde::Serialize, serde::Deserialize)]
        pub struct $n(Vec<$t>);
        impl $n {
            pub fn new() -> Self {
                Self(vec![])
            }
            pub fn len(&self) -> usize {
                self.0.len()
            }
            pub fn get(&self, i: usize) -> $t {
                self.0[i].clone()
            }
            pub fn add(&mut self, x: &$t) {
                self.0.push(x.clone())
            }
        }
    };
}
macro_rules! plain_list {
    ($n:ident, $t:ty) => {
        #[derive(Debug, Clone, PartialEq, Eq, Default)]
        pub struct $n(Vec<$t>);
        impl $n {
            pub fn new() -> Self {
                Self(vec![])
            }
            pub fn len(&self) -> usize {
                self.0.len()
            }
            pub fn get(&self, i: usize) -> $t {
                self.0[i].clone()
            }
            pub fn add(&mut self, x: &$t) {
                self.0.push(x.clone())
            }
        }
    };
}
list!(NativeScripts, NativeScript);
list!(RequiredSigners, Ed25519KeyHash);
plain_list!(TransactionInputs, TransactionInput);
plain_list!(TransactionOutputs, TransactionOutput);

#[derive(Debug, Clone, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub struct ScriptPubkey(Ed25519KeyHash);
impl ScriptPubkey {
    pub fn new(k: &Ed25519KeyHash) -> Self {
        ScriptPubkey(k.clone())
    }
    pub fn addr_keyhash(&self) -> Ed25519KeyHash {
        self.0.clone()
    }
}
#[derive(Debug, Clone, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub struct ScriptNOfK {
    n: u32,
    native_scripts: NativeScripts,
}
impl ScriptNOfK {
    pub fn new(n: u32, s: &NativeScripts) -> Self {
        ScriptNOfK { n, native_scripts: s.clone() }
    }
    pub fn n(&self) -> u32 {
        self.n
    }
    pub fn native_scripts(&self) -> NativeScripts {
        self.native_scripts.clone()
    }
}
#[derive(Debug, Clone, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub enum NativeScriptEnum {
    Pubkey(ScriptPubkey),
    NOfK(ScriptNOfK),
}
#[derive(Debug, Clone, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub struct NativeScript(NativeScriptEnum);
impl NativeScript {
    pub fn new_script_pubkey(p: &ScriptPubkey) -> Self {
        NativeScript(NativeScriptEnum::Pubkey(p.clone()))
    }
    pub fn new_script_n_of_k(p: &ScriptNOfK) -> Self {
        NativeScript(NativeScriptEnum::NOfK(p.clone()))
    }
    pub fn as_script_pubkey(&self) -> Option<ScriptPubkey> {
        match &self.0 {
            NativeScriptEnum::Pubkey(p) => Some(p.clone()),
            _ => None,
        }
    }
    pub fn as_script_n_of_k(&self) -> Option<ScriptNOfK> {
        match &self.0 {
            NativeScriptEnum::NOfK(p) => Some(p.clone()),
            _ => None,
        }
    }
    fn write(&self, out: &mut Vec<u8>) {
        match &self.0 {
            NativeScriptEnum::Pubkey(p) => {
                c::array(out, 2);
                c::uint(out, 0);
                c::bytes(out, &p.0.to_bytes());
            }
            NativeScriptEnum::NOfK(s) => {
                c::array(out, 3);
                c::uint(out, 3);
                c::uint(out, s.n as u64);
                c::array(out, s.native_scripts.len());
                for x in &s.native_scripts.0 {
                    x.write(out);
                }
            }
        }
    }
    pub fn to_bytes(&self) -> Vec<u8> {
        let mut out = vec![];
        self.write(&mut out);
        out
    }
    pub fn hash(&self) -> ScriptHash {
        let mut data = vec![0];
        self.write(&mut data);
        ScriptHash::from_bytes(blake2b_224(&data)).unwrap()
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct TransactionWitnessSet {
    vkeys: Option<Vkeywitnesses>,
    native_scripts: Option<NativeScripts>,
}
impl TransactionWitnessSet {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn set_vkeys(&mut self, v: &Vkeywitnesses) {
        self.vkeys = Some(v.clone());
    }
    pub fn set_native_scripts(&mut self, s: &NativeScripts) {
        self.native_scripts = Some(s.clone());
    }
    pub fn to_bytes(&self) -> Vec<u8> {
        let mut out = vec![];
        c::map(&mut out, self.vkeys.is_some() as usize + self.native_scripts.is_some() as usize);
        if let Some(v) = &self.vkeys {
            c::uint(&mut out, 0);
            c::array(&mut out, v.0.len());
            for w in &v.0 {
                c::array(&mut out, 2);
                c::bytes(&mut out, &w.vkey.0 .0);
                c::bytes(&mut out, &w.signature.to_bytes());
            }
        }
        if let Some(s) = &self.native_scripts {
            c::uint(&mut out, 1);
            c::array(&mut out, s.0.len());
            for x in &s.0 {
                x.write(&mut out);
            }
        }
        out
    }
}

pub mod metadata {
    use super::*;
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct TransactionMetadatum(String);
    impl TransactionMetadatum {
        pub fn new_text(s: String) -> Result<Self, JsError> {
            if s.len() > 64 {
                return err("a text of more than 64 bytes");
            }
            Ok(TransactionMetadatum(s))
        }
    }
    #[derive(Debug, Clone, PartialEq, Eq, Default)]
    pub struct GeneralTransactionMetadata(BTreeMap<u64, TransactionMetadatum>);
    impl GeneralTransactionMetadata {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn insert(&mut self, k: &BigNum, v: &TransactionMetadatum) -> Option<TransactionMetadatum> {
            self.0.insert(u64::from(*k), v.clone())
        }
    }
    #[derive(Debug, Clone, PartialEq, Eq, Default)]
    pub struct AuxiliaryData(Option<GeneralTransactionMetadata>);
    impl AuxiliaryData {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn set_metadata(&mut self, m: &GeneralTransactionMetadata) {
            self.0 = Some(m.clone());
        }
        pub fn to_bytes(&self) -> Vec<u8> {
            let mut out = vec![];
            let m = self.0.clone().unwrap_or_default();
            c::map(&mut out, m.0.len());
            for (k, v) in &m.0 {
                c::uint(&mut out, *k);
                c::text(&mut out, &v.0);
            }
            out
        }
    }
}
use metadata::AuxiliaryData;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct TransactionBody {
    inputs: TransactionInputs,
    outputs: TransactionOutputs,
    fee: Coin,
    ttl: Option<BigNum>,
    auxiliary_data_hash: Option<AuxiliaryDataHash>,
}
impl TransactionBody {
    pub fn new(inputs: &TransactionInputs, outputs: &TransactionOutputs, fee: &Coin, ttl: Option<BigNum>) -> Self {
        TransactionBody { inputs: inputs.clone(), outputs: outputs.clone(), fee: *fee, ttl, auxiliary_data_hash: None }
    }
    pub fn set_auxiliary_data_hash(&mut self, h: &AuxiliaryDataHash) {
        self.auxiliary_data_hash = Some(h.clone());
    }
    fn write(&self, out: &mut Vec<u8>) {
        c::map(out, 3 + self.ttl.is_some() as usize + self.auxiliary_data_hash.is_some() as usize);
        c::uint(out, 0);
        c::array(out, self.inputs.len());
        for i in &self.inputs.0 {
            i.write(out);
        }
        c::uint(out, 1);
        c::array(out, self.outputs.len());
        for o in &self.outputs.0 {
            o.write(out);
        }
        c::uint(out, 2);
        c::uint(out, u64::from(self.fee));
        if let Some(t) = self.ttl {
            c::uint(out, 3);
            c::uint(out, u64::from(t));
        }
        if let Some(h) = &self.auxiliary_data_hash {
            c::uint(out, 7);
            c::bytes(out, &h.to_bytes());
        }
    }
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Transaction {
    body: TransactionBody,
    witness_set: TransactionWitnessSet,
    auxiliary_data: Option<AuxiliaryData>,
}
impl Transaction {
    pub fn new(body: &TransactionBody, witness_set: &TransactionWitnessSet, auxiliary_data: Option<AuxiliaryData>) -> Self {
        Transaction { body: body.clone(), witness_set: witness_set.clone(), auxiliary_data }
    }
    pub fn to_bytes(&self) -> Vec<u8> {
        let mut out = vec![];
        c::array(&mut out, 4);
        self.body.write(&mut out);
        out.extend(self.witness_set.to_bytes());
        out.push(0xf5);
        match &self.auxiliary_data {
            Some(a) => out.extend(a.to_bytes()),
            None => out.push(0xf6),
        }
        out
    }
}

pub mod builders;
