//! A builder of transactions that accounts for what is added with witnesses of the right size.
pub mod witness_builder {
    use crate::crypto::Ed25519KeyHash;
    #[derive(Debug, Clone, PartialEq)]
    pub struct NativeScriptWitnessInfo(pub(crate) u32);
    impl NativeScriptWitnessInfo {
        pub fn num_signatures(n: u32) -> Self {
            NativeScriptWitnessInfo(n)
        }
        pub fn vkeys(v: &[Ed25519KeyHash]) -> Self {
            NativeScriptWitnessInfo(v.len() as u32)
        }
    }
    #[derive(Debug, Clone, PartialEq)]
    pub struct PartialPlutusWitness(pub(crate) Vec<u8>);
    impl PartialPlutusWitness {
        pub fn of_script(s: Vec<u8>) -> Self {
            PartialPlutusWitness(s)
        }
    }
}
pub mod input_builder {
    use super::witness_builder::*;
    use crate::*;
    #[derive(Debug, Clone, PartialEq)]
    pub enum Witness {
        Key(Vec<u8>),
        Native(NativeScript, NativeScriptWitnessInfo),
        Plutus(PartialPlutusWitness, RequiredSigners, PlutusData),
    }
    #[derive(Debug, Clone, PartialEq)]
    pub struct InputBuilderResult {
        pub input: TransactionInput,
        pub utxo_info: TransactionOutput,
        pub witness: Witness,
    }
    pub struct SingleInputBuilder {
        input: TransactionInput,
        utxo_info: TransactionOutput,
    }
    impl SingleInputBuilder {
        pub fn new(input: &TransactionInput, utxo_info: &TransactionOutput) -> Self {
            Self { input: input.clone(), utxo_info: utxo_info.clone() }
        }
        fn with(&self, witness: Witness) -> Result<InputBuilderResult, JsError> {
            Ok(InputBuilderResult { input: self.input.clone(), utxo_info: self.utxo_info.clone(), witness })
        }
        pub fn payment_key(&self) -> Result<InputBuilderResult, JsError> {
            let a = self.utxo_info.address().to_bytes();
            if a[0] >> 4 & 1 == 1 {
                return err("the output is a script's");
            }
            self.with(Witness::Key(a[1..29].to_vec()))
        }
        pub fn native_script(&self, s: &NativeScript, info: &NativeScriptWitnessInfo) -> Result<InputBuilderResult, JsError> {
            let a = self.utxo_info.address().to_bytes();
            if a[0] >> 4 & 1 == 0 || s.hash().to_bytes() != a[1..29] {
                return err("the output is not that script's");
            }
            self.with(Witness::Native(s.clone(), info.clone()))
        }
        pub fn plutus_script(&self, w: &PartialPlutusWitness, r: &RequiredSigners, d: &PlutusData) -> Result<InputBuilderResult, JsError> {
            self.with(Witness::Plutus(w.clone(), r.clone(), d.clone()))
        }
    }
}
pub mod output_builder {
    use crate::*;
    #[derive(Debug, Clone, PartialEq)]
    pub struct SingleOutputBuilderResult(pub(crate) TransactionOutput);
    impl SingleOutputBuilderResult {
        pub fn new(o: &TransactionOutput) -> Self {
            SingleOutputBuilderResult(o.clone())
        }
    }
}
pub mod tx_builder {
    use super::input_builder::*;
    use super::output_builder::*;
    use crate::ledger::alonzo::fees::*;
    use crate::plutus::ExUnitPrices;
    use crate::*;
    #[derive(Debug, Clone)]
    pub struct TransactionBuilderConfig {
        pub fee_algo: LinearFee,
        pub coins_per_utxo_byte: BigNum,
        pub pool_deposit: BigNum,
        pub key_deposit: BigNum,
        pub max_value_size: u32,
        pub max_tx_size: u32,
    }
    #[derive(Debug, Clone, Default)]
    pub struct TransactionBuilderConfigBuilder {
        fee_algo: Option<LinearFee>,
        coins_per_utxo_byte: Option<BigNum>,
        pool_deposit: Option<BigNum>,
        key_deposit: Option<BigNum>,
        max_value_size: Option<u32>,
        max_tx_size: Option<u32>,
    }
    macro_rules! set {
        ($f:ident, $t:ty) => {
            pub fn $f(&self, x: &$t) -> Self {
                Self { $f: Some(x.clone()), ..self.clone() }
            }
        };
    }
    impl TransactionBuilderConfigBuilder {
        pub fn new() -> Self {
            Self::default()
        }
        set!(fee_algo, LinearFee);
        set!(coins_per_utxo_byte, BigNum);
        set!(pool_deposit, BigNum);
        set!(key_deposit, BigNum);
        pub fn coins_per_utxo_word(&self, x: &BigNum) -> Self {
            Self { coins_per_utxo_byte: Some(BigNum::from(u64::from(*x) / 8)), ..self.clone() }
        }
        pub fn max_value_size(&self, x: u32) -> Self {
            Self { max_value_size: Some(x), ..self.clone() }
        }
        pub fn max_tx_size(&self, x: u32) -> Self {
            Self { max_tx_size: Some(x), ..self.clone() }
        }
        pub fn ex_unit_prices(&self, _: &ExUnitPrices) -> Self {
            self.clone()
        }
        pub fn collateral_percentage(&self, _: u32) -> Self {
            self.clone()
        }
        pub fn max_collateral_inputs(&self, _: u32) -> Self {
            self.clone()
        }
        pub fn build(&self) -> Result<TransactionBuilderConfig, JsError> {
            let no = |what: &str| JsError(format!("uninitialized field: {what}"));
            Ok(TransactionBuilderConfig {
                fee_algo: self.fee_algo.clone().ok_or_else(|| no("fee_algo"))?,
                coins_per_utxo_byte: self.coins_per_utxo_byte.ok_or_else(|| no("coins_per_utxo_byte"))?,
                pool_deposit: self.pool_deposit.ok_or_else(|| no("pool_deposit"))?,
                key_deposit: self.key_deposit.ok_or_else(|| no("key_deposit"))?,
                max_value_size: self.max_value_size.ok_or_else(|| no("max_value_size"))?,
                max_tx_size: self.max_tx_size.ok_or_else(|| no("max_tx_size"))?,
            })
        }
    }
    #[derive(Debug, Clone)]
    pub struct TransactionBuilder {
        config: TransactionBuilderConfig,
        pub inputs: Vec<InputBuilderResult>,
        pub outputs: Vec<TransactionOutput>,
        fee: Option<Coin>,
    }
    impl TransactionBuilder {
        pub fn new(config: &TransactionBuilderConfig) -> Self {
            TransactionBuilder { config: config.clone(), inputs: vec![], outputs: vec![], fee: None }
        }
        pub fn add_input(&mut self, i: &InputBuilderResult) -> Result<(), JsError> {
            self.inputs.push(i.clone());
            Ok(())
        }
        pub fn add_output(&mut self, o: &SingleOutputBuilderResult) -> Result<(), JsError> {
            self.outputs.push(o.0.clone());
            Ok(())
        }
        pub fn set_fee(&mut self, fee: &Coin) {
            self.fee = Some(*fee);
        }
        pub fn get_fee_if_set(&self) -> Option<Coin> {
            self.fee
        }
        fn size(&self, fee: Coin) -> usize {
            let (mut ins, mut outs) = (TransactionInputs::new(), TransactionOutputs::new());
            self.inputs.iter().for_each(|i| ins.add(&i.input));
            self.outputs.iter().for_each(|o| outs.add(o));
            let (mut keys, mut signatures, mut scripts, mut rest) = (std::collections::BTreeSet::new(), 0, vec![], 0);
            for i in &self.inputs {
                match &i.witness {
                    Witness::Key(k) => {
                        keys.insert(k.clone());
                    }
                    Witness::Native(s, n) => {
                        if !scripts.contains(s) {
                            scripts.push(s.clone());
                            signatures += n.0 as usize;
                        }
                    }
                    Witness::Plutus(w, r, d) => {
                        rest += w.0.len() + d.to_bytes().len() + 14;
                        (0..r.len()).for_each(|k| {
                            keys.insert(r.get(k).to_bytes());
                        });
                    }
                }
            }
            let mut set = TransactionWitnessSet::new();
            let mut v = Vkeywitnesses::new();
            let key = Vkey::new(&PublicKey::from_bytes(&[0; 32]).unwrap());
            let w = Vkeywitness::new(&key, &Ed25519Signature::from_bytes(vec![0; 64]).unwrap());
            (0..keys.len() + signatures).for_each(|_| v.add(&w));
            if keys.len() + signatures > 0 {
                set.set_vkeys(&v);
            }
            if !scripts.is_empty() {
                set.set_native_scripts(&NativeScripts(scripts));
            }
            let body = TransactionBody::new(&ins, &outs, &fee, None);
            Transaction::new(&body, &set, None).to_bytes().len() + rest
        }
        pub fn full_size(&self) -> Result<usize, JsError> {
            let fee = self.fee.ok_or(JsError("no fee set".into()))?;
            Ok(self.size(fee))
        }
        pub fn min_fee(&self, _script_calculation: bool) -> Result<Coin, JsError> {
            // with the widest fee
            let size = self.size(BigNum::from(0x1_0000_0000));
            BigNum::from(size as u64).checked_mul(&self.config.fee_algo.coefficient())?.checked_add(&self.config.fee_algo.constant())
        }
        pub fn fee_for_input(&self, i: &InputBuilderResult) -> Result<Coin, JsError> {
            let mut with = self.clone();
            with.add_input(i)?;
            with.min_fee(false)?.checked_sub(&self.min_fee(false)?)
        }
        pub fn fee_for_output(&self, o: &SingleOutputBuilderResult) -> Result<Coin, JsError> {
            let mut with = self.clone();
            with.add_output(o)?;
            with.min_fee(false)?.checked_sub(&self.min_fee(false)?)
        }
    }
}
