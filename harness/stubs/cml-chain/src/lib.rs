//! The few items of cml-chain that dcspark-blockchain-source uses.
pub mod genesis {
    pub mod network_info {
        use cml_core::network::ProtocolMagic;
        #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct NetworkInfo {
            network_id: u8,
            protocol_magic: ProtocolMagic,
        }
        impl NetworkInfo {
            pub const fn new(network_id: u8, protocol_magic: ProtocolMagic) -> Self {
                Self { network_id, protocol_magic }
            }
            pub fn network_id(&self) -> u8 {
                self.network_id
            }
            pub fn protocol_magic(&self) -> ProtocolMagic {
                self.protocol_magic
            }
            pub fn mainnet() -> Self {
                Self::new(1, ProtocolMagic::from(764824073))
            }
            pub fn testnet() -> Self {
                Self::new(0, ProtocolMagic::from(1097911063))
            }
            pub fn preprod() -> Self {
                Self::new(0, ProtocolMagic::from(1))
            }
            pub fn preview() -> Self {
                Self::new(0, ProtocolMagic::from(2))
            }
            pub fn sancho_testnet() -> Self {
                Self::new(0, ProtocolMagic::from(4))
            }
        }
    }
}
