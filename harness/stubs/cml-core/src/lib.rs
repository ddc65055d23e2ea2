//! The few items of cml-core that dcspark-blockchain-source uses.
pub mod network {
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct ProtocolMagic(u32);
    impl From<u32> for ProtocolMagic {
        fn from(x: u32) -> Self {
            Self(x)
        }
    }
    impl From<ProtocolMagic> for u32 {
        fn from(x: ProtocolMagic) -> Self {
            x.0
        }
    }
}
pub mod error {
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct DeserializeError(pub String);
    impl std::fmt::Display for DeserializeError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "Deserialization failed: {}", self.0)
        }
    }
    impl std::error::Error for DeserializeError {}
}
