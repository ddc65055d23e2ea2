//! The few items of cml-multi-era that dcspark-blockchain-source uses, over a block format of the
//! harness's own: 4 bytes "VHB1", kind (0 boundary, 1 Byron, 2.. later), number, slot, epoch (u64,
//! big endian), parent given (0, 1), parent (32 bytes), hash (32 bytes), anything.
use cml_core::error::DeserializeError;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct BlockHeaderHash(pub [u8; 32]);
impl BlockHeaderHash {
    pub fn to_hex(&self) -> String {
        self.0.iter().map(|b| format!("{b:02x}")).collect()
    }
    pub fn to_raw_bytes(&self) -> &[u8] {
        &self.0
    }
}
impl std::fmt::Display for BlockHeaderHash {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.to_hex())
    }
}
impl AsRef<[u8]> for BlockHeaderHash {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl From<BlockHeaderHash> for [u8; 32] {
    fn from(x: BlockHeaderHash) -> Self {
        x.0
    }
}

pub mod utils {
    use super::BlockHeaderHash;
    #[derive(Clone, Debug)]
    pub struct MultiEraBlockHeader {
        pub(crate) number: u64,
        pub(crate) slot: u64,
        pub(crate) parent: Option<BlockHeaderHash>,
    }
    impl MultiEraBlockHeader {
        pub fn block_number(&self) -> u64 {
            self.number
        }
        pub fn slot(&self) -> u64 {
            self.slot
        }
        pub fn prev_hash(&self) -> Option<BlockHeaderHash> {
            self.parent
        }
    }
}

pub mod byron {
    pub mod block {
        use crate::Content;
        #[derive(Clone, Debug)]
        pub struct ByronSlotId {
            pub epoch: u64,
            pub slot: u64,
        }
        #[derive(Clone, Debug)]
        pub struct EbbConsensusData {
            pub epoch_id: u64,
        }
        #[derive(Clone, Debug)]
        pub struct ByronBlockConsensusData {
            pub byron_slot_id: ByronSlotId,
        }
        #[derive(Clone, Debug)]
        pub struct EbbHead {
            pub consensus_data: EbbConsensusData,
        }
        #[derive(Clone, Debug)]
        pub struct ByronBlockHeader {
            pub consensus_data: ByronBlockConsensusData,
        }
        #[derive(Clone, Debug)]
        pub struct ByronEbBlock {
            pub header: EbbHead,
            pub(crate) content: Content,
        }
        #[derive(Clone, Debug)]
        pub struct ByronMainBlock {
            pub header: ByronBlockHeader,
            pub(crate) content: Content,
        }
        #[derive(Clone, Debug)]
        pub enum ByronBlock {
            EpochBoundary(ByronEbBlock),
            Main(ByronMainBlock),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Content {
    header: utils::MultiEraBlockHeader,
    hash: [u8; 32],
}

#[derive(Clone, Debug)]
pub enum MultiEraBlock {
    Byron(byron::block::ByronBlock),
    Shelley(Content),
    Allegra(Content),
    Mary(Content),
    Alonzo(Content),
    Babbage(Content),
    Conway(Content),
}

impl MultiEraBlock {
    pub fn from_explicit_network_cbor_bytes(bytes: &[u8]) -> Result<Self, DeserializeError> {
        use byron::block::*;
        let bad = |what: &str| DeserializeError(what.to_string());
        if bytes.len() < 94 || &bytes[..4] != b"VHB1" {
            return Err(bad("not a block"));
        }
        let n = |at: usize| u64::from_be_bytes(bytes[at..at + 8].try_into().unwrap());
        let h = |at: usize| -> [u8; 32] { bytes[at..at + 32].try_into().unwrap() };
        let (number, slot, epoch) = (n(5), n(13), n(21));
        let parent = match bytes[29] {
            0 => None,
            1 => Some(BlockHeaderHash(h(30))),
            _ => return Err(bad("parent")),
        };
        let content = Content { header: utils::MultiEraBlockHeader { number, slot, parent }, hash: h(62) };
        Ok(match bytes[4] {
            0 => Self::Byron(ByronBlock::EpochBoundary(ByronEbBlock {
                header: EbbHead { consensus_data: EbbConsensusData { epoch_id: epoch } },
                content,
            })),
            1 => Self::Byron(ByronBlock::Main(ByronMainBlock {
                header: ByronBlockHeader {
                    consensus_data: ByronBlockConsensusData {
                        byron_slot_id: ByronSlotId { epoch, slot: slot % 21600 },
                    },
                },
                content,
            })),
            2 => Self::Shelley(content),
            3 => Self::Allegra(content),
            4 => Self::Mary(content),
            5 => Self::Alonzo(content),
            6 => Self::Babbage(content),
            7 => Self::Conway(content),
            _ => return Err(bad("era")),
        })
    }
    fn content(&self) -> &Content {
        use byron::block::ByronBlock::*;
        match self {
            Self::Byron(EpochBoundary(b)) => &b.content,
            Self::Byron(Main(b)) => &b.content,
            Self::Shelley(c) | Self::Allegra(c) | Self::Mary(c) | Self::Alonzo(c) | Self::Babbage(c) | Self::Conway(c) => c,
        }
    }
    pub fn header(&self) -> utils::MultiEraBlockHeader {
        self.content().header.clone()
    }
    pub fn hash(&self) -> [u8; 32] {
        self.content().hash
    }
}
