//! C34: events of a Cardano network
use dcspark_blockchain_source::cardano::{BlockEvent, CardanoNetworkEvent, Point};
use dcspark_blockchain_source::{EventObject, GetNextFrom};
use dcspark_core::{BlockId, BlockNumber};
use multiverse::{Multiverse, Variant};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use vhrun::{check, check_eq, Check, Cx, OrFail, Res, Tier};

type Ev = CardanoNetworkEvent<BlockEvent, String>;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Block {
    id: String,
    parent: String,
    number: u64,
    slot: u64,
    boundary: bool,
    epoch: u64,
    raw: Vec<u8>,
}

impl Block {
    fn event(&self) -> BlockEvent {
        BlockEvent {
            id: BlockId::new(self.id.clone()),
            parent_id: BlockId::new(self.parent.clone()),
            block_number: BlockNumber::new(self.number),
            raw_block: self.raw.clone(),
            slot_number: self.slot.into(),
            is_boundary_block: self.boundary,
            epoch: self.epoch,
        }
    }
    fn of(e: &BlockEvent) -> Self {
        Block {
            id: e.id.to_string(),
            parent: e.parent_id.to_string(),
            number: e.block_number.into_inner(),
            slot: e.slot_number.into(),
            boundary: e.is_boundary_block,
            epoch: e.epoch,
            raw: e.raw_block.clone(),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    blocks: Vec<Block>,
    tip: String,
    on_disk: bool,
}

fn block() -> impl Strategy<Value = Block> {
    let n = || prop_oneof![3 => 0u64..100, 1 => any::<u64>(), 1 => (0u64..3).prop_map(|d| u64::MAX - d)];
    let id = || prop_oneof![4 => "[0-9a-f]{64}", 1 => "[a-zA-Z0-9]{1,8}"];
    let raw = prop_oneof![40 => prop::collection::vec(any::<u8>(), 0..40), 4 => prop::collection::vec(any::<u8>(), 200..700), 1 => (any::<u8>(), 60_000usize..70_000).prop_map(|(b, n)| vec![b; n])];
    (id(), id(), n(), n(), any::<bool>(), n(), raw).prop_map(
        |(id, parent, number, slot, boundary, epoch, raw)| Block { id, parent, number, slot, boundary, epoch, raw },
    )
}

fn block_of(e: &Ev) -> Option<Block> {
    match e {
        CardanoNetworkEvent::Block(b) => Some(Block::of(b)),
        CardanoNetworkEvent::Tip(_) => None,
    }
}

fn mapping(b: &Block, tip: &str) -> Res {
    let block = || Ev::Block(b.event());
    let at_tip = || Ev::Tip(tip.to_string());
    check!(!block().is_blockchain_tip(), "a block is the tip");
    check!(at_tip().is_blockchain_tip(), "a tip is not the tip");
    // the function sees the part it is for, once, and the rest is as it was
    let seen = RefCell::new(0);
    let f = |x: BlockEvent| {
        *seen.borrow_mut() += 1;
        Ok((Block::of(&x), 7u8))
    };
    match block().map_block(f).or_fail("map a block")? {
        CardanoNetworkEvent::Block((x, 7)) => check_eq!(x, *b, "block mapped"),
        _ => check!(false, "a block mapped is a tip"),
    }
    check_eq!(*seen.borrow(), 1, "calls for one block");
    match at_tip().map_block(f).or_fail("map the block of a tip")? {
        CardanoNetworkEvent::Tip(t) => check_eq!(t, tip, "tip after its block was mapped"),
        _ => check!(false, "a tip is a block once its block is mapped"),
    }
    check_eq!(*seen.borrow(), 1, "calls for a tip");
    let g = |x: String| {
        *seen.borrow_mut() += 1;
        Ok((x, 9u8))
    };
    match at_tip().map_tip(g).or_fail("map a tip")? {
        CardanoNetworkEvent::Tip((x, 9)) => check_eq!(x, tip, "tip mapped"),
        _ => check!(false, "a tip mapped is a block"),
    }
    check_eq!(*seen.borrow(), 2, "calls for one tip");
    match block().map_tip(g).or_fail("map the tip of a block")? {
        CardanoNetworkEvent::Block(x) => check_eq!(Block::of(&x), *b, "block after its tip was mapped"),
        _ => check!(false, "a block is a tip once its tip is mapped"),
    }
    check_eq!(*seen.borrow(), 2, "calls for a block");
    // an error of the function is the error, where it is called
    let no = |_: BlockEvent| -> anyhow::Result<u8> { Err(anyhow::anyhow!("no such block")) };
    check!(at_tip().map_block(no).is_ok(), "mapping the block of a tip fails");
    match block().map_block(no) {
        Ok(_) => check!(false, "an error of the function is lost"),
        Err(e) => check!(format!("{e:?}").contains("no such block"), "the error of the function is another: {e:?}"),
    }
    let no = |_: String| -> anyhow::Result<u8> { Err(anyhow::anyhow!("no such tip")) };
    check!(block().map_tip(no).is_ok(), "mapping the tip of a block fails");
    match at_tip().map_tip(no) {
        Ok(_) => check!(false, "an error of the function is lost"),
        Err(e) => check!(format!("{e:?}").contains("no such tip"), "the error of the function is another: {e:?}"),
    }
    Ok(())
}

pub struct C34;
impl Check for C34 {
    type Case = Case;
    const ID: &'static str = "C34";
    const RULE: &'static str = "A case is one to six blocks with any identifiers, numbers, slots, epochs and bytes, and a tip. Each is mapped by its block and by its tip with functions that count their calls, change the part or fail; read through the traits of events; put through JSON; and all are stored in a multiverse (in memory, or on disk and opened again) and compared in full. Non-trivial: at least two blocks.";
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        (prop::collection::vec(block(), 1..7), "\\PC{0,6}", prop::bool::weighted(0.2), any::<bool>())
            .prop_map(|(mut blocks, tip, on_disk, linked)| {
                if linked {
                    for i in 1..blocks.len() {
                        let (id, n) = (blocks[i - 1].id.clone(), blocks[i - 1].number);
                        blocks[i].parent = id;
                        blocks[i].number = n.saturating_add(1);
                    }
                }
                Case { blocks, tip, on_disk }
            })
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(20_000, 300_000)
    }
    fn run(c: &Case, cx: &mut Cx) -> Res {
        cx.nontrivial_if(c.blocks.len() > 1);
        for b in &c.blocks {
            mapping(b, &c.tip)?;
            let e = Ev::Block(b.event());
            check_eq!(Variant::id(&e).to_string(), b.id, "identifier");
            check_eq!(Variant::parent_id(&e).to_string(), b.parent, "parent");
            check_eq!(Variant::block_number(&e), BlockNumber::new(b.number), "number");
            let from = Point::BlockHeader { slot_nb: b.slot.into(), hash: BlockId::new(b.id.clone()) };
            check_eq!(e.next_from(), Some(from), "where to go on from");
            check_eq!(Ev::Tip(c.tip.clone()).next_from(), None, "where to go on from a tip");
            let text = serde_json::to_string(&e).or_fail("to JSON")?;
            let back: Ev = serde_json::from_str(&text).or_fail("from JSON")?;
            check_eq!(block_of(&back), Some(b.clone()), "event from JSON");
            let j = serde_json::to_value(b.event()).or_fail("to JSON")?;
            let back: BlockEvent = serde_json::from_value(j).or_fail("from JSON")?;
            check_eq!(Block::of(&back), *b, "block from JSON");
            check_eq!(block_of(&e.clone()), Some(b.clone()), "event cloned");
        }
        // stored, each under its own identifier
        let mut kept: Vec<&Block> = Vec::new();
        for b in &c.blocks {
            if kept.iter().all(|k| k.id != b.id) && b.id != b.parent {
                kept.push(b);
            }
        }
        let dir = cx.dir();
        // opening right after a close may meet the lock of the one closed
        let db = || -> anyhow::Result<sled::Db> {
            if !c.on_disk {
                return Ok(sled::Config::new().temporary(true).open()?);
            }
            let mut tries = 0;
            loop {
                match sled::Config::new().path(dir.join("db")).open() {
                    Ok(db) => return Ok(db),
                    Err(e) if tries == 500 => return Err(e.into()),
                    Err(_) => tries += 1,
                }
                std::thread::sleep(std::time::Duration::from_millis(10));
            }
        };
        let open = || -> anyhow::Result<Multiverse<BlockId, Ev>> {
            Ok(Multiverse::load_from(db()?, "events", BlockNumber::MIN)?)
        };
        let mut m = open().or_fail("open")?;
        for b in &kept {
            m.insert(Ev::Block(b.event())).or_fail("insert")?;
        }
        if c.on_disk {
            drop(m);
            m = open().or_fail("open again")?;
            cx.label("reopened");
        }
        check_eq!(m.len(), kept.len(), "blocks stored");
        for b in &kept {
            let got = m.get(&BlockId::new(b.id.clone())).and_then(block_of);
            check_eq!(got.as_ref(), Some(*b), "block {} stored", b.id);
        }
        Ok(())
    }
}
