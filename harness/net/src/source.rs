//! C35: the source of a Cardano node's blocks
use crate::node::*;
use dcspark_blockchain_source::cardano::{
    time::Era, BlockEvent, CardanoNetworkEvent, CardanoSource, NetworkConfiguration, Point, Tip,
};
use dcspark_blockchain_source::Source;
use dcspark_core::{BlockId, SlotNumber};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;
use std::time::Duration;
use vhrun::{check, check_eq, Check, Cx, Fail, OrFail, Res, Tier};

pub const LIMIT: Duration = Duration::from_secs(25);

pub fn point(b: &Blk) -> Point {
    Point::BlockHeader { slot_nb: SlotNumber::new(b.slot), hash: BlockId::new(b.hex()) }
}

pub fn config(port: u16, net: u8, from: Point, genesis: Point, parent: BlockId, era: Era) -> NetworkConfiguration {
    let mut c = match net % 5 {
        0 => NetworkConfiguration::mainnet(),
        1 => NetworkConfiguration::testnet(),
        2 => NetworkConfiguration::preprod(),
        3 => NetworkConfiguration::preview(),
        _ => NetworkConfiguration::sancho(),
    };
    c.relay = ("127.0.0.1".into(), port);
    c.from = from;
    c.genesis = genesis;
    c.genesis_parent = parent;
    c.shelley_era_config = era;
    c
}

pub const MAGICS: [u64; 5] = [764824073, 1097911063, 1, 2, 4];

pub fn runtime(threads: bool) -> tokio::runtime::Runtime {
    if threads {
        tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().expect("runtime")
    } else {
        tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime")
    }
}

/// what the event of a block has to be; None: an error
pub fn expected(b: &Blk, parent: &str, era: &Era) -> Option<(BlockEvent, bool)> {
    if b.garbled {
        return None;
    }
    let epoch = match b.kind {
        0 | 1 => b.epoch,
        _ if b.slot < era.first_slot => return None,
        _ => era.start_epoch + (b.slot - era.first_slot) / (era.epoch_length_seconds / era.slot_length),
    };
    Some((
        BlockEvent {
            id: BlockId::new(b.hex()),
            parent_id: BlockId::new(parent.to_string()),
            block_number: b.number.into(),
            raw_block: b.raw.clone(),
            slot_number: b.slot.into(),
            is_boundary_block: b.kind == 0,
            epoch,
        },
        true,
    ))
}

pub fn same(got: &BlockEvent, want: &BlockEvent) -> Res {
    check_eq!(got.id, want.id, "id of block {:?}", want.id);
    check_eq!(got.parent_id, want.parent_id, "parent of block {:?}", want.id);
    check_eq!(got.block_number, want.block_number, "number of block {:?}", want.id);
    check_eq!(got.slot_number, want.slot_number, "slot of block {:?}", want.id);
    check_eq!(got.is_boundary_block, want.is_boundary_block, "whether block {:?} is a boundary block", want.id);
    check_eq!(got.epoch, want.epoch, "epoch of block {:?}", want.id);
    check!(got.raw_block == want.raw_block, "the bytes of block {:?} differ", want.id);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Sel {
    Known(usize),
    Last,
    Tip,
    Bogus(u8),
    Origin,
    GenesisParent,
    Invalid,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Grow(Vec<Spec>),
    Fork(u8, Vec<Spec>),
    Pull(Vec<Sel>, u8),
    /// until there is nothing
    Drain(Vec<Sel>),
    Clear,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    net: u8,
    threads: bool,
    wire: Wire,
    /// a tip event with each request that brings something, or with the first alone
    every_tip: bool,
    first: Vec<Spec>,
    era_from: u16,
    default_from: Sel,
    faults: Vec<Fault>,
    refuse: Vec<bool>,
    steps: Vec<Step>,
    stop_early: bool,
}

fn sel() -> impl Strategy<Value = Sel> {
    prop_oneof![
        5 => any::<usize>().prop_map(Sel::Known),
        5 => Just(Sel::Last),
        1 => Just(Sel::Tip),
        2 => any::<u8>().prop_map(Sel::Bogus),
        1 => Just(Sel::Origin),
        1 => Just(Sel::GenesisParent),
    ]
}

fn froms() -> impl Strategy<Value = Vec<Sel>> {
    prop_oneof![
        6 => Just(vec![Sel::Last]),
        1 => Just(vec![]),
        1 => Just(vec![Sel::GenesisParent]),
        4 => prop::collection::vec(sel(), 1..6),
        1 => prop::collection::vec(prop_oneof![3 => sel(), 1 => Just(Sel::Invalid)], 1..4),
    ]
}

fn fault() -> impl Strategy<Value = Fault> {
    prop_oneof![
        8 => Just(Fault::None),
        1 => Just(Fault::CloseOnIntersect),
        1 => Just(Fault::CloseOnRange),
        1 => Just(Fault::NoBlocks),
        2 => (0u16..12, any::<bool>()).prop_map(|(n, w)| Fault::CloseAfter(n, w)),
        1 => Just(Fault::CloseThen),
    ]
}

fn step() -> impl Strategy<Value = Step> {
    let specs = |n| prop::collection::vec(spec(0..8, true), 0..n);
    prop_oneof![
        3 => specs(8).prop_map(Step::Grow),
        2 => (0u8..8, specs(10)).prop_map(|(b, s)| Step::Fork(b, s)),
        5 => (froms(), 1u8..6).prop_map(|(f, n)| Step::Pull(f, n)),
        3 => froms().prop_map(Step::Drain),
        1 => Just(Step::Clear),
    ]
}

enum Item {
    Tip(cardano_sdk::protocol::Tip),
    Block(usize),
}

pub struct C35;
impl Check for C35 {
    type Case = Case;
    const ID: &'static str = "C35";
    const RULE: &'static str = "A case is a Cardano node on the loopback interface (chain sync and block fetch over any fragmentation; a chain that grows and forks; connections it closes or refuses at chosen points; blocks that cannot be read) and a history of pulls from sets of known, orphaned and unknown points, cleared buffers and a stop. Each pull must give what the model says: per request a tip event when due, then every block above the highest point on the node's chain, in order and byte for byte, as far as the node sends them. Non-trivial: at least three blocks came out and two requests were made.";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "cardano-multiplatform-lib is replaced by a stand-in with a block format of its own (harness/stubs): the decoding of real blocks is not covered",
        "a node answers the intersection with the first point of the list that is on its chain, and keeps the blocks it left",
    ];
    const SHRINK_ITERS: u32 = 600;
    const WORKERS: u32 = 12;
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let specs = prop_oneof![
            80 => prop::collection::vec(spec(0..8, true), 0..30),
            1 => prop::collection::vec((1u16..4).prop_map(|gap| Spec { gap, kind: 3, extra: 0, garbled: false }), 1000..1400),
        ];
        (
            (any::<u8>(), any::<bool>(), wire(), any::<bool>(), any::<bool>()),
            (specs, 0u16..40, prop_oneof![2 => Just(Sel::Known(0)), 1 => Just(Sel::GenesisParent), 1 => sel()]),
            (prop::collection::vec(fault(), 0..6), prop::collection::vec(prop::bool::weighted(0.3), 0..6)),
            prop_oneof![40 => prop::collection::vec(step(), 1..14), 1 => prop::collection::vec(step(), 14..60)],
        )
            .prop_map(|((net, threads, wire, every_tip, stop_early), (first, era_from, default_from), (faults, refuse), steps)| Case {
                net,
                threads,
                wire,
                every_tip,
                first,
                era_from,
                default_from,
                faults,
                refuse,
                steps,
                stop_early,
            })
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(4_000, 120_000)
    }
    fn run(c: &Case, cx: &mut Cx) -> Res {
        runtime(c.threads).block_on(run(c, cx))
    }
}

async fn run(c: &Case, cx: &mut Cx) -> Res {
    let mut state = State {
        faults: c.faults.clone(),
        refuse: c.refuse.clone(),
        byron: c.era_from % 2 == 0,
        magic: MAGICS[c.net as usize % 5],
        ..State::default()
    };
    let genesis_parent = "5f20df933584822601f9e3f8c024eb5eb252fe8cefb24d1317dc3d432e940ebb".to_string();
    // the genesis block is a boundary block in slot 0
    let mut parent = [0u8; 32];
    hex::decode_to_slice(&genesis_parent, &mut parent).unwrap();
    state.put(&Spec { gap: 0, kind: 0, extra: 3, garbled: false }, None, Some(parent), 0, 0);
    for s in &c.first {
        state.grow(s);
    }
    let era = Era { first_slot: c.era_from as u64, start_epoch: 4, known_time: 1_600_000_000, slot_length: 1, epoch_length_seconds: 500 };
    let genesis = point(&state.blocks[0]);
    let node = Node::start(state, c.wire.clone());
    let mut last: Option<usize> = None;
    let resolve = |s: &Sel, last: Option<usize>| -> Point {
        let g = node.state();
        match s {
            Sel::Known(i) => point(&g.blocks[i % g.blocks.len()]),
            Sel::Last => point(&g.blocks[last.unwrap_or(0)]),
            Sel::Tip => point(&g.blocks[*g.chain.last().unwrap()]),
            Sel::Bogus(n) => Point::BlockHeader { slot_nb: (*n as u64 * 3).into(), hash: BlockId::new(format!("{n:02x}").repeat(32)) },
            Sel::Origin => Point::Origin,
            Sel::GenesisParent => Point::BlockHeader { slot_nb: 0.into(), hash: BlockId::new(genesis_parent.clone()) },
            Sel::Invalid => Point::BlockHeader { slot_nb: 5.into(), hash: BlockId::new_static("no hash") },
        }
    };
    let default_from = resolve(&c.default_from, None);
    let config = config(node.port, c.net, default_from.clone(), genesis.clone(), BlockId::new(genesis_parent.clone()), era.clone());
    let pace = Duration::from_secs(if c.every_tip { 0 } else { 3600 });
    let mut source = tokio::time::timeout(LIMIT, CardanoSource::connect(&config, pace))
        .await
        .or_fail("connect takes too long")?
        .or_fail("connect")?;

    // the model of the source
    let mut queue: VecDeque<Item> = VecDeque::new();
    let mut in_flight = false;
    let mut connected = true;
    let mut unsure = false;
    let mut broken = false;
    let mut tip_given = false;
    let mut requests = 0;
    let mut blocks_out = 0;
    let mut known_conns = 1;
    let mut known_ints = 0;

    let mut steps = c.steps.clone();
    if !c.stop_early {
        steps.push(Step::Drain(vec![Sel::Last]));
    }
    for (at, s) in steps.iter().enumerate() {
        let (from, times, drain) = match s {
            Step::Grow(specs) => {
                let mut g = node.state();
                specs.iter().for_each(|s| {
                    g.grow(s);
                });
                continue;
            }
            Step::Fork(back, specs) => {
                let mut g = node.state();
                let keep = g.chain.len().saturating_sub(*back as usize).max(1);
                g.chain.truncate(keep);
                specs.iter().for_each(|s| {
                    g.grow(s);
                });
                cx.label("fork");
                continue;
            }
            Step::Clear => {
                source.clear_buffers();
                if in_flight && !queue.is_empty() {
                    // whether it was sent already decides over the connection
                    unsure = true;
                    cx.label("cleared");
                }
                queue.clear();
                in_flight = false;
                continue;
            }
            Step::Pull(f, n) => (f, *n as usize, false),
            Step::Drain(f) => (f, usize::MAX, true),
        };
        for n in 0..times {
            if n > 6000 {
                return Err(Fail::new("the source does not stop handing out events"));
            }
            let from: Vec<Point> = match from {
                _ if drain && n > 0 => vec![resolve(&Sel::Last, last)],
                f => f.iter().map(|s| resolve(s, last)).collect(),
            };
            let got = tokio::time::timeout(LIMIT, source.pull(&from))
                .await
                .map_err(|_| Fail::new(format!("step {at}: a pull does not return")))?;
            if queue.is_empty() {
                // a new request
                requests += 1;
                in_flight = true;
                let mut g = node.state();
                if g.connections > known_conns {
                    check_eq!(g.connections, known_conns + 1, "step {at}: connections made for one request");
                    check!(!connected || unsure, "step {at}: connected again without need");
                    known_conns += 1;
                    broken = false;
                    connected = g.refuse.get(known_conns - 2) != Some(&true);
                    if !connected {
                        cx.label("refused");
                    }
                } else {
                    check!(connected, "step {at}: not connected again");
                }
                unsure = false;
                if connected && broken {
                    connected = false;
                    broken = false;
                    cx.label("closed in between");
                } else if connected {
                    let from = if from.is_empty() { vec![default_from.clone()] } else { from.clone() };
                    let at_genesis = from == [Point::BlockHeader { slot_nb: 0.into(), hash: config.genesis_parent.clone() }];
                    let from = if at_genesis { vec![genesis.clone()] } else { from };
                    let slot = |p: &Point| match p {
                        Point::Origin => 0,
                        Point::BlockHeader { slot_nb, .. } => u64::from(*slot_nb),
                    };
                    if from.iter().any(|p| matches!(p, Point::BlockHeader { hash, .. } if AsRef::<str>::as_ref(hash).len() != 64)) {
                        // nothing to be asked
                        unsure = true;
                        cx.label("invalid point");
                        check_eq!(g.intersections.len(), known_ints, "step {at}: requests for an invalid point");
                    } else {
                        let fault = g.faults.get(known_ints).copied().unwrap_or(Fault::None);
                        check_eq!(g.intersections.len(), known_ints + 1, "step {at}: intersections asked for");
                        known_ints += 1;
                        // the highest one on the node's chain, Origin counting as slot 0
                        let found = g.intersections[known_ints - 1].iter().find_map(|p| match p {
                            cardano_sdk::protocol::Point::Origin => Some(None),
                            p => g.on_chain(p).map(Some),
                        });
                        let highest = from.iter().filter(|p| **p == Point::Origin || g.chain.iter().any(|i| point(&g.blocks[*i]) == **p)).map(slot).max();
                        let used = found.map(|f| f.map_or(0, |f| g.blocks[g.chain[f]].slot));
                        check_eq!(used, highest, "step {at}: slot of the point it goes on from, given {from:?}");
                        if let Some(Some(f)) = found {
                            check!(from.contains(&point(&g.blocks[g.chain[f]])), "step {at}: goes on from a point not given, {from:?}");
                        }
                        let end = g.chain.len() - 1;
                        if fault != Fault::None {
                            cx.label(format!("{fault:?}").split('(').next().unwrap().to_string());
                        }
                        match (fault, found) {
                            (Fault::CloseOnIntersect, _) => connected = false,
                            (_, None) => {
                                cx.label("no intersection");
                                broken = fault == Fault::CloseThen;
                            }
                            (_, Some(f)) if f == Some(end) => {
                                cx.label("up to date");
                                broken = fault == Fault::CloseThen;
                            }
                            (_, Some(f)) => {
                                if c.every_tip || !tip_given {
                                    queue.push_back(Item::Tip(g.tip()));
                                    tip_given = true;
                                }
                                match (f, fault) {
                                    (_, Fault::CloseOnRange) => connected = false,
                                    (None, _) | (_, Fault::NoBlocks) => broken = fault == Fault::CloseThen,
                                    (Some(f), _) => {
                                        let sent = &g.chain[f..];
                                        let sent = match fault {
                                            Fault::CloseAfter(n, _) if (n as usize) < sent.len() => {
                                                connected = false;
                                                &sent[..n as usize]
                                            }
                                            _ => sent,
                                        };
                                        let skip = if at_genesis { 0 } else { 1.min(sent.len()) };
                                        queue.extend(sent[skip..].iter().map(|i| Item::Block(*i)));
                                        broken = fault == Fault::CloseThen;
                                    }
                                }
                            }
                        }
                    }
                }
                // the complaints are about what was asked
                if let Some(x) = g.complaints.pop() {
                    return Err(Fail::new(format!("step {at}: the node refuses a message: {x}")));
                }
            }
            match (got, queue.pop_front()) {
                (Ok(None), None) => {
                    if drain {
                        break;
                    }
                }
                (Ok(Some(CardanoNetworkEvent::Tip(t))), Some(Item::Tip(want))) => {
                    check!(same_tip(&t, &want), "step {at}: tip event {t}, expected {want}");
                }
                (got, Some(Item::Block(i))) => {
                    let g = node.state();
                    let b = &g.blocks[i];
                    let parent = b.parent.map(|p| g.blocks[p].hex()).unwrap_or(genesis_parent.clone());
                    match (got, expected(b, &parent, &era)) {
                        (Ok(Some(CardanoNetworkEvent::Block(got))), Some((want, _))) => {
                            same(&got, &want)?;
                            blocks_out += 1;
                        }
                        (Err(_), None) => cx.label("error for a block"),
                        (Ok(Some(CardanoNetworkEvent::Block(b))), None) => {
                            return Err(Fail::new(format!("step {at}: handed out {:?} for a block that cannot be read", b.id)))
                        }
                        (got, want) => {
                            return Err(Fail::new(format!(
                                "step {at}: pull gives {}, expected block {} ({})",
                                show(&got),
                                b.number,
                                if want.is_some() { "readable" } else { "an error" }
                            )))
                        }
                    }
                    last = Some(i);
                }
                (got, want) => {
                    let want = match want {
                        None => "nothing".to_string(),
                        Some(Item::Tip(t)) => format!("tip {t}"),
                        _ => unreachable!(),
                    };
                    return Err(Fail::new(format!("step {at}: pull gives {}, expected {want}", show(&got))));
                }
            }
        }
    }
    cx.nontrivial_if(blocks_out >= 3 && requests >= 2);
    tokio::time::timeout(LIMIT, source.stop()).await.or_fail("stop takes too long")?;
    // nothing is left open
    for _ in 0..2000 {
        if node.state().open == 0 {
            return Ok(());
        }
        tokio::time::sleep(Duration::from_millis(5)).await;
    }
    Err(Fail::new("after the stop the connection stays open"))
}

fn same_tip(a: &Tip, b: &Tip) -> bool {
    a.point == b.point && a.block_number == b.block_number
}

fn show(got: &anyhow::Result<Option<CardanoNetworkEvent<BlockEvent, Tip>>>) -> String {
    match got {
        Ok(None) => "nothing".into(),
        Ok(Some(CardanoNetworkEvent::Tip(t))) => format!("tip {t}"),
        Ok(Some(CardanoNetworkEvent::Block(b))) => format!("block {} {:?}", b.block_number, b.id),
        Err(e) => format!("an error: {e:#}"),
    }
}
