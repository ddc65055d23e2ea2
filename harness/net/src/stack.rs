//! C36: the sources on the multiverse over the source of a node
use crate::node::*;
use crate::source::{config, expected, point, runtime, same, LIMIT};
use dcspark_blockchain_source::cardano::{time::Era, BlockEvent, CardanoNetworkEvent, CardanoSource, Point, Tip};
use dcspark_blockchain_source::multiverse::rollback::{Event, ForkHandlingSource};
use dcspark_blockchain_source::multiverse::MultiverseSource;
use dcspark_blockchain_source::Source;
use dcspark_core::{BlockId, BlockNumber};
use multiverse::Multiverse;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::time::Duration;
use vhrun::{check, check_eq, Check, Cx, Fail, OrFail, Res, Tier};

type Ev = CardanoNetworkEvent<BlockEvent, Tip>;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Grow(Vec<Spec>),
    Fork { back: u8, more: Vec<Spec>, less: u8 },
    BackTo { at: usize, more: Vec<Spec>, less: u8 },
    Pull(u8),
    Again,
    Restart { lost: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    forks: bool,
    depth: u8,
    threads: bool,
    wire: Wire,
    every_tip: bool,
    /// the consumer starts from a point
    from_point: bool,
    /// from before the first block
    genesis: bool,
    /// boundary blocks have the number of the block before them, and there are no forks
    byron: bool,
    faults: Vec<Fault>,
    refuse: Vec<bool>,
    ops: Vec<Op>,
}

fn fault() -> impl Strategy<Value = Fault> {
    prop_oneof![
        6 => Just(Fault::None),
        1 => Just(Fault::CloseOnIntersect),
        1 => Just(Fault::CloseOnRange),
        1 => Just(Fault::NoBlocks),
        3 => (0u16..8, any::<bool>()).prop_map(|(n, w)| Fault::CloseAfter(n, w)),
        1 => Just(Fault::CloseThen),
    ]
}

fn op() -> impl Strategy<Value = Op> {
    let less = || prop_oneof![2 => Just(0u8), 1 => 0u8..9];
    let specs = |r: std::ops::Range<usize>| prop::collection::vec(spec(0..8, false), r);
    prop_oneof![
        4 => prop_oneof![3 => specs(1..5), 1 => specs(4..12)].prop_map(Op::Grow),
        3 => (1u8..6, specs(1..8), less()).prop_map(|(back, more, less)| Op::Fork { back, more, less }),
        2 => (any::<usize>(), specs(1..4), less()).prop_map(|(at, more, less)| Op::BackTo { at, more, less }),
        8 => prop_oneof![3 => 1u8..8, 1 => 8u8..40].prop_map(Op::Pull),
        1 => Just(Op::Again),
        2 => (0u8..4).prop_map(|lost| Op::Restart { lost }),
    ]
}

enum Src {
    Stable(MultiverseSource<BlockId, Ev, CardanoSource>),
    Forks(ForkHandlingSource<BlockId, Ev, CardanoSource, Event<Ev, Point>>),
}

impl Src {
    async fn stop(self) -> Res {
        let inner = match self {
            Src::Stable(s) => s.into_inner(),
            Src::Forks(s) => s.into_inner(),
        };
        tokio::time::timeout(LIMIT, inner.stop()).await.or_fail("stop takes too long")
    }
    async fn pull(&mut self, from: &Option<Point>) -> Result<Option<Event<Ev, Point>>, Fail> {
        match self {
            Src::Stable(s) => tokio::time::timeout(LIMIT, s.pull(from))
                .await
                .or_fail("a pull does not return")?
                .or_fail("pull")
                .map(|e| e.map(Event::InnerEvent)),
            Src::Forks(s) => tokio::time::timeout(LIMIT, s.pull(from)).await.or_fail("a pull does not return")?.or_fail("pull"),
        }
    }
}

pub struct C36;
impl Check for C36 {
    type Case = Case;
    const ID: &'static str = "C36";
    const RULE: &'static str = "A case is a Cardano node on the loopback interface whose chain grows, forks (at most as deep as the confirmation depth, to longer, equally long or shorter chains) and comes back to chains left, which closes or refuses connections at chosen points, and a consumer of MultiverseSource or ForkHandlingSource over CardanoSource which pulls, pulls again and restarts from the stored multiverse, perhaps having lost events. Every block handed out must follow the consumer's last one, byte for byte the node's, every rollback lead to a block it has; in the end the consumer must have the node's chain (without its last blocks, by the confirmation depth). Non-trivial: events came out and the node forked, a fault occurred or the source restarted.";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "cardano-multiplatform-lib is replaced by a stand-in with a block format of its own (harness/stubs)",
        "forks are at most as deep as the confirmation depth, below the longest chain the node had; in the end its chain is the longest; where boundary blocks have the number of the block before them, as in the Byron era, there are no forks",
        "a consumer of ForkHandlingSource has taken its first block before a restart (known finding of C32)",
    ];
    const SHRINK_ITERS: u32 = 600;
    const WORKERS: u32 = 12;
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        (
            (any::<bool>(), 0u8..6, any::<bool>(), wire(), any::<bool>(), any::<bool>(), any::<bool>(), prop::bool::weighted(0.2)),
            (prop::collection::vec(fault(), 0..8), prop::collection::vec(prop::bool::weighted(0.2), 0..5)),
            prop_oneof![40 => prop::collection::vec(op(), 1..30), 1 => prop::collection::vec(op(), 30..120)],
        )
            .prop_map(|((forks, depth, threads, wire, every_tip, from_point, genesis, byron), (faults, refuse), ops)| Case {
                forks,
                depth,
                threads,
                wire,
                every_tip,
                from_point,
                genesis,
                byron,
                faults,
                refuse,
                ops,
            })
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(3_000, 80_000)
    }
    fn run(c: &Case, cx: &mut Cx) -> Res {
        runtime(c.threads).block_on(run(c, cx))
    }
}

async fn run(c: &Case, cx: &mut Cx) -> Res {
    let db = sled::Config::new().temporary(true).open().or_fail("open")?;
    let mut state = State { byron: c.byron, faults: c.faults.clone(), refuse: c.refuse.clone(), magic: crate::source::MAGICS[2], ..State::default() };
    let parent_hex = "5f20df933584822601f9e3f8c024eb5eb252fe8cefb24d1317dc3d432e940ebb".to_string();
    let mut parent = [0u8; 32];
    hex::decode_to_slice(&parent_hex, &mut parent).unwrap();
    state.put(&Spec { gap: 0, kind: 0, extra: 3, garbled: false }, None, Some(parent), 0, 0);
    let era = Era { first_slot: 0, start_epoch: 4, known_time: 1_600_000_000, slot_length: 1, epoch_length_seconds: 500 };
    let genesis = point(&state.blocks[0]);
    let before_genesis = Point::BlockHeader { slot_nb: 0.into(), hash: BlockId::new(parent_hex.clone()) };
    // where the consumer starts, its first block, and how many of the first blocks no fork replaces
    let start = if c.genesis { before_genesis.clone() } else { genesis.clone() };
    let first = if c.genesis { 0 } else { 1 };
    let fixed = if c.from_point && !c.forks { 1 } else { first + 1 };
    let node = Node::start(state, c.wire.clone());
    let config = config(node.port, 2, start.clone(), genesis.clone(), BlockId::new(parent_hex.clone()), era.clone());
    let pace = Duration::from_secs(if c.every_tip { 0 } else { 3600 });
    let depth = c.depth as usize;

    macro_rules! open {
        () => {{
            let mut inner = None;
            for _ in 0..12 {
                if let Ok(s) = tokio::time::timeout(LIMIT, CardanoSource::connect(&config, pace)).await.or_fail("connect takes too long")? {
                    inner = Some(s);
                    break;
                }
            }
            let inner = inner.or_fail("cannot connect")?;
            let mv: Multiverse<BlockId, Ev> = Multiverse::load_from(db.clone(), "blocks", BlockNumber::MIN).or_fail("load the multiverse")?;
            if c.forks {
                Src::Forks(ForkHandlingSource::new(mv, depth, inner))
            } else {
                Src::Stable(MultiverseSource::new(mv, depth, inner))
            }
        }};
    }
    let mut source = open!();
    // the states of the consumer: its chain, as indices of blocks
    let mut states: Vec<Vec<usize>> = vec![vec![]];
    let mut left: Vec<Vec<usize>> = vec![];
    // the longest chain the node had
    let mut longest = 0;
    let (mut forked, mut restarted, mut behind, mut events) = (false, false, false, 0usize);
    let from = |node: &Node, chain: &[usize]| match chain.last() {
        Some(i) => Some(point(&node.state().blocks[*i])),
        None => c.from_point.then(|| start.clone()),
    };
    // takes an event; the new chain
    let take = |node: &Node, chain: &[usize], e: Event<Ev, Point>| -> Result<Option<Vec<usize>>, Fail> {
        let g = node.state();
        match e {
            Event::InnerEvent(CardanoNetworkEvent::Tip(t)) => {
                let known = g.blocks.iter().any(|b| b.point() == t.point && b.number == t.block_number);
                check!(known, "a tip event {t} of no block");
                Ok(None)
            }
            Event::InnerEvent(CardanoNetworkEvent::Block(b)) => {
                let i = g.blocks.iter().position(|x| x.hex() == AsRef::<str>::as_ref(&b.id));
                let i = i.or_fail("a block of the node")?;
                let blk = &g.blocks[i];
                let parent = blk.parent.map(|p| g.blocks[p].hex()).unwrap_or(parent_hex.clone());
                same(&b, &expected(blk, &parent, &era).unwrap().0)?;
                match chain.last() {
                    Some(l) => check_eq!(blk.parent, Some(*l), "block {}: its parent is not the consumer's last block", blk.number),
                    None => check_eq!(i, if fixed > first { first } else { i }, "the first block"),
                }
                if !c.forks {
                    let high = g.blocks.iter().map(|b| b.height).max().unwrap();
                    check!(blk.height + depth as u64 <= high, "block {} is handed out, the node's highest is {high}", blk.height);
                }
                let mut chain = chain.to_vec();
                chain.push(i);
                Ok(Some(chain))
            }
            Event::Rollback(p) => {
                if p == start {
                    return Ok(Some(vec![]));
                }
                let at = chain.iter().position(|i| point(&g.blocks[*i]) == p);
                let at = at.or_fail("a rollback to a block the consumer has")?;
                Ok(Some(chain[..=at].to_vec()))
            }
        }
    };
    let mut ops: Vec<Option<&Op>> = c.ops.iter().map(Some).collect();
    ops.push(None);
    for (at, op) in ops.into_iter().enumerate() {
        let op = op.cloned().unwrap_or_else(|| {
            let mut g = node.state();
            // in the end its chain is the longest
            while g.chain.len() <= longest {
                g.grow(&Spec { gap: 1, kind: 3, extra: 0, garbled: false });
            }
            g.grow(&Spec { gap: 1, kind: 3, extra: 0, garbled: false });
            g.faults.clear();
            g.refuse.clear();
            Op::Pull(u8::MAX)
        });
        match op {
            Op::Grow(specs) => {
                let mut g = node.state();
                specs.iter().for_each(|s| {
                    g.grow(s);
                });
            }
            Op::Fork { back, more, less } => {
                let mut g = node.state();
                longest = longest.max(g.chain.len());
                let back = (back as usize).min(g.chain.len().saturating_sub(fixed.max(longest.saturating_sub(depth))));
                if back == 0 || c.byron {
                    continue;
                }
                let old = g.chain.clone();
                g.chain.truncate(old.len() - back);
                let target = (old.len() + more.len()).saturating_sub(less as usize).max(g.chain.len() + 1);
                for k in 0..target - g.chain.len() {
                    g.grow(&more[k % more.len()]);
                }
                left.push(old);
                forked = true;
            }
            Op::BackTo { at, more, less } => {
                if left.is_empty() {
                    continue;
                }
                let i = at % left.len();
                let mut g = node.state();
                let common = g.chain.iter().zip(&left[i]).take_while(|(a, b)| a == b).count();
                longest = longest.max(g.chain.len());
                if common < fixed.max(longest.saturating_sub(depth)) {
                    continue;
                }
                let target = (g.chain.len() + more.len()).saturating_sub(less as usize);
                let old = left.swap_remove(i);
                left.push(std::mem::replace(&mut g.chain, old));
                let mut k = 0;
                while g.chain.len() < target {
                    g.grow(&more[k % more.len()]);
                    k += 1;
                }
                cx.label("the node came back to a chain it had left");
            }
            Op::Pull(n) => {
                let total = node.state().blocks.len();
                let (mut done, mut idle) = (0, 0);
                while (n == u8::MAX || done < n as usize) && idle < 3 * total + 30 {
                    done += 1;
                    let chain = states.last().unwrap().clone();
                    let from = from(&node, &chain);
                    match source.pull(&from).await.map_err(|f| Fail { msg: format!("step {at}: {}", f.msg), ..f })? {
                        None => idle += 1,
                        Some(e) => {
                            let new = take(&node, &chain, e).map_err(|f| Fail { msg: format!("step {at}: {}", f.msg), ..f })?;
                            match new {
                                Some(new) => {
                                    idle = 0;
                                    behind = false;
                                    events += 1;
                                    states.push(new);
                                }
                                None => idle += 1,
                            }
                        }
                    }
                    check!(events < 10_000, "events without end");
                }
            }
            Op::Again => {
                if !c.forks && !behind && states.len() > 1 && !(c.from_point && states.len() == 2) {
                    let before = states[states.len() - 2].clone();
                    let from = from(&node, &before);
                    let e = source.pull(&from).await?;
                    let new = match e {
                        Some(e) => take(&node, &before, e)?,
                        None => None,
                    };
                    check_eq!(new.as_ref(), states.last(), "step {at}: pulled again from the same point");
                    cx.label("pulled again");
                }
            }
            Op::Restart { lost } => {
                // what the consumer shares with the node's chain is still in the multiverse
                let held = |chain: &[usize]| {
                    let g = node.state();
                    let common = g.chain[first..].iter().zip(chain).take_while(|(a, b)| a == b).count();
                    let asked = g.ranges.iter().filter_map(|(_, to)| g.blocks.iter().find(|b| b.point() == *to));
                    let high = asked.map(|b| b.height).max().unwrap_or(0) as usize;
                    first + common + depth >= high + 1
                };
                for _ in 0..lost {
                    let n = states.len();
                    let ok = n > 1
                        && if c.forks {
                            !states[n - 2].is_empty() && held(&states[n - 2])
                        } else {
                            !behind && !(c.from_point && n == 2)
                        };
                    if ok {
                        states.pop();
                        behind = true;
                    }
                }
                if c.forks && (!held(states.last().unwrap()) || states.last().unwrap().is_empty()) {
                    continue;
                }
                source.stop().await?;
                source = open!();
                restarted = true;
            }
        }
        if let Some(x) = node.state().complaints.pop() {
            return Err(Fail::new(format!("step {at}: the node refuses a message: {x}")));
        }
    }
    let want = {
        let g = node.state();
        let end = if c.forks { g.chain.len() } else { g.chain.len().saturating_sub(depth).max(first) };
        g.chain[first..end].to_vec()
    };
    check_eq!(states.last().unwrap(), &want, "what the consumer has in the end");
    source.stop().await?;
    let faulty = c.faults.iter().any(|f| *f != Fault::None);
    cx.nontrivial_if(events > 0 && (forked || restarted || faulty));
    cx.label(if c.forks { "with forks" } else { "settled blocks alone" });
    for (x, l) in [(c.byron, "boundary blocks as of Byron"), (forked, "forked"), (restarted, "restarted"), (faulty, "faults")] {
        if x {
            cx.label(l);
        }
    }
    for _ in 0..2000 {
        if node.state().open == 0 {
            return Ok(());
        }
        tokio::time::sleep(Duration::from_millis(5)).await;
    }
    Err(Fail::new("after the stop the connection stays open"))
}
