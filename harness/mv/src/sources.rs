//! C31, C32: the sources built on the multiverse, fed by a model of a node
use anyhow::Result;
use dcspark_blockchain_source::multiverse::rollback::{Event, ForkHandlingSource};
use dcspark_blockchain_source::multiverse::MultiverseSource;
use dcspark_blockchain_source::{EventObject, GetNextFrom, PullFrom, Source};
use dcspark_core::BlockNumber;
use multiverse::{Multiverse, Variant};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;
use std::sync::{Arc, Mutex};
use vhrun::{check, check_eq, Check, Cx, Fail, OrFail, Res, Tier};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Id(String);
impl PullFrom for Id {}
impl std::fmt::Display for Id {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl AsRef<[u8]> for Id {
    fn as_ref(&self) -> &[u8] {
        self.0.as_bytes()
    }
}

/// what `from` is made of: another type than the identifiers
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Point {
    number: u64,
    id: Id,
}
impl PullFrom for Point {}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Block {
    id: Id,
    parent: Id,
    number: BlockNumber,
}
impl Block {
    fn point(&self) -> Point {
        Point { number: self.number.into(), id: self.id.clone() }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Ev {
    Tip,
    Block(Block),
}
impl Ev {
    fn block(&self) -> &Block {
        match self {
            Ev::Block(b) => b,
            Ev::Tip => panic!("a tip event was used as a block"),
        }
    }
}
impl EventObject for Ev {
    fn is_blockchain_tip(&self) -> bool {
        matches!(self, Ev::Tip)
    }
}
impl Variant for Ev {
    type Key = Id;
    fn id(&self) -> &Id {
        &self.block().id
    }
    fn parent_id(&self) -> &Id {
        &self.block().parent
    }
    fn block_number(&self) -> BlockNumber {
        self.block().number
    }
}
impl GetNextFrom for Ev {
    type From = Point;
    fn next_from(&self) -> Option<Point> {
        match self {
            Ev::Block(b) => Some(b.point()),
            Ev::Tip => None,
        }
    }
}

/// A node.  Chains grow, and forks are at most `depth` deep below the longest chain there was.
struct Node {
    depth: usize,
    /// how many of the first blocks no fork replaces
    fixed: usize,
    /// its chain from the first block on
    chain: Vec<Block>,
    /// chains it left
    left: Vec<Vec<Block>>,
    counter: usize,
    start: Point,
    tips: bool,
    /// highest block handed out
    handed: Option<u64>,
    /// length of the longest chain it had
    longest: usize,
}

impl Node {
    fn grow(&mut self, n: usize) {
        for _ in 0..n {
            self.counter += 1;
            let last = self.chain.last().map(Block::point).unwrap_or(self.start.clone());
            self.chain.push(Block {
                id: Id(format!("{}b{}", last.number + 1, self.counter)),
                parent: last.id,
                number: BlockNumber::new(last.number + 1),
            });
        }
        self.longest = self.longest.max(self.chain.len());
    }
    /// how many blocks of its chain stay
    fn settled(&self) -> usize {
        self.fixed.max(self.longest.saturating_sub(self.depth))
    }
    fn fork(&mut self, back: usize, by: isize) -> bool {
        let back = back.min(self.chain.len().saturating_sub(self.settled()));
        if back == 0 {
            return false;
        }
        self.left.push(self.chain.clone());
        self.chain.truncate(self.chain.len() - back);
        self.grow((back as isize + by).max(1) as usize);
        true
    }
    fn back_to(&mut self, at: usize, by: isize) -> bool {
        if self.left.is_empty() {
            return false;
        }
        let i = at % self.left.len();
        let old = &self.left[i];
        let common = self.chain.iter().zip(old).take_while(|(a, b)| a == b).count();
        if common < self.settled() {
            return false;
        }
        let target = (self.chain.len() as isize + by).max(0) as usize;
        let old = self.left.swap_remove(i);
        self.left.push(std::mem::replace(&mut self.chain, old));
        self.grow(target.saturating_sub(self.chain.len()));
        true
    }
}

/// What CardanoSource does: it finds the highest of the given points on the node's chain, then
/// hands out the blocks from there up to what was then the node's tip.
struct Inner {
    node: Arc<Mutex<Node>>,
    batch: VecDeque<Ev>,
    requests: usize,
}

#[async_trait::async_trait]
impl Source for Inner {
    type Event = Ev;
    type From = Vec<Point>;
    async fn pull(&mut self, from: &Vec<Point>) -> Result<Option<Ev>> {
        let mut node = self.node.lock().unwrap();
        if self.batch.is_empty() {
            let mut from = if from.is_empty() { vec![node.start.clone()] } else { from.clone() };
            from.sort_by_key(|p| std::cmp::Reverse(p.number));
            let Some(at) = from.iter().find_map(|p| {
                if *p == node.start {
                    Some(0)
                } else {
                    node.chain.iter().position(|b| b.point() == *p).map(|i| i + 1)
                }
            }) else {
                return Ok(None);
            };
            if at == node.chain.len() {
                return Ok(None);
            }
            self.requests += 1;
            if node.tips && self.requests % 2 == 1 {
                self.batch.push_back(Ev::Tip);
            }
            self.batch.extend(node.chain[at..].iter().cloned().map(Ev::Block));
        }
        let e = self.batch.pop_front();
        if let Some(Ev::Block(b)) = &e {
            node.handed = node.handed.max(Some(b.number.into()));
        }
        Ok(e)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Grow { n: usize },
    Fork { back: usize, by: isize },
    BackTo { at: usize, by: isize },
    Pull { n: usize },
    /// pull again without having taken note of the last event
    Again,
    /// the process restarts, the consumer having lost its last `lost` events
    Restart { lost: usize },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History {
    depth: usize,
    first: u64,
    /// the consumer starts from a point, not from `None`
    from_point: bool,
    tips: bool,
    ops: Vec<Op>,
}

fn history(again: bool, max_depth: usize, max_lost: usize) -> BoxedStrategy<History> {
    let op = prop_oneof![
        4 => prop_oneof![3 => 1usize..4, 1 => 4usize..10].prop_map(|n| Op::Grow { n }),
        3 => (1usize..6, prop_oneof![2 => 1isize..4, 1 => -3isize..1]).prop_map(|(back, by)| Op::Fork { back, by }),
        2 => (any::<usize>(), prop_oneof![2 => 1isize..3, 1 => -3isize..1]).prop_map(|(at, by)| Op::BackTo { at, by }),
        8 => prop_oneof![4 => 1usize..6, 1 => 6usize..30].prop_map(|n| Op::Pull { n }),
        1 => Just(if again { Op::Again } else { Op::Pull { n: 1 } }),
        2 => (0..=max_lost).prop_map(|lost| Op::Restart { lost }),
    ];
    let op = std::sync::Arc::new(op);
    (
        0usize..=max_depth,
        prop_oneof![4 => Just(0u64), 1 => 1u64..1000],
        any::<bool>(),
        prop::bool::weighted(0.3),
        // one in sixty is long
        prop_oneof![60 => prop::collection::vec(op.clone(), 1..40), 1 => prop::collection::vec(op, 40..240)],
    )
        .prop_map(|(depth, first, from_point, tips, ops)| History { depth, first, from_point, tips, ops })
        .boxed()
}

/// the consumer's chain: the points it has, the first being where it started
trait Subject {
    /// a consumer that lost its first event can go on
    const FROM_NOTHING: bool;
    const ID: &'static str;
    fn new(db: &sled::Db, depth: usize, inner: Inner) -> Result<Self, Fail>
    where
        Self: Sized;
    /// pulls once; the new chain of the consumer, if there was an event for it
    fn pull(&mut self, chain: &[Block], from: &Option<Point>, h: &History) -> Result<Option<Vec<Block>>, Fail>;
}

fn block_on<T>(f: impl std::future::Future<Output = T>) -> T {
    tokio::runtime::Builder::new_current_thread().build().expect("runtime").block_on(f)
}

fn open(db: &sled::Db) -> Result<Multiverse<Id, Ev>, Fail> {
    Multiverse::load_from(db.clone(), "source", BlockNumber::MIN).or_fail("load the multiverse")
}

fn append(chain: &[Block], b: &Block, start: &Id, what: &str) -> Result<Vec<Block>, Fail> {
    let tip = chain.last().map_or(start, |t| &t.id);
    check_eq!(&b.parent, tip, "{what} {}: its parent is not the block before it", b.id);
    let mut c = chain.to_vec();
    c.push(b.clone());
    Ok(c)
}

struct Stable(MultiverseSource<Id, Ev, Inner>);
impl Subject for Stable {
    const FROM_NOTHING: bool = true;
    const ID: &'static str = C31::ID;
    fn new(db: &sled::Db, depth: usize, inner: Inner) -> Result<Self, Fail> {
        Ok(Stable(MultiverseSource::new(open(db)?, depth, inner)))
    }
    fn pull(&mut self, chain: &[Block], from: &Option<Point>, h: &History) -> Result<Option<Vec<Block>>, Fail> {
        match block_on(self.0.pull(from)).or_fail("pull")? {
            None | Some(Ev::Tip) => Ok(None),
            Some(Ev::Block(b)) => append(chain, &b, &start(h).id, "confirmed block").map(Some),
        }
    }
}

struct Forks(ForkHandlingSource<Id, Ev, Inner, Event<Ev, Point>>);
impl Subject for Forks {
    const FROM_NOTHING: bool = false;
    const ID: &'static str = C32::ID;
    fn new(db: &sled::Db, depth: usize, inner: Inner) -> Result<Self, Fail> {
        Ok(Forks(ForkHandlingSource::new(open(db)?, depth, inner)))
    }
    fn pull(&mut self, chain: &[Block], from: &Option<Point>, h: &History) -> Result<Option<Vec<Block>>, Fail> {
        match block_on(self.0.pull(from)).or_fail("pull")? {
            None | Some(Event::InnerEvent(Ev::Tip)) => Ok(None),
            Some(Event::InnerEvent(Ev::Block(b))) => append(chain, &b, &start(h).id, "block").map(Some),
            Some(Event::Rollback(p)) => {
                if p == start(h) {
                    return Ok(Some(vec![]));
                }
                let at = chain.iter().position(|b| b.point() == p);
                check!(at.is_some(), "rolled back to {}, which the consumer does not have", p.id);
                Ok(Some(chain[..=at.unwrap()].to_vec()))
            }
        }
    }
}

fn start(h: &History) -> Point {
    Point { number: h.first, id: Id("start".into()) }
}

#[derive(Default)]
struct Stats {
    forked: bool,
    restarted: bool,
    /// restarted with blocks stored and the consumer having none
    early: bool,
    events: usize,
}

fn drive<S: Subject>(
    h: &History,
    cx: &mut Cx,
    invariant: impl Fn(&[Block], &Node) -> Res,
    drained: impl Fn(&[Block], &Node) -> Res,
) -> Result<Stats, Fail> {
    let mut st = Stats::default();
    drive_on::<S>(h, cx, &mut st, invariant, drained).map_err(|f| {
        if st.early && S::ID == C32::ID {
            Fail { sig: "restarted with blocks stored and before the consumer had one".into(), msg: f.msg }
        } else {
            f
        }
    })?;
    Ok(st)
}

fn drive_on<S: Subject>(
    h: &History,
    cx: &mut Cx,
    st: &mut Stats,
    invariant: impl Fn(&[Block], &Node) -> Res,
    drained: impl Fn(&[Block], &Node) -> Res,
) -> Res {
    let db = sled::Config::new().temporary(true).open().or_fail("open")?;
    let node = Arc::new(Mutex::new(Node {
        depth: h.depth,
        fixed: if S::FROM_NOTHING && h.from_point { 0 } else { 1 },
        chain: vec![],
        left: vec![],
        counter: 0,
        start: start(h),
        tips: h.tips,
        handed: None,
        longest: 0,
    }));
    let inner = || Inner { node: node.clone(), batch: VecDeque::new(), requests: 0 };
    let mut source = Some(S::new(&db, h.depth, inner())?);
    // the states the consumer went through
    let mut states: Vec<Vec<Block>> = vec![vec![]];
    let from = |chain: &[Block]| chain.last().map(Block::point).or(h.from_point.then(|| start(h)));
    // the consumer lost its last event
    let mut behind = false;
    let mut ops = h.ops.clone();
    // in the end its chain is the longest, and followed
    ops.push(Op::Grow { n: usize::MAX });
    ops.push(Op::Pull { n: usize::MAX });
    for op in &ops {
        match op {
            Op::Grow { n: usize::MAX } => {
                let mut node = node.lock().unwrap();
                let n = node.longest + 1 - node.chain.len();
                node.grow(n);
            }
            Op::Grow { n } => node.lock().unwrap().grow(*n),
            Op::Fork { back, by } => st.forked |= node.lock().unwrap().fork(*back, *by),
            Op::BackTo { at, by } => {
                if node.lock().unwrap().back_to(*at, *by) {
                    cx.label("the node came back to a chain it had left");
                }
            }
            Op::Pull { n } => {
                let total = node.lock().unwrap().counter;
                let (mut done, mut idle) = (0, 0);
                while done < *n && idle < 3 * total + 10 {
                    done += 1;
                    let chain = states.last().unwrap().clone();
                    match source.as_mut().unwrap().pull(&chain, &from(&chain), h)? {
                        None => idle += 1,
                        Some(new) => {
                            idle = 0;
                            behind = false;
                            st.events += 1;
                            invariant(&new, &node.lock().unwrap())?;
                            states.push(new);
                        }
                    }
                    check!(st.events < 10_000, "events without end");
                }
            }
            Op::Again => {
                if !behind && states.len() > 1 && !(h.from_point && states.len() == 2) {
                    let before = &states[states.len() - 2];
                    let got = source.as_mut().unwrap().pull(before, &from(before), h)?;
                    check_eq!(got.as_ref(), states.last(), "pulled again from the same point");
                    cx.label("pulled again");
                }
            }
            Op::Restart { lost } => {
                // what the consumer shares with the node's chain is still in the multiverse
                let held = |chain: &[Block]| {
                    let node = node.lock().unwrap();
                    let common = node.chain.iter().zip(chain).take_while(|(a, b)| a == b).count() as u64;
                    h.first + common + node.depth as u64 >= node.handed.unwrap_or(0)
                };
                for _ in 0..*lost {
                    let n = states.len();
                    let ok = n > 1
                        && if S::FROM_NOTHING {
                            !behind && !(h.from_point && n == 2)
                        } else {
                            !states[n - 2].is_empty() && held(&states[n - 2])
                        };
                    if ok {
                        states.pop();
                        behind = true;
                    }
                }
                if !S::FROM_NOTHING && !held(states.last().unwrap()) {
                    continue;
                }
                if states.last().unwrap().is_empty() && node.lock().unwrap().handed.is_some() {
                    st.early = true;
                }
                drop(source.take());
                source = Some(S::new(&db, h.depth, inner())?);
                st.restarted = true;
            }
        }
    }
    let node = node.lock().unwrap();
    drained(states.last().unwrap(), &node)
}

const ASSUMPTIONS: &[&str] = &[
    "the node is a model of what CardanoSource gives: blocks from the highest known point on the node's chain up to its tip; forks are at most as deep as the confirmation depth, below the longest chain it had, to longer, equally long or shorter chains; in the end its chain is the longest",
    "the mirror of blockchain-source leaves out the items that need cardano-multiplatform-lib; the files of the multiverse module are /repo's own",
];

pub struct C31;
impl Check for C31 {
    type Case = History;
    const ID: &'static str = "C31";
    const RULE: &'static str = "A case is a history of a node (growth, forks up to the confirmation depth, returns to left chains), of pulls, repeated pulls and restarts where the consumer may have lost its last event. Every block handed out must be the child of the one before, be as deep as asked when handed out, a repeated pull must give the same block, and in the end the consumer must have exactly the node's chain without its last `depth` blocks. Non-trivial: the node forked and a block was handed out.";
    const ASSUMPTIONS: &'static [&'static str] = ASSUMPTIONS;
    fn strategy(_: Tier) -> BoxedStrategy<History> {
        history(true, 5, 1)
    }
    fn cases(t: Tier) -> u32 {
        t.pick(60_000, 800_000)
    }
    fn run(h: &History, cx: &mut Cx) -> Res {
        let d = h.depth as u64;
        let st = drive::<Stable>(
            h,
            cx,
            |chain, node| {
                let last = u64::from(chain.last().unwrap().number);
                let high = node.handed.unwrap_or(0);
                check!(last + d <= high, "block {last} was given with the highest being {high}, the depth {d}");
                Ok(())
            },
            |chain, node| {
                let want = &node.chain[..node.chain.len().saturating_sub(h.depth)];
                check_eq!(chain, want, "what the consumer has in the end");
                Ok(())
            },
        )?;
        cx.nontrivial_if(st.forked && st.events > 0);
        if st.restarted {
            cx.label("restarted");
        }
        Ok(())
    }
}

pub struct C32;
impl Check for C32 {
    type Case = History;
    const ID: &'static str = "C32";
    const RULE: &'static str = "A case is a history as for C31 where the consumer of a restarted source may have lost several events. Every block handed out must be the child of what the consumer has last, every rollback must go to a block it has, and in the end it must have exactly the node's chain. Non-trivial: the node forked and a block was handed out.";
    const ASSUMPTIONS: &'static [&'static str] = ASSUMPTIONS;
    fn strategy(_: Tier) -> BoxedStrategy<History> {
        history(false, 5, 3)
    }
    fn cases(t: Tier) -> u32 {
        t.pick(60_000, 800_000)
    }
    fn directed(_: Tier) -> Vec<History> {
        let ops = vec![Op::Grow { n: 1 }, Op::Pull { n: 1 }, Op::Restart { lost: 0 }];
        vec![History { depth: 1, first: 0, from_point: true, tips: false, ops }]
    }
    fn run(h: &History, cx: &mut Cx) -> Res {
        let st = drive::<Forks>(
            h,
            cx,
            |_, _| Ok(()),
            |chain, node| {
                check_eq!(chain, &node.chain[..], "what the consumer has in the end");
                Ok(())
            },
        )?;
        cx.nontrivial_if(st.forked && st.events > 0);
        if st.restarted {
            cx.label("restarted");
        }
        Ok(())
    }
}
