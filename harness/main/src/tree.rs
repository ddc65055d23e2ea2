//! C19-C21: the multiverse
use dcspark_core::BlockNumber;
use multiverse::{BestBlock, BestBlockSelectionRule, EntryRef, Multiverse, MultiverseError, Variant};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use vhrun::{check, check_eq, pick, Check, Cx, Fail, OrFail, Res, Tier};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Block {
    id: String,
    parent: String,
    number: BlockNumber,
    payload: u32,
}
impl Variant for Block {
    type Key = String;
    fn id(&self) -> &String {
        &self.id
    }
    fn parent_id(&self) -> &String {
        &self.parent
    }
    fn block_number(&self) -> BlockNumber {
        self.number
    }
}
type Mv = Multiverse<String, Block>;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum TOp {
    /// a block on a present one; mostly one near the top
    Child { of: usize, top: bool, step: u8, tag: u8 },
    /// a block whose parent is not there
    Root { number: u64 },
    Again { at: usize },
    /// a removed block comes back
    Revive { at: usize },
    Remove { at: usize },
    RemoveAbsent { known: bool },
    Select { depth: usize, gap: usize, keep: bool },
    /// select and remove what may be discarded
    Prune { depth: usize, gap: usize, keep: bool },
    Forget,
    Clear,
    Reload { store_from: u64 },
    /// the same database holds another multiverse, changed in between
    Other { insert: bool },
}

#[derive(Clone, Default)]
struct Model {
    /// present blocks, with the parent they hang on
    blocks: BTreeMap<String, (Block, Option<String>)>,
    removed: BTreeMap<String, Block>,
    stored: BTreeSet<String>,
    store_from: u64,
    counter: u32,
}

impl Model {
    fn insert(&mut self, b: &Block) {
        if self.blocks.contains_key(&b.id) {
            return;
        }
        let link = self.blocks.contains_key(&b.parent).then(|| b.parent.clone());
        if u64::from(b.number) >= self.store_from {
            self.stored.insert(b.id.clone());
        }
        self.removed.remove(&b.id);
        self.blocks.insert(b.id.clone(), (b.clone(), link));
    }
    fn remove(&mut self, id: &str) -> Option<Block> {
        let (b, _) = self.blocks.remove(id)?;
        for (_, l) in self.blocks.values_mut() {
            if l.as_deref() == Some(id) {
                *l = None;
            }
        }
        self.stored.remove(id);
        self.removed.insert(id.to_string(), b.clone());
        Some(b)
    }
    fn tips(&self) -> BTreeSet<String> {
        let parents: BTreeSet<_> = self.blocks.values().filter_map(|x| x.1.clone()).collect();
        self.blocks.keys().filter(|k| !parents.contains(*k)).cloned().collect()
    }
    fn ancestor(&self, id: &str, depth: usize) -> Option<String> {
        let mut at = id.to_string();
        for _ in 0..depth {
            at = self.blocks[&at].1.clone()?;
        }
        Some(at)
    }
    fn max(&self) -> Option<BlockNumber> {
        self.blocks.values().map(|x| x.0.number).max()
    }
    fn reload(&mut self, store_from: u64) {
        let all = std::mem::take(&mut self.blocks);
        self.store_from = store_from;
        let v: Vec<Block> = all.into_values().map(|x| x.0).filter(|b| self.stored.contains(&b.id)).collect();
        let ids: BTreeSet<String> = v.iter().map(|b| b.id.clone()).collect();
        for b in v {
            let link = ids.contains(&b.parent).then(|| b.parent.clone());
            self.blocks.insert(b.id.clone(), (b, link));
        }
    }
}

fn compare(mv: &Mv, m: &Model, what: &str) -> Res {
    check_eq!(mv.len(), m.blocks.len(), "{what}: len");
    check_eq!(mv.is_empty(), m.blocks.is_empty(), "{what}: is_empty");
    for (id, (b, _)) in &m.blocks {
        check!(mv.contains(id), "{what}: {id} is missing");
        check_eq!(mv.get(id), Some(b), "{what}: get {id}");
    }
    for id in m.removed.keys().filter(|k| !m.blocks.contains_key(*k)) {
        check!(!mv.contains(id) && mv.get(id).is_none(), "{what}: {id}, removed, is there");
    }
    let tips: BTreeSet<String> = mv.tips().iter().map(|k| k.to_string()).collect();
    check_eq!(tips, m.tips(), "{what}: tips");
    let seen: Vec<&Block> = mv.iter().collect();
    for w in seen.windows(2) {
        check!(w[0].number <= w[1].number, "{what}: iteration gives {} before {}", w[0].id, w[1].id);
    }
    check_eq!(seen.len(), m.blocks.len(), "{what}: number of blocks iterated");
    let ids: BTreeSet<_> = seen.iter().map(|b| b.id.clone()).collect();
    check_eq!(ids, m.blocks.keys().cloned().collect::<BTreeSet<_>>(), "{what}: blocks iterated");
    for b in seen {
        check_eq!(Some(b), m.blocks.get(&b.id).map(|x| &x.0), "{what}: block iterated");
    }
    Ok(())
}

fn check_best(mv: &Mv, m: &Model, depth: usize, gap: usize) -> Result<BestBlock<String>, Fail> {
    let rule = BestBlockSelectionRule::LongestChain { depth, age_gap: gap };
    let best = mv.select_best_block(rule);
    // of a block and its parent with the same number, the block
    let mut tops: Vec<String> = m.tips().into_iter().collect();
    tops.retain(|t| Some(m.blocks[t].0.number) == m.max());
    let allowed: BTreeSet<Option<String>> = if tops.is_empty() {
        [None].into()
    } else {
        tops.iter().map(|t| m.ancestor(t, depth)).collect()
    };
    let sel = best.selected.as_ref().map(|s| s.inner().clone());
    check!(allowed.contains(&sel), "depth {depth}: selected {sel:?}, expected one of {allowed:?}");
    let discarded: BTreeSet<String> = best.discarded.iter().map(|d| d.inner().clone()).collect();
    let want: BTreeSet<String> = match &sel {
        None => BTreeSet::new(),
        Some(s) => {
            let limit = u64::from(m.blocks[s].0.number).saturating_sub(gap as u64);
            m.blocks.iter().filter(|x| u64::from(x.1 .0.number) < limit).map(|x| x.0.clone()).collect()
        }
    };
    check_eq!(discarded, want, "depth {depth}, age gap {gap}, selected {sel:?}: discarded");
    let tip = mv.preferred_fork_tip(rule).map(|t| t.inner().clone());
    match &tip {
        None => check!(m.blocks.is_empty(), "no preferred tip among {:?}", m.tips()),
        Some(t) => {
            check!(m.tips().contains(t), "preferred tip {t} is not a tip");
            check_eq!(Some(m.blocks[t].0.number), m.max(), "number of the preferred tip {t}");
        }
    }
    Ok(best)
}

fn run(ops: &[TOp], base: u64, cx: &mut Cx, disk: bool) -> Result<Stats, Fail> {
    let dir = disk.then(|| cx.dir().join("mv"));
    // opening right after a close may meet the lock of the one closed
    let open = |store_from: u64| -> Result<(Mv, Option<sled::Db>), Fail> {
        match &dir {
            None => Ok((Mv::temporary().or_fail("temporary")?, None)),
            Some(d) => {
                let mut last = String::new();
                for _ in 0..300 {
                    match sled::Config::new().path(d).open() {
                        Ok(db) => {
                            let mv = Mv::load_from(db.clone(), "domain", BlockNumber::new(store_from)).or_fail("load")?;
                            return Ok((mv, Some(db)));
                        }
                        Err(e) => last = format!("{e:?}"),
                    }
                    std::thread::sleep(std::time::Duration::from_millis(10));
                }
                Err(Fail::new(format!("open: {last}")))
            }
        }
    };
    let (mut mv, mut db) = open(0)?;
    let mut m = Model::default();
    let mut other = Model::default();
    let mut kept: Vec<BestBlock<String>> = vec![];
    let mut st = Stats::default();
    for op in ops {
        match op {
            TOp::Child { of, top, step, tag } => {
                let mut present: Vec<&Block> = m.blocks.values().map(|x| &x.0).collect();
                present.sort_by_key(|b| b.number);
                let n = present.len();
                let of = if *top { n.saturating_sub(1 + of % 3) } else { *of };
                let Some(p) = pick(&present, of) else { continue };
                let Some(number) = p.number.checked_add(*step as u64) else { continue };
                m.counter += 1;
                let b = Block {
                    id: match tag {
                        0 => format!("{}", m.counter),
                        1 => format!("-{}", m.counter),
                        2 => format!("é{}\u{0}", m.counter),
                        _ => format!("{:03}", 999 - m.counter),
                    },
                    parent: p.id.clone(),
                    number,
                    payload: m.counter * 7,
                };
                st.forks |= m.blocks.values().any(|x| x.1.as_deref() == Some(p.id.as_str()));
                mv.insert(b.clone()).or_fail("insert")?;
                m.insert(&b);
            }
            TOp::Root { number } => {
                m.counter += 1;
                let b = Block {
                    id: format!("r{}", m.counter),
                    parent: format!("nowhere{}", m.counter % 3),
                    number: BlockNumber::new(base.saturating_add(*number)),
                    payload: 1,
                };
                mv.insert(b.clone()).or_fail("insert")?;
                m.insert(&b);
            }
            TOp::Again { at } => {
                let v: Vec<Block> = m.blocks.values().map(|x| x.0.clone()).collect();
                if let Some(b) = pick(&v, *at) {
                    mv.insert(b.clone()).or_fail("insert again")?;
                    // now it is stored, if it is to be
                    if u64::from(b.number) >= m.store_from {
                        m.stored.insert(b.id.clone());
                    }
                }
            }
            TOp::Revive { at } => {
                let v: Vec<Block> = m
                    .removed
                    .values()
                    .filter(|b| !m.blocks.values().any(|x| x.0.parent == b.id))
                    .cloned()
                    .collect();
                if let Some(b) = pick(&v, *at) {
                    mv.insert(b.clone()).or_fail("insert a removed block")?;
                    m.insert(b);
                    cx.label("a removed block came back");
                }
            }
            TOp::Remove { at } => {
                let v: Vec<String> = m.blocks.keys().cloned().collect();
                if let Some(id) = pick(&v, *at) {
                    let got = mv.remove(&EntryRef::new(id.clone())).or_fail("remove")?;
                    check_eq!(Some(got), m.remove(id), "removed {id}");
                    st.removed = true;
                }
            }
            TOp::RemoveAbsent { known } => {
                let id = m
                    .removed
                    .keys()
                    .find(|k| *known && !m.blocks.contains_key(*k))
                    .cloned()
                    .unwrap_or("never".into());
                check!(
                    matches!(mv.remove(&EntryRef::new(id.clone())), Err(MultiverseError::NotFound)),
                    "removing {id}, which is not there, did not fail with NotFound"
                );
            }
            TOp::Select { depth, gap, keep } => {
                let best = check_best(&mv, &m, *depth, *gap)?;
                st.selected |= best.selected.is_some() && *depth > 0;
                if *keep {
                    kept.push(best);
                }
            }
            TOp::Prune { depth, gap, keep } => {
                let best = check_best(&mv, &m, *depth, *gap)?;
                st.selected |= best.selected.is_some() && *depth > 0;
                for d in &best.discarded {
                    let got = mv.remove(d).or_fail("remove discarded")?;
                    check_eq!(Some(got), m.remove(d.inner()), "removed {d}");
                    st.removed = true;
                    cx.label("pruned");
                }
                if *keep {
                    kept.push(best);
                }
            }
            TOp::Forget => kept.clear(),
            TOp::Clear => {
                mv.clear().or_fail("clear")?;
                for id in m.blocks.keys().cloned().collect::<Vec<_>>() {
                    m.remove(&id);
                }
                m.stored.clear();
            }
            TOp::Reload { store_from } => {
                if disk {
                    drop(mv);
                    drop(db.take());
                    let from = base.saturating_add(*store_from);
                    (mv, db) = open(from)?;
                    st.reloaded |= !m.stored.is_empty();
                    m.reload(from);
                    compare(&mv, &m, "reloaded")?;
                }
            }
            TOp::Other { insert } => {
                if let Some(db) = &db {
                    let mut o = Mv::load_from(db.clone(), "other", BlockNumber::MIN).or_fail("load other")?;
                    compare(&o, &other, "other domain")?;
                    if *insert {
                        // the same identifiers as in the first one
                        for (b, _) in m.blocks.values() {
                            let b = Block { payload: 12, ..b.clone() };
                            if !other.blocks.contains_key(&b.id) && !other.blocks.values().any(|x| x.0.parent == b.id) {
                                o.insert(b.clone()).or_fail("insert")?;
                                other.insert(&b);
                                break;
                            }
                        }
                        compare(&o, &other, "other domain")?;
                    } else {
                        o.destroy().or_fail("destroy")?;
                        other = Model::default();
                        cx.label("destroyed");
                    }
                }
            }
        }
        compare(&mv, &m, &format!("after {op:?}"))?;
    }
    check_best(&mv, &m, 0, 0)?;
    check_best(&mv, &m, 2, 1)?;
    if disk {
        drop(mv);
        drop(db);
        let (mv, _) = open(0)?;
        m.reload(0);
        compare(&mv, &m, "finally reloaded")?;
    }
    Ok(st)
}

#[derive(Default)]
struct Stats {
    forks: bool,
    removed: bool,
    selected: bool,
    reloaded: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Tree {
    base: u64,
    ops: Vec<TOp>,
}

fn tree(max: usize, remove: u32, select: u32, disk: u32) -> BoxedStrategy<Tree> {
    let depth = || prop_oneof![5 => 0usize..4, 1 => 4usize..12, 1 => Just(usize::MAX)];
    let gap = || prop_oneof![4 => 0usize..4, 1 => 4usize..10, 1 => Just(usize::MAX)];
    let op = prop_oneof![
        22 => (any::<usize>(), prop::bool::weighted(0.7), prop_oneof![7 => Just(1u8), 1 => Just(0u8), 1 => 2u8..5], 0u8..4)
            .prop_map(|(of, top, step, tag)| TOp::Child { of, top, step, tag }),
        3 => (0u64..6).prop_map(|number| TOp::Root { number }),
        1 => any::<usize>().prop_map(|at| TOp::Again { at }),
        remove => any::<usize>().prop_map(|at| TOp::Revive { at }),
        remove * 2 => any::<usize>().prop_map(|at| TOp::Remove { at }),
        1 => any::<bool>().prop_map(|known| TOp::RemoveAbsent { known }),
        select => (depth(), gap(), prop::bool::weighted(0.3)).prop_map(|(depth, gap, keep)| TOp::Select { depth, gap, keep }),
        select => (0usize..4, 0usize..3, prop::bool::weighted(0.3)).prop_map(|(depth, gap, keep)| TOp::Prune { depth, gap, keep }),
        1 => Just(TOp::Forget),
        1 => Just(TOp::Clear),
        (disk * 3).max(1) => prop_oneof![3 => Just(0u64), 1 => 0u64..8].prop_map(|store_from| TOp::Reload { store_from }),
        disk.max(1) => prop::bool::weighted(0.7).prop_map(|insert| TOp::Other { insert }),
    ];
    (
        prop_oneof![4 => Just(0u64), 1 => 1u64..300, 1 => Just(u32::MAX as u64 - 4), 1 => Just(u64::MAX - 12)],
        crate::now_and_then_longer(op, max, 8),
    )
        .prop_map(|(base, mut ops)| {
            ops.insert(0, TOp::Root { number: 0 });
            Tree { base, ops }
        })
        .boxed()
}

pub struct C19;
impl Check for C19 {
    type Case = Tree;
    const ID: &'static str = "C19";
    const RULE: &'static str = "A case is a history of up to 50 (now and then 400) insertions (chains, forks at any place, several roots, repeats), removals of any block, selections, prunings and returns of removed blocks; membership, values, tips, and iteration by block number (complete, without repeats) are compared with a reference tree after every step. Non-trivial: there was a fork and a removal.";
    const ASSUMPTIONS: &'static [&'static str] = &["an identifier always stands for the same block; a block's number is at least its parent's; a block is inserted after its parent or its parent is not inserted while it is there"];
    fn strategy(_: Tier) -> BoxedStrategy<Tree> {
        tree(50, 2, 1, 0)
    }
    fn cases(t: Tier) -> u32 {
        t.pick(60_000, 1_000_000)
    }
    fn run(c: &Tree, cx: &mut Cx) -> Res {
        let st = run(&c.ops, c.base, cx, false)?;
        cx.nontrivial_if(st.forks && st.removed);
        Ok(())
    }
}

pub struct C20;
impl Check for C20 {
    type Case = Tree;
    const ID: &'static str = "C20";
    const RULE: &'static str = "A case is a history as for C19 with many selections (depth and age gap from 0 up to the largest number, results kept over later changes) and prunings. The selected block must be the ancestor, as many steps up as asked, of a block with the highest number, or none where the chain is too short; the discarded ones exactly those numbered below it minus the age gap; the preferred tip one with the highest number. Non-trivial: a block was selected at a depth above 0 in a tree with a fork.";
    const ASSUMPTIONS: &'static [&'static str] = C19::ASSUMPTIONS;
    fn strategy(_: Tier) -> BoxedStrategy<Tree> {
        tree(40, 1, 6, 0)
    }
    fn cases(t: Tier) -> u32 {
        t.pick(60_000, 1_000_000)
    }
    fn run(c: &Tree, cx: &mut Cx) -> Res {
        let st = run(&c.ops, c.base, cx, false)?;
        cx.nontrivial_if(st.forks && st.selected);
        Ok(())
    }
}

pub struct C21;
impl Check for C21 {
    type Case = Tree;
    const ID: &'static str = "C21";
    const RULE: &'static str = "A case is a history as for C19 on disk with reloads at any point, varying the number from which blocks are stored, clearing, and a second multiverse in the same database, filled with the same identifiers and destroyed; each reload must give exactly the stored blocks that were not removed, with the same tips and order. Non-trivial: a multiverse with stored blocks was reloaded.";
    const ASSUMPTIONS: &'static [&'static str] = C19::ASSUMPTIONS;
    fn strategy(_: Tier) -> BoxedStrategy<Tree> {
        tree(35, 2, 1, 1)
    }
    fn cases(t: Tier) -> u32 {
        t.pick(10_000, 150_000)
    }
    const SHRINK_ITERS: u32 = 400;
    fn run(c: &Tree, cx: &mut Cx) -> Res {
        let st = run(&c.ops, c.base, cx, true)?;
        cx.nontrivial_if(st.reloaded);
        Ok(())
    }
}
