//! C10-C15: the append-only store (fraos)
use fraos::{Database, FileError, FraosError, SeqNoIter};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::fs;
use std::path::{Path, PathBuf};
use vhrun::{check, check_eq, pick, Check, Cx, Fail, OrFail, Res, Tier};

/// a record, its content a function of (len, seed)
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Copy)]
pub struct Rec {
    len: u32,
    seed: u32,
}

/// seeds from here on give a short pattern repeated
const FAST: u32 = 1 << 20;

impl Rec {
    pub fn bytes(&self) -> Vec<u8> {
        if self.seed >= FAST {
            // long records of the histories with very many mappings
            return self.seed.to_le_bytes().into_iter().cycle().take(self.len as usize).collect();
        }
        let mut x = (self.seed as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15) ^ self.len as u64;
        (0..self.len)
            .map(|_| {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                // never a run of plain zeros only: half of the records are all non-zero
                if self.seed % 2 == 0 {
                    (x as u8) | 1
                } else {
                    x as u8
                }
            })
            .collect()
    }
}

/// size of one mapping of the store; sizes around it are the interesting ones
const PAGE: u32 = 4096 * 128;

fn small() -> impl Strategy<Value = Rec> {
    (prop_oneof![8 => 1u32..40, 2 => 40u32..600, 1 => 4090u32..4100], 0u32..1000)
        .prop_map(|(len, seed)| Rec { len, seed })
}
fn any_rec() -> impl Strategy<Value = Rec> {
    prop_oneof![
        30 => small(),
        2 => (10_000u32..200_000, 0u32..1000).prop_map(|(len, seed)| Rec { len, seed }),
        1 => (PAGE - 2..=PAGE + 2, 0u32..1000).prop_map(|(len, seed)| Rec { len, seed }),
        1 => (PAGE / 2 - 1..=PAGE / 2 + 1, 0u32..1000).prop_map(|(len, seed)| Rec { len, seed }),
    ]
}
fn batch(max: usize) -> impl Strategy<Value = Vec<Rec>> {
    prop::collection::vec(any_rec(), 1..max)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum FOp {
    Append(Vec<Rec>),
    AppendSeqno(Vec<Rec>),
    Put(Rec),
    PutSeqno(Rec),
    EmptyBatch,
    /// many small records at once
    Bulk { n: u32, len: u32, seed: u32 },
    /// one record that ends `delta` bytes from the end of the current mapping of the data
    FillData { delta: i8 },
    /// records that end `delta` entries from the end of the current mapping of the index
    FillIndex { delta: i8 },
    /// records that each fill a mapping of the data, and small ones in between that begin the next
    Mappings { n: u32, small: u32 },
    /// a batch with an empty record at `at`
    Bad { recs: Vec<Rec>, at: usize, how: u8 },
    Read { at: usize },
    /// a read or iteration at a number nothing was ever stored under
    Far { at: u64, iter: bool },
    Iter { at: usize, take: usize },
    /// keep an iterator over later operations
    KeepIter { at: usize },
    StepIter { it: usize, take: usize },
    // ---- files only
    Reopen,
    /// open the directory read-only, compare, try to append
    ReadOnly { keep: bool },
    /// copy the directory as it is now, open the copy
    Copy,
    /// append with the file size limit of the process at `kb`
    Limited { kb: u32, recs: Vec<Rec> },
    // ---- several handles
    Clone { of: usize },
    DropHandle { at: usize },
    Handle { at: usize },
}

pub struct Model {
    recs: Vec<Rec>,
    /// bytes and entries in the current mapping, as far as known
    data_used: u64,
    index_used: u64,
}

fn data_step(used: u64, add: u64) -> u64 {
    if used > 0 && used + add < PAGE as u64 {
        used + add
    } else {
        add
    }
}

impl Model {
    fn new() -> Self {
        Model { recs: vec![], data_used: 0, index_used: 0 }
    }
    fn push(&mut self, b: &[Rec]) {
        self.recs.extend(b);
        let add = b.iter().map(|r| r.len as u64).sum();
        self.data_used = data_step(self.data_used, add);
        self.index_used = data_step(self.index_used, b.len() as u64 * 16);
    }
}

fn same(got: &[u8], want: &Rec) -> bool {
    got.len() == want.len as usize && got == want.bytes()
}

fn brief(b: &[u8]) -> String {
    format!("{} bytes {:02x?}", b.len(), &b[..b.len().min(8)])
}

fn check_read(db: &Database, at: usize, m: &[Rec], what: &str) -> Res {
    let got = db.get_by_seqno(at).or_fail(&format!("{what}: get {at} of {}", m.len()))?;
    match (m.get(at), got) {
        (None, None) => Ok(()),
        (Some(r), Some(b)) if same(&b, r) => Ok(()),
        (w, g) => Err(Fail::new(format!(
            "{what}: get {at} of {} gives {:?}, expected {w:?}",
            m.len(),
            g.map(|b| brief(&b))
        ))),
    }
}

fn check_iter(it: impl Iterator<Item = Result<Vec<u8>, FraosError>>, at: usize, m: &[Rec], what: &str) -> Res {
    let mut n = at;
    for x in it {
        let b = x.or_fail(&format!("{what}: iterate at {n}"))?;
        check!(
            m.get(n).is_some_and(|r| same(&b, r)),
            "{what}: iteration from {at} gives {} at {n}, expected {:?} of {}",
            brief(&b),
            m.get(n),
            m.len()
        );
        n += 1;
    }
    check_eq!(n, m.len().max(at), "{what}: end of the iteration from {at}");
    Ok(())
}

/// the store holds exactly `m`
pub fn check_all(db: &Database, m: &[Rec], what: &str) -> Res {
    check_eq!(db.len(), m.len(), "{what}: len");
    check_eq!(db.is_empty(), m.is_empty(), "{what}: is_empty");
    let last = db.last().or_fail(&format!("{what}: last"))?;
    check!(
        match (&last, m.last()) {
            (None, None) => true,
            (Some(b), Some(r)) => same(b, r),
            _ => false,
        },
        "{what}: last is {:?}, expected {:?}",
        last.as_deref().map(brief),
        m.last()
    );
    check_iter(db.iter_from_seqno(0).or_fail("iter")?, 0, m, what)?;
    let n = m.len();
    let step = (n / 150).max(1);
    for at in (0..n).step_by(step).chain(n.saturating_sub(3)..n + 3) {
        check_read(db, at, m, what)?;
    }
    Ok(())
}

pub fn copy_dir(from: &Path, to: &Path) {
    fs::create_dir(to).expect("copy dir");
    for e in fs::read_dir(from).expect("read dir").flatten() {
        if e.path().is_file() {
            fs::copy(e.path(), to.join(e.file_name())).expect("copy");
        }
    }
}

fn limit_file_size(bytes: Option<u64>) {
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        let mut l: libc::rlimit = std::mem::zeroed();
        assert_eq!(libc::getrlimit(libc::RLIMIT_FSIZE, &mut l), 0);
        l.rlim_cur = bytes.unwrap_or(l.rlim_max);
        assert_eq!(libc::setrlimit(libc::RLIMIT_FSIZE, &l), 0);
    }
}
struct Limit;
impl Drop for Limit {
    fn drop(&mut self) {
        limit_file_size(None);
    }
}

struct Kept {
    it: SeqNoIter,
    at: usize,
}

struct World {
    dir: Option<PathBuf>,
    base: PathBuf,
    copies: u32,
    handles: Vec<Database>,
    cur: usize,
    m: Model,
    its: Vec<Kept>,
    readonly: Vec<(Database, Vec<Rec>)>,
    /// compare everything after each operation
    every: bool,
}

impl World {
    fn new(memory: bool, base: PathBuf, every: bool) -> Result<World, Fail> {
        let dir = if memory { None } else { Some(base.join("db")) };
        let db = match &dir {
            None => Database::memory(),
            Some(d) => Database::file(d),
        }
        .or_fail("create")?;
        Ok(World {
            dir,
            base,
            copies: 0,
            handles: vec![db],
            cur: 0,
            m: Model::new(),
            its: vec![],
            readonly: vec![],
            every,
        })
    }
    fn db(&self) -> &Database {
        &self.handles[self.cur]
    }
    fn append(&mut self, recs: &[Rec]) -> Res {
        let n = self.m.recs.len();
        let bytes: Vec<Vec<u8>> = recs.iter().map(|r| r.bytes()).collect();
        let refs: Vec<&[u8]> = bytes.iter().map(|b| b.as_slice()).collect();
        let s = self.db().append_get_seqno(&refs).or_fail("append_get_seqno")?;
        check_eq!(s, if recs.is_empty() { None } else { Some(n) }, "number of the first record appended");
        self.m.push(recs);
        Ok(())
    }
    fn copy(&mut self) -> PathBuf {
        self.copies += 1;
        let to = self.base.join(format!("copy{}", self.copies));
        copy_dir(self.dir.as_ref().unwrap(), &to);
        to
    }
    fn step(&mut self, op: &FOp, cx: &mut Cx) -> Res {
        let n = self.m.recs.len();
        match op {
            FOp::Append(recs) => {
                let bytes: Vec<Vec<u8>> = recs.iter().map(|r| r.bytes()).collect();
                let refs: Vec<&[u8]> = bytes.iter().map(|b| b.as_slice()).collect();
                self.db().append(&refs).or_fail("append")?;
                self.m.push(recs);
            }
            FOp::AppendSeqno(recs) => self.append(recs)?,
            FOp::Put(r) => {
                self.db().put(&r.bytes()).or_fail("put")?;
                self.m.push(&[*r]);
            }
            FOp::PutSeqno(r) => {
                check_eq!(self.db().put_seqno(&r.bytes()).or_fail("put_seqno")?, n, "put_seqno");
                self.m.push(&[*r]);
            }
            FOp::EmptyBatch => {
                check_eq!(self.db().append_get_seqno(&[]).or_fail("append nothing")?, None, "append nothing");
                self.db().append(&[]).or_fail("append nothing")?;
            }
            FOp::Bulk { n, len, seed } => {
                cx.label("bulk");
                let recs: Vec<Rec> = (0..*n).map(|i| Rec { len: *len, seed: seed + i }).collect();
                self.append(&recs)?;
            }
            FOp::Mappings { n, small } => {
                cx.label("very many mappings");
                for i in 0..*n {
                    self.append(&[Rec { len: PAGE + i % 3, seed: FAST + i }])?;
                    self.append(&[Rec { len: small + i % 5, seed: i }])?;
                }
            }
            FOp::FillData { delta } => {
                let left = PAGE as i64 - self.m.data_used as i64 + *delta as i64;
                if left > 0 {
                    cx.label("fills the data mapping");
                    self.append(&[Rec { len: left as u32, seed: left as u32 % 97 }])?;
                }
            }
            FOp::FillIndex { delta } => {
                let left = PAGE as i64 / 16 - self.m.index_used as i64 / 16 + *delta as i64;
                if left > 0 {
                    cx.label("fills the index mapping");
                    let recs: Vec<Rec> = (0..left as u32).map(|i| Rec { len: 1 + i % 3, seed: i }).collect();
                    self.append(&recs)?;
                }
            }
            FOp::Bad { recs, at, how } => {
                let mut bytes: Vec<Vec<u8>> = recs.iter().map(|r| r.bytes()).collect();
                bytes.insert(at % (recs.len() + 1), vec![]);
                let refs: Vec<&[u8]> = bytes.iter().map(|b| b.as_slice()).collect();
                let refused = match how % 4 {
                    0 => self.db().append(&refs).is_err(),
                    1 => self.db().append_get_seqno(&refs).is_err(),
                    2 => self.db().put(&[]).is_err(),
                    _ => self.db().put_seqno(&[]).is_err(),
                };
                check!(refused, "an append with an empty record was accepted");
                cx.label("empty record refused");
                check_all(self.db(), &self.m.recs, "after a refused append")?;
            }
            FOp::Read { at } => check_read(self.db(), at % (n + 2), &self.m.recs, "read")?,
            FOp::Far { at, iter } => {
                let at = (*at as usize).max(n);
                if *iter {
                    let it = self.db().iter_from_seqno(at);
                    check_eq!(it.map_or(0, |it| it.count()), 0, "records from number {at} of {n}");
                } else {
                    check_eq!(self.db().get_by_seqno(at).or_fail(&format!("get {at} of {n}"))?, None, "get {at} of {n}");
                }
                cx.label("beyond the end");
            }
            FOp::Iter { at, take } => {
                let at = at % (n + 2);
                let m = &self.m.recs[..n.min(at + take)];
                check_iter(self.db().iter_from_seqno(at).or_fail("iter")?.take(*take), at.min(m.len().max(at)), m, "partial iteration")?;
            }
            FOp::KeepIter { at } => {
                let at = at % (n + 1);
                let it = self.db().iter_from_seqno(at).or_fail("iter")?;
                self.its.push(Kept { it, at });
                if self.its.len() > 4 {
                    self.its.remove(0);
                }
            }
            FOp::StepIter { it, take } => {
                if !self.its.is_empty() {
                    let i = it % self.its.len();
                    let k = &mut self.its[i];
                    for _ in 0..*take {
                        match k.it.next() {
                            None => {
                                check!(k.at >= n, "a kept iterator ends at {} of {n}", k.at);
                                break;
                            }
                            Some(x) => {
                                let b = x.or_fail("kept iterator")?;
                                check!(
                                    self.m.recs.get(k.at).is_some_and(|r| same(&b, r)),
                                    "a kept iterator gives {} at {} of {n}",
                                    brief(&b),
                                    k.at
                                );
                                k.at += 1;
                            }
                        }
                    }
                    cx.label("kept iterator");
                }
            }
            FOp::Reopen => {
                if let Some(dir) = self.dir.clone() {
                    self.handles.clear();
                    self.its.clear();
                    self.cur = 0;
                    self.handles.push(Database::file(&dir).or_fail("reopen")?);
                    self.m.data_used = 0;
                    self.m.index_used = 0;
                    check_all(self.db(), &self.m.recs, "after reopening")?;
                    if n > 0 {
                        cx.label("reopened");
                    }
                }
            }
            FOp::ReadOnly { keep } => {
                // an empty store may have no file a read-only open could map
                if let Some(dir) = &self.dir {
                    let ro = Database::file_readonly(dir).or_fail("read-only open")?;
                    check_all(&ro, &self.m.recs, "read-only")?;
                    let r = Rec { len: 9, seed: 1 }.bytes();
                    check!(ro.put(&r).is_err(), "a read-only store took a record");
                    check_all(&ro, &self.m.recs, "read-only after a refused append")?;
                    if *keep {
                        self.readonly.push((ro, self.m.recs.clone()));
                    }
                    cx.label("read-only");
                }
            }
            FOp::Copy => {
                if self.dir.is_some() {
                    let to = self.copy();
                    {
                        let c = Database::file(&to).or_fail("open a copy")?;
                        check_all(&c, &self.m.recs, "copy")?;
                        let r = Rec { len: 17, seed: 5 };
                        c.put(&r.bytes()).or_fail("append to a copy")?;
                        let mut m = self.m.recs.clone();
                        m.push(r);
                        check_all(&c, &m, "copy after an append")?;
                        drop(c);
                        let c = Database::file(&to).or_fail("reopen a copy")?;
                        check_all(&c, &m, "copy reopened")?;
                    }
                    let _ = fs::remove_dir_all(&to);
                    if n > 0 {
                        cx.label("copied");
                    }
                }
            }
            FOp::Limited { kb, recs } => {
                if self.dir.is_some() {
                    let bytes: Vec<Vec<u8>> = recs.iter().map(|r| r.bytes()).collect();
                    let refs: Vec<&[u8]> = bytes.iter().map(|b| b.as_slice()).collect();
                    let r = {
                        limit_file_size(Some(*kb as u64 * 1024));
                        let _l = Limit;
                        self.db().append_get_seqno(&refs)
                    };
                    match r {
                        Ok(s) => {
                            check_eq!(s, Some(n), "number of the first record appended");
                            self.m.push(recs);
                        }
                        Err(_) => {
                            cx.label("append failed for lack of space");
                            check_all(self.db(), &self.m.recs, "after a failed append")?;
                        }
                    }
                }
            }
            FOp::Clone { of } => {
                if self.handles.len() < 5 {
                    let h = pick(&self.handles, *of).unwrap().clone();
                    self.handles.push(h);
                    cx.label("cloned");
                }
            }
            FOp::DropHandle { at } => {
                if self.handles.len() > 1 {
                    let i = at % self.handles.len();
                    drop(self.handles.remove(i));
                    self.cur = 0;
                    cx.label("dropped a clone");
                }
            }
            FOp::Handle { at } => self.cur = at % self.handles.len(),
        }
        if self.every {
            check_eq!(self.db().len(), self.m.recs.len(), "len after {}", opname(op));
            if self.m.recs.len() < 2000 {
                check_all(self.db(), &self.m.recs, &format!("after {}", opname(op)))?;
            }
        }
        Ok(())
    }
    fn finish(mut self, reopen: bool) -> Res {
        for h in &self.handles {
            check_all(h, &self.m.recs, "at the end")?;
        }
        for (ro, m) in &self.readonly {
            check_all(ro, m, "an earlier read-only handle")?;
        }
        if reopen {
            if let Some(dir) = &self.dir {
                self.handles.clear();
                let db = Database::file(dir).or_fail("final reopen")?;
                check_all(&db, &self.m.recs, "final reopen")?;
                drop(db);
                // iterators hold the storage
                for k in &mut self.its {
                    check_iter(&mut k.it, k.at, &self.m.recs, "an iterator after the handles are gone")?;
                }
            }
        }
        Ok(())
    }
}

fn opname(op: &FOp) -> String {
    let s = format!("{op:?}");
    s.chars().take(60).collect()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FCase {
    memory: bool,
    ops: Vec<FOp>,
}

fn appends() -> impl Strategy<Value = FOp> {
    prop_oneof![
        5 => batch(6).prop_map(FOp::Append),
        5 => batch(6).prop_map(FOp::AppendSeqno),
        3 => any_rec().prop_map(FOp::Put),
        3 => any_rec().prop_map(FOp::PutSeqno),
    ]
}
fn fills() -> impl Strategy<Value = FOp> {
    prop_oneof![
        3 => (-3i8..=3).prop_map(|delta| FOp::FillData { delta }),
        1 => (-3i8..=3).prop_map(|delta| FOp::FillIndex { delta }),
        1 => (1u32..3000, 1u32..6, 0u32..50).prop_map(|(n, len, seed)| FOp::Bulk { n, len, seed }),
    ]
}
fn far() -> impl Strategy<Value = FOp> {
    let at = prop_oneof![
        3 => 0u64..70_000,
        2 => any::<u64>(),
        3 => (0u64..20).prop_map(|x| u64::MAX - x),
        // 16 * at is a small number again modulo 2^64
        4 => (1u64..16, 0u64..20).prop_map(|(k, x)| (k << 60) + x),
        1 => (0u64..20).prop_map(|x| (1 << 60) - 1 - x),
    ];
    (at, any::<bool>()).prop_map(|(at, iter)| FOp::Far { at, iter })
}
fn reads() -> impl Strategy<Value = FOp> {
    prop_oneof![
        3 => any::<usize>().prop_map(|at| FOp::Read { at }),
        2 => far(),
        2 => (any::<usize>(), 0usize..20).prop_map(|(at, take)| FOp::Iter { at, take }),
        1 => any::<usize>().prop_map(|at| FOp::KeepIter { at }),
        2 => (any::<usize>(), 0usize..9).prop_map(|(it, take)| FOp::StepIter { it, take }),
    ]
}
fn bad() -> impl Strategy<Value = FOp> {
    (prop::collection::vec(any_rec(), 0..5), any::<usize>(), any::<u8>())
        .prop_map(|(recs, at, how)| FOp::Bad { recs, at, how })
}
fn limited() -> impl Strategy<Value = FOp> {
    (
        prop_oneof![0u32..600, 500u32..1600],
        prop_oneof![
            batch(6),
            (400_000u32..700_000, 0u32..50).prop_map(|(len, seed)| vec![Rec { len, seed }])
        ],
    )
        .prop_map(|(kb, recs)| FOp::Limited { kb, recs })
}
fn case(memory: impl Strategy<Value = bool>, op: impl Strategy<Value = FOp>, max: usize) -> impl Strategy<Value = FCase> {
    (memory, prop::collection::vec(op, 1..max)).prop_map(|(memory, ops)| FCase { memory, ops })
}

// ---------------------------------------------------------------------------------------------
pub struct C10;
impl Check for C10 {
    type Case = FCase;
    const ID: &'static str = "C10";
    const RULE: &'static str = "A case is a history of up to 14 appends and puts (1 byte to over 512 KiB, and fills up to just before, at and after the end of a mapping of the data and of the index), reads, iterations and look-ups far beyond the end, on an in-memory or file store; contents, numbering, length and last record are compared with a plain list. Non-trivial: at least two appends.";
    fn strategy(_: Tier) -> BoxedStrategy<FCase> {
        case(any::<bool>(), prop_oneof![12 => appends(), 2 => fills(), 12 => reads(), 1 => Just(FOp::EmptyBatch)], 15).boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(6_000, 120_000)
    }
    fn directed(_: Tier) -> Vec<FCase> {
        vec![FCase {
            memory: false,
            ops: vec![
                FOp::Put(Rec { len: 7, seed: 1 }),
                FOp::KeepIter { at: 0 },
                FOp::Mappings { n: 1030, small: 3 },
                FOp::StepIter { it: 0, take: 100 },
                FOp::Append(vec![Rec { len: 600_000, seed: 4 }, Rec { len: 5, seed: 6 }]),
                FOp::Put(Rec { len: 9, seed: 2 }),
            ],
        }]
    }
    fn run(c: &FCase, cx: &mut Cx) -> Res {
        let mut w = World::new(c.memory, cx.dir(), true)?;
        let mut appends = 0;
        for op in &c.ops {
            let before = w.m.recs.len();
            w.step(op, cx)?;
            appends += (w.m.recs.len() > before) as u32;
        }
        cx.nontrivial_if(appends > 1);
        w.finish(false)
    }
}

// ---------------------------------------------------------------------------------------------
pub struct C11;
impl Check for C11 {
    type Case = FCase;
    const ID: &'static str = "C11";
    const RULE: &'static str = "A case is a history of up to 14 appends mixed with refused ones (an empty record at any place of a batch, a read-only store) and failing ones (file size limit of the process reached in the data or in the index), reopenings included; after every refusal or failure, and at the end after reopening, the store is compared in full with the records whose append succeeded. Non-trivial: something was refused or failed, and a later append succeeded.";
    const ASSUMPTIONS: &'static [&'static str] = &["lack of space shows as a failure to extend the file (RLIMIT_FSIZE); a full disk met only when a sparse page is written is not reproduced"];
    fn strategy(_: Tier) -> BoxedStrategy<FCase> {
        case(
            prop::bool::weighted(0.2),
            prop_oneof![
                6 => appends(), 1 => fills(), 5 => bad(), 4 => limited(),
                1 => Just(FOp::Reopen), 1 => Just(FOp::ReadOnly { keep: false })
            ],
            15,
        )
        .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(8_000, 100_000)
    }
    fn directed(_: Tier) -> Vec<FCase> {
        // the data still fits, its index entry does not
        let one = |seed| vec![Rec { len: 1, seed }];
        vec![FCase {
            memory: false,
            ops: vec![
                FOp::FillIndex { delta: 0 },
                FOp::Limited { kb: 600, recs: one(3) },
                FOp::Append(one(8)),
                FOp::Reopen,
                FOp::Append(one(9)),
            ],
        }]
    }
    fn run(c: &FCase, cx: &mut Cx) -> Res {
        let mut w = World::new(c.memory, cx.dir(), false)?;
        let mut refused = false;
        for op in &c.ops {
            let before = w.m.recs.len();
            w.step(op, cx)?;
            let grew = w.m.recs.len() > before;
            if matches!(op, FOp::Bad { .. } | FOp::Limited { .. }) && !grew {
                refused = true;
            } else {
                cx.nontrivial_if(refused && grew);
            }
        }
        w.finish(true)
    }
}

// ---------------------------------------------------------------------------------------------
pub struct C12;
impl Check for C12 {
    type Case = FCase;
    const ID: &'static str = "C12";
    const RULE: &'static str = "A case is a history of up to 12 appends on a file store in which, at any point, the store is closed and opened again, opened read-only next to the live writer (and kept), or its files are copied between two appends and the copy opened, extended and reopened; each view must hold exactly the records appended so far. Non-trivial: a non-empty store was reopened, copied or opened read-only and extended later.";
    fn strategy(_: Tier) -> BoxedStrategy<FCase> {
        case(
            Just(false),
            prop_oneof![
                8 => appends(), 2 => fills(), 3 => Just(FOp::Reopen),
                2 => any::<bool>().prop_map(|keep| FOp::ReadOnly { keep }), 3 => Just(FOp::Copy)
            ],
            13,
        )
        .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(5_000, 100_000)
    }
    fn directed(_: Tier) -> Vec<FCase> {
        vec![FCase {
            memory: false,
            ops: vec![
                FOp::Put(Rec { len: 7, seed: 1 }),
                FOp::Mappings { n: 1030, small: 2 },
                FOp::ReadOnly { keep: true },
                FOp::Put(Rec { len: 9, seed: 2 }),
                FOp::Reopen,
                FOp::Put(Rec { len: 5, seed: 3 }),
            ],
        }]
    }
    fn run(c: &FCase, cx: &mut Cx) -> Res {
        let base = cx.dir();
        // reading never creates a store
        let none = base.join("none");
        match Database::file_readonly(&none) {
            Err(FraosError::FileError(FileError::PathNotFound)) => {}
            Err(_) if !none.exists() => {}
            Err(e) => return Err(Fail::new(format!("read-only open of a missing store created it (and gave {e:?})"))),
            Ok(_) => return Err(Fail::new("read-only open of a missing store gave one")),
        }
        let mut w = World::new(c.memory, base, false)?;
        let mut views = false;
        for op in &c.ops {
            let before = w.m.recs.len();
            w.step(op, cx)?;
            views |= before > 0 && matches!(op, FOp::Reopen | FOp::Copy | FOp::ReadOnly { .. });
            cx.nontrivial_if(views && w.m.recs.len() > before);
        }
        w.finish(true)
    }
}

// ---------------------------------------------------------------------------------------------
pub struct C14;
impl Check for C14 {
    type Case = FCase;
    const ID: &'static str = "C14";
    const RULE: &'static str = "A case is a history of up to 20 operations over up to five clones of one store (memory or file): cloning, dropping any clone, appending and reading through any, iterators kept across appends and past the last handle; all handles agree with one list, and after the last is dropped the files hold it. Non-trivial: a clone was dropped while another one lived and an append followed.";
    fn strategy(_: Tier) -> BoxedStrategy<FCase> {
        case(
            prop::bool::weighted(0.25),
            prop_oneof![
                8 => appends(), 1 => fills(), 5 => reads(),
                4 => any::<usize>().prop_map(|of| FOp::Clone { of }),
                4 => any::<usize>().prop_map(|at| FOp::DropHandle { at }),
                4 => any::<usize>().prop_map(|at| FOp::Handle { at }),
                1 => Just(FOp::Reopen), 1 => Just(FOp::Copy)
            ],
            21,
        )
        .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(10_000, 100_000)
    }
    fn run(c: &FCase, cx: &mut Cx) -> Res {
        let mut w = World::new(c.memory, cx.dir(), false)?;
        let mut dropped = false;
        for op in &c.ops {
            let before = w.m.recs.len();
            let handles = w.handles.len();
            w.step(op, cx)?;
            dropped |= matches!(op, FOp::DropHandle { .. }) && w.handles.len() < handles;
            cx.nontrivial_if(dropped && w.m.recs.len() > before);
        }
        w.finish(true)
    }
}

// ---------------------------------------------------------------------------------------------
/// crashes
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Crash {
    /// a process appends `batches` over and over and is killed
    Kill { before: Vec<Rec>, batches: Vec<Vec<Rec>>, acks: u32, micros: u32 },
    /// the files as a crash may leave them: index entries written for a prefix only, zeros from
    /// the unused rest of the mapping, data beyond the indexed part
    Torn { recs: Vec<Rec>, keep: usize, zeros: u32, data_tail: u32, garbage: bool, more: Vec<Rec> },
    /// a process opens, appends the batches and closes, `rounds` times over, and is gone at the
    /// `at`-th step from the start; then another one that opens and appends is gone at the
    /// `again`-th
    At { before: Vec<Rec>, batches: Vec<Vec<Rec>>, rounds: u8, at: u32, again: Option<u32> },
    /// data lost that the index points to
    Lost { recs: Vec<Rec>, cut: u32 },
    /// an index cut within an entry
    Ragged { recs: Vec<Rec>, keep: usize, extra: u8 },
}

/// the n-th batch a killed writer appends
fn nth_batch(batches: &[Vec<Rec>], n: usize) -> Vec<Rec> {
    batches[n % batches.len()]
        .iter()
        .map(|r| Rec { len: r.len, seed: r.seed.wrapping_add(n as u32) })
        .collect()
}

pub fn crash_writer(args: &[String]) -> i32 {
    let batches: Vec<Vec<Rec>> = serde_json::from_str(&args[1]).unwrap();
    let db = Database::file(&args[0]).unwrap();
    use std::io::Write;
    let mut out = std::io::stdout().lock();
    for n in 0.. {
        let b = nth_batch(&batches, n);
        let bytes: Vec<Vec<u8>> = b.iter().map(|r| r.bytes()).collect();
        let refs: Vec<&[u8]> = bytes.iter().map(|b| b.as_slice()).collect();
        if db.append(&refs).is_err() {
            return 3;
        }
        if out.write_all(&[1]).and_then(|_| out.flush()).is_err() {
            return 0;
        }
    }
    0
}

/// appends the batches from the `from`-th on, opening and closing again, until it is gone
pub fn crash_at(args: &[String]) -> i32 {
    let batches: Vec<Vec<Rec>> = serde_json::from_str(&args[1]).unwrap();
    let rounds: usize = args[2].parse().unwrap();
    let mut n: usize = args[3].parse().unwrap();
    vhpoints::kill_at(args[4].parse().unwrap());
    use std::io::Write;
    let mut out = std::io::stdout().lock();
    for _ in 0..rounds {
        let Ok(db) = Database::file(&args[0]) else { return 4 };
        for _ in 0..batches.len() {
            let bytes: Vec<Vec<u8>> = nth_batch(&batches, n).iter().map(|r| r.bytes()).collect();
            let refs: Vec<&[u8]> = bytes.iter().map(|b| b.as_slice()).collect();
            if db.append(&refs).is_err() {
                return 3;
            }
            out.write_all(&[1]).and_then(|_| out.flush()).unwrap();
            n += 1;
        }
    }
    0
}

pub struct C13;
impl Check for C13 {
    type Case = Crash;
    const ID: &'static str = "C13";
    const RULE: &'static str = "A case is a writer process that opens, appends and closes and is gone (SIGKILL) at a chosen statement of fraos, perhaps followed by another one gone at another, or one killed after some acknowledged batches and up to 2 ms later, or the files of a store rewritten into a state a crash may leave (index entries for any prefix, then zeros; unindexed data bytes), or damaged (indexed data missing, index cut within an entry). Reopening must give a prefix of what was appended that includes everything acknowledged, and go on from there; damage must be reported as an error. Non-trivial: records survive and something was cut, killed or zeroed.";
    const ASSUMPTIONS: &'static [&'static str] = &["process crashes: what was written to a shared mapping reaches the file; power loss is covered only as the torn states described"];
    fn strategy(_: Tier) -> BoxedStrategy<Crash> {
        let recs = || prop::collection::vec(prop_oneof![20 => small(), 1 => any_rec()], 1..30);
        prop_oneof![
            1 => (prop::collection::vec(small(), 0..5), prop::collection::vec(batch(8), 1..4), 0u32..40, 0u32..2000)
                .prop_map(|(before, batches, acks, micros)| Crash::Kill { before, batches, acks, micros }),
            2 => (
                prop::collection::vec(small(), 0..5),
                prop::collection::vec(prop_oneof![8 => batch(6), 1 => prop::collection::vec(any_rec(), 1..3)], 1..5),
                1u8..4,
                prop_oneof![1u32..250, 1u32..1200, 1u32..5000],
                prop::option::of(prop_oneof![1u32..120, 1u32..1200]),
            )
                .prop_map(|(before, batches, rounds, at, again)| Crash::At { before, batches, rounds, at, again }),
            6 => (recs(), any::<usize>(), prop_oneof![Just(0u32), 1u32..40, Just(PAGE / 16)], 0u32..5000, any::<bool>(), recs())
                .prop_map(|(recs, keep, zeros, data_tail, garbage, more)| Crash::Torn { recs, keep, zeros, data_tail, garbage, more }),
            2 => (recs(), 1u32..2000).prop_map(|(recs, cut)| Crash::Lost { recs, cut }),
            2 => (recs(), any::<usize>(), 1u8..16).prop_map(|(recs, keep, extra)| Crash::Ragged { recs, keep, extra }),
        ]
        .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(4_000, 120_000)
    }
    fn directed(_: Tier) -> Vec<Crash> {
        // every length of the index around powers of two, with a zero tail
        let step = |at| Crash::At {
            before: vec![],
            batches: vec![
                vec![Rec { len: 1, seed: 1 }],
                vec![Rec { len: 30, seed: 2 }, Rec { len: 7, seed: 3 }],
                vec![Rec { len: PAGE + 9, seed: 4 }, Rec { len: 40, seed: 5 }],
            ],
            rounds: 2,
            at,
            again: (at % 2 == 0).then_some(1 + at % 97),
        };
        let torn = (0..=70usize)
            .flat_map(|k| {
                [1u32, 2, 3, 17, 64].map(|zeros| Crash::Torn {
                    recs: (0..70).map(|i| Rec { len: 1 + i % 5, seed: i }).collect(),
                    keep: k,
                    zeros,
                    data_tail: 100,
                    garbage: k % 2 == 0,
                    more: vec![Rec { len: 3, seed: 4 }],
                })
            });
        // each step of opening an empty store, appending, growing, closing and opening again
        torn.chain((1..1200).map(step)).collect()
    }
    fn run(c: &Crash, cx: &mut Cx) -> Res {
        let dir = cx.dir().join("db");
        let write = |recs: &[Rec]| -> Res {
            let db = Database::file(&dir).or_fail("create")?;
            for r in recs {
                db.put(&r.bytes()).or_fail("put")?;
            }
            Ok(())
        };
        let go_on = |mut m: Vec<Rec>, more: &[Rec]| -> Res {
            let db = Database::file(&dir).or_fail("open after the crash")?;
            check_all(&db, &m, "after the crash")?;
            for r in more {
                check_eq!(db.put_seqno(&r.bytes()).or_fail("put after the crash")?, m.len(), "number after the crash");
                m.push(*r);
            }
            check_all(&db, &m, "after the crash and more")?;
            drop(db);
            let db = Database::file(&dir).or_fail("reopen after the crash")?;
            check_all(&db, &m, "after the crash, more and reopening")
        };
        match c {
            Crash::Kill { before, batches, acks, micros } => {
                use std::io::Read;
                write(before)?;
                let mut ch = vhrun::spawn_child(
                    "crash_writer",
                    &[dir.to_str().unwrap().to_string(), serde_json::to_string(batches).unwrap()],
                )
                .stdout(std::process::Stdio::piped())
                .stderr(std::process::Stdio::null())
                .spawn()
                .expect("spawn");
                let mut out = ch.stdout.take().unwrap();
                let mut acked = 0usize;
                let mut b = [0u8; 1];
                while acked < *acks as usize {
                    if out.read(&mut b).expect("ack") == 0 {
                        let st = ch.wait().expect("wait");
                        return Err(Fail::new(format!("the writer ended with {st} after {acked} batches")));
                    }
                    acked += 1;
                }
                std::thread::sleep(std::time::Duration::from_micros(*micros as u64));
                ch.kill().expect("kill");
                ch.wait().expect("wait");
                let mut rest = vec![];
                out.read_to_end(&mut rest).expect("acks");
                acked += rest.len();
                let mut m = before.clone();
                for n in 0..acked {
                    m.extend(nth_batch(batches, n));
                }
                let sure = m.len();
                m.extend(nth_batch(batches, acked));
                let db = Database::file(&dir).or_fail("open after the kill")?;
                let n = db.len();
                drop(db);
                check!(
                    n >= sure && n <= m.len(),
                    "{n} records after the kill; {sure} were acknowledged, {} at most attempted",
                    m.len()
                );
                cx.nontrivial_if(acked > 0);
                cx.label("killed");
                if n > sure {
                    cx.label("the batch being appended is there");
                }
                m.truncate(n);
                go_on(m, &[Rec { len: 5, seed: 1 }, Rec { len: 600, seed: 2 }])
            }
            Crash::At { before, batches, rounds, at, again } => {
                use std::os::unix::process::ExitStatusExt;
                write(before)?;
                let mut m = before.clone();
                let mut appended = 0;
                let mut died = 0;
                for (k, (at, rounds)) in [(Some(*at), *rounds), (*again, 1)].into_iter().enumerate() {
                    let Some(at) = at else { break };
                    let o = vhrun::spawn_child(
                        "crash_at",
                        &[
                            dir.to_str().unwrap().to_string(),
                            serde_json::to_string(batches).unwrap(),
                            rounds.to_string(),
                            appended.to_string(),
                            at.to_string(),
                        ],
                    )
                    .stderr(std::process::Stdio::null())
                    .output()
                    .expect("spawn");
                    let killed = o.status.signal() == Some(libc::SIGKILL);
                    check!(killed || o.status.success(), "writer {k} ended with {}", o.status);
                    let acked = o.stdout.len();
                    for _ in 0..acked {
                        m.extend(nth_batch(batches, appended));
                        appended += 1;
                    }
                    let sure = m.len();
                    if killed {
                        died += 1;
                        m.extend(nth_batch(batches, appended));
                    } else {
                        check_eq!(acked, batches.len() * rounds as usize, "batches of a writer that came to its end");
                    }
                    let look = cx.dir().join(format!("look{k}"));
                    // nothing may have been made yet
                    if dir.is_dir() {
                        copy_dir(&dir, &look);
                    }
                    let db = Database::file(&look).or_fail("open after the crash")?;
                    let n = db.len();
                    check!(
                        n >= sure && n <= m.len(),
                        "{n} records after the crash; {sure} were acknowledged, {} at most attempted",
                        m.len()
                    );
                    if n > sure {
                        cx.label("the batch being appended is there");
                        // so it counts as the next one
                        if n == m.len() {
                            appended += 1;
                        }
                    }
                    m.truncate(n);
                    check_all(&db, &m, "after the crash")?;
                    if n > sure && n < sure + nth_batch(batches, appended).len() {
                        cx.label("a part of the batch being appended is there");
                    }
                }
                if died > 0 {
                    cx.label("gone at a step");
                }
                if died > 1 {
                    cx.label("gone again");
                }
                cx.nontrivial_if(died > 0 && !m.is_empty());
                go_on(m, &[Rec { len: 5, seed: 1 }, Rec { len: 600, seed: 2 }])
            }
            Crash::Torn { recs, keep, zeros, data_tail, garbage, more } => {
                write(recs)?;
                let keep = keep % (recs.len() + 1);
                let index = dir.join("seqno");
                let mut b = fs::read(&index).expect("index");
                b.truncate(keep * 16);
                b.extend(std::iter::repeat_n(0u8, *zeros as usize * 16));
                fs::write(&index, b).expect("index");
                let data = dir.join("data");
                let mut b = fs::read(&data).expect("data");
                b.extend(std::iter::repeat_n(if *garbage { 0xa5u8 } else { 0 }, *data_tail as usize));
                fs::write(&data, b).expect("data");
                cx.nontrivial_if(keep > 0 && (keep < recs.len() || *zeros > 0));
                cx.label("torn");
                go_on(recs[..keep].to_vec(), more)
            }
            Crash::Lost { recs, cut } => {
                write(recs)?;
                let data = dir.join("data");
                let len = fs::metadata(&data).expect("data").len();
                let to = len.saturating_sub(*cut as u64);
                fs::OpenOptions::new().write(true).open(&data).expect("data").set_len(to).expect("cut");
                cx.nontrivial();
                cx.label("data lost");
                check!(Database::file(&dir).is_err(), "a store opens though {cut} indexed bytes are gone");
                Ok(())
            }
            Crash::Ragged { recs, keep, extra } => {
                write(recs)?;
                let keep = keep % recs.len();
                let index = dir.join("seqno");
                let to = keep as u64 * 16 + *extra as u64;
                fs::OpenOptions::new().write(true).open(&index).expect("index").set_len(to).expect("cut");
                cx.nontrivial_if(keep > 0);
                cx.label("ragged index");
                // refused, or the whole entries before the cut
                match Database::file(&dir) {
                    Err(_) => Ok(()),
                    Ok(db) => check_all(&db, &recs[..keep], "with an index cut within an entry"),
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
/// parallel use
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Par {
    memory: bool,
    /// per writer: the sizes of the records of each batch
    writers: Vec<Vec<Vec<u32>>>,
    readers: u8,
    through_clones: bool,
    pace: u8,
    /// statements of fraos to be held up at, and for how many microseconds
    delays: Vec<(u16, u16)>,
}

/// the statements of fraos that use passes
fn log_sites(dir: &Path) -> &'static [u32] {
    static SITES: std::sync::OnceLock<Vec<u32>> = std::sync::OnceLock::new();
    SITES.get_or_init(|| {
        vhpoints::record(|| {
            for memory in [true, false] {
                let db = if memory { Database::memory() } else { Database::file(dir) }.unwrap();
                for len in [3usize, 70, PAGE as usize, 9] {
                    db.append(&[&vec![1; len], &vec![2; len]]).unwrap();
                }
                let other = db.clone();
                other.put(&[1]).unwrap();
                assert_eq!(other.iter_from_seqno(0).unwrap().count(), db.len());
                db.get_by_seqno(2).unwrap();
                db.last().unwrap();
            }
        })
    })
}
pub fn delays() -> impl Strategy<Value = Vec<(u16, u16)>> {
    prop_oneof![
        1 => Just(vec![]),
        4 => prop::collection::vec((any::<u16>(), prop_oneof![2 => Just(1u16), 3 => 50u16..400, 2 => 800u16..3000]), 1..4),
    ]
}
pub fn held_up(sites: &[u32], delays: &[(u16, u16)]) -> vhpoints::Delays {
    let at: Vec<_> = delays
        .iter()
        .filter_map(|(s, us)| Some((*pick(sites, *s as usize)?, *us as u32)))
        .collect();
    vhpoints::delay(&at, 40)
}

/// a record that says who wrote it: writer, batch, index in the batch, size, and a checksum
fn tagged(w: usize, b: usize, i: usize, extra: u32) -> Vec<u8> {
    let mut v = vec![w as u8, b as u8, i as u8];
    v.extend(extra.to_le_bytes());
    let x = (w * 31 + b * 7 + i) as u8 ^ extra as u8;
    v.extend((0..extra).map(|k| x.wrapping_add(k as u8)));
    v.push(x ^ 0x5a);
    v
}
fn untag(v: &[u8], writers: &[Vec<Vec<u32>>]) -> Option<(usize, usize, usize)> {
    let (w, b, i) = (*v.first()? as usize, *v.get(1)? as usize, *v.get(2)? as usize);
    let extra = *writers.get(w)?.get(b)?.get(i)?;
    (v == tagged(w, b, i, extra)).then_some((w, b, i))
}

pub struct C15;
impl Check for C15 {
    type Case = Par;
    const ID: &'static str = "C15";
    const RULE: &'static str = "A case is up to 4 writer threads with up to 12 batches each and up to 3 reader threads on one store (memory or file, shared or cloned handles) under varied pacing, threads being held up at up to three statements of fraos. Readers: whatever is below the length is there, whole, and never changes; iterations are prefixes of the final order. At the end every batch is contiguous at the number its append returned, each writer's batches are in order, and nothing else is there. Non-trivial: two writers' batches interleave.";
    const ASSUMPTIONS: &'static [&'static str] = &["schedules are those the operating system produces under the generated pacing and delays; they are sampled, not enumerated"];
    const SHRINK_ITERS: u32 = 200;
    const WORKERS: u32 = 12;
    const REPLAY_RUNS: u32 = 200;
    fn strategy(_: Tier) -> BoxedStrategy<Par> {
        let size = prop_oneof![20 => 0u32..60, 2 => 1000u32..20_000, 1 => Just(PAGE / 2), 1 => Just(PAGE)];
        (
            any::<bool>(),
            prop::collection::vec(prop::collection::vec(prop::collection::vec(size, 1..5), 1..13), 1..5),
            0u8..4,
            any::<bool>(),
            any::<u8>(),
            delays(),
        )
            .prop_map(|(memory, writers, readers, through_clones, pace, delays)| Par { memory, writers, readers, through_clones, pace, delays })
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(5_000, 300_000)
    }
    fn run(c: &Par, cx: &mut Cx) -> Res {
        use std::sync::atomic::{AtomicUsize, Ordering};
        use std::sync::{Arc, Barrier};
        let sites = log_sites(&cx.dir().join("sites"));
        let dir = cx.dir().join("db");
        let db = if c.memory { Database::memory() } else { Database::file(&dir) }.or_fail("create")?;
        let barrier = Barrier::new(c.writers.len() + c.readers as usize);
        let running = AtomicUsize::new(c.writers.len());
        let shared = Arc::new(db.clone());
        let handle = |db: &Database| if c.through_clones { Arc::new(db.clone()) } else { shared.clone() };
        let pace = |k: usize| {
            match (c.pace as usize + k) % 5 {
                0 => std::thread::yield_now(),
                1 => std::hint::spin_loop(),
                2 => (0..200).for_each(|_| std::hint::spin_loop()),
                3 => std::thread::sleep(std::time::Duration::from_micros(20)),
                _ => {}
            };
        };
        struct Done<'a>(&'a AtomicUsize);
        impl Drop for Done<'_> {
            fn drop(&mut self) {
                self.0.fetch_sub(1, Ordering::SeqCst);
            }
        }
        let held = held_up(sites, &c.delays);
        if !c.delays.is_empty() && !sites.is_empty() {
            cx.label("held up");
        }
        let seqnos: Result<Vec<Vec<usize>>, Fail> = std::thread::scope(|s| {
            let ws: Vec<_> = c
                .writers
                .iter()
                .enumerate()
                .map(|(w, batches)| {
                    let h = handle(&db);
                    let (barrier, pace, running) = (&barrier, &pace, &running);
                    s.spawn(move || -> Result<Vec<usize>, Fail> {
                        let _d = Done(running);
                        barrier.wait();
                        let mut out = vec![];
                        for (b, batch) in batches.iter().enumerate() {
                            let recs: Vec<Vec<u8>> = batch.iter().enumerate().map(|(i, e)| tagged(w, b, i, *e)).collect();
                            let refs: Vec<&[u8]> = recs.iter().map(|r| r.as_slice()).collect();
                            let n = h.append_get_seqno(&refs).or_fail("append")?.or_fail("append number")?;
                            // one's own writes are visible at once
                            for (i, r) in recs.iter().enumerate() {
                                let got = h.get_by_seqno(n + i).or_fail("read own")?;
                                check!(got.as_ref() == Some(r), "own record {} + {i} is not there after its append", n);
                            }
                            check!(h.len() >= n + recs.len(), "len {} after an append at {n} + {}", h.len(), recs.len());
                            out.push(n);
                            pace(w + b);
                        }
                        Ok(out)
                    })
                })
                .collect();
            let rs: Vec<_> = (0..c.readers as usize)
                .map(|r| {
                    let h = handle(&db);
                    let (barrier, pace, running) = (&barrier, &pace, &running);
                    s.spawn(move || -> Result<Vec<Vec<u8>>, Fail> {
                        barrier.wait();
                        let mut seen: Vec<Vec<u8>> = vec![];
                        let mut k = r;
                        let mut prev = 0;
                        loop {
                            let end = running.load(Ordering::SeqCst) == 0;
                            let n = h.len();
                            check!(n >= prev, "len went from {prev} to {n}");
                            prev = n;
                            for at in [n.wrapping_sub(1), k % n.max(1)] {
                                if at < n {
                                    let v = h.get_by_seqno(at).or_fail("get below len")?;
                                    let v = v.or_fail("get below len")?;
                                    check!(untag(&v, &c.writers).is_some(), "record {at} below len {n} is {}", brief(&v));
                                    if let Some(s) = seen.get(at) {
                                        check!(s == &v, "record {at} changed");
                                    }
                                }
                            }
                            if n > 0 {
                                let l = h.last().or_fail("last")?.or_fail("last")?;
                                check!(untag(&l, &c.writers).is_some(), "last is {}", brief(&l));
                            }
                            if k % 4 == 0 || end {
                                let mut now = vec![];
                                for x in h.iter_from_seqno(0).or_fail("iter")? {
                                    let v = x.or_fail("iterate")?;
                                    check!(untag(&v, &c.writers).is_some(), "iteration gives {}", brief(&v));
                                    now.push(v);
                                }
                                check!(now.len() >= n, "an iteration gives {} records, len was {n}", now.len());
                                check!(now.starts_with(&seen), "an iteration does not extend an earlier one");
                                seen = now;
                            }
                            if end {
                                return Ok(seen);
                            }
                            k += 1;
                            pace(k);
                        }
                    })
                })
                .collect();
            let mut out = vec![];
            let mut fail = None;
            for w in ws {
                match w.join() {
                    Ok(Ok(x)) => out.push(x),
                    Ok(Err(f)) => fail = Some(f),
                    Err(_) => fail = Some(Fail::new("a writer panicked")),
                }
            }
            for r in rs {
                match r.join() {
                    Ok(Ok(_)) => {}
                    Ok(Err(f)) => fail = Some(f),
                    Err(_) => fail = Some(Fail::new("a reader panicked")),
                }
            }
            match fail {
                Some(f) => Err(f),
                None => Ok(out),
            }
        });
        drop(held);
        let seqnos = seqnos?;
        drop(shared);
        let verify = |db: &Database, what: &str| -> Result<bool, Fail> {
            let mut all = vec![];
            for x in db.iter_from_seqno(0).or_fail("iter")? {
                let v = x.or_fail("iterate")?;
                all.push(untag(&v, &c.writers).or_fail(&format!("{what}: a record nobody wrote"))?);
            }
            let total: usize = c.writers.iter().flatten().map(|b| b.len()).sum();
            check_eq!(all.len(), total, "{what}: number of records");
            check_eq!(db.len(), total, "{what}: len");
            for (w, batches) in c.writers.iter().enumerate() {
                let mut prev = None;
                for (b, batch) in batches.iter().enumerate() {
                    let n = seqnos[w][b];
                    check!(prev < Some(n), "{what}: writer {w}'s batch {b} is before its previous one");
                    prev = Some(n);
                    for i in 0..batch.len() {
                        check_eq!(all.get(n + i), Some(&(w, b, i)), "{what}: record {n} + {i}");
                    }
                }
            }
            let runs = 1 + all.windows(2).filter(|x| x[0].0 != x[1].0).count();
            Ok(runs > c.writers.len())
        };
        let interleaved = verify(&db, "at the end")?;
        cx.nontrivial_if(interleaved);
        drop(db);
        if !c.memory {
            let db = Database::file(&dir).or_fail("reopen")?;
            verify(&db, "reopened")?;
        }
        Ok(())
    }
}
