//! C16-C18: the log with access by key (indexed-log-map)
use crate::logs::{delays, held_up};
use indexed_log_map::config::IndexedLogMapConfig;
use indexed_log_map::storage::{get_next, IndexedLogMap};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::Path;
use vhrun::{check, check_eq, pick, Check, Cx, Fail, OrFail, Res, Tier};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum K {
    N(u64),
    S(String),
    P(i8, Option<String>),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum V {
    Unit,
    I(i64),
    S(String),
    O(Option<u8>),
    L(Vec<u16>),
    B(std::collections::BTreeMap<String, bool>),
}
type Map = IndexedLogMap<K, V>;

/// opens the map; the lock of the key index of a handle just dropped may take a moment to go
fn open(path: Option<&Path>, index: bool, readonly: bool) -> Result<Map, Fail> {
    let mut last = String::new();
    for _ in 0..300 {
        match Map::new(IndexedLogMapConfig {
            storage_path: path.map(|p| p.to_path_buf()),
            use_key_indexing: index,
            readonly,
        }) {
            Ok(m) => return Ok(m),
            Err(e) => {
                last = format!("{e:#}");
                if !last.contains("lock") {
                    break;
                }
                std::thread::sleep(std::time::Duration::from_millis(10));
            }
        }
    }
    Err(Fail::new(format!("open: {last}")))
}

fn key() -> impl Strategy<Value = K> {
    prop_oneof![
        4 => (0u64..6).prop_map(K::N),
        1 => any::<u64>().prop_map(K::N),
        2 => "[ab]{0,2}".prop_map(K::S),
        1 => "\\PC{0,40}".prop_map(K::S),
        2 => (-1i8..2, prop::option::of("[ab]{0,1}")).prop_map(|(i, s)| K::P(i, s)),
        // long ones that differ in one place
        1 => (prop_oneof![Just(30usize), Just(62), Just(126), Just(254), Just(300), Just(2000)], any::<prop::sample::Index>(), any::<bool>()).prop_map(|(n, at, end)| {
            let mut s = vec![b'a'; n];
            s[if end { n - 1 } else { at.index(n) }] = b'b';
            K::S(String::from_utf8(s).unwrap_or_default())
        }),
    ]
}
fn val() -> impl Strategy<Value = V> {
    prop_oneof![
        1 => Just(V::Unit),
        4 => any::<i64>().prop_map(V::I),
        2 => "\\PC{0,12}".prop_map(V::S),
        1 => any::<Option<u8>>().prop_map(V::O),
        1 => prop::collection::vec(any::<u16>(), 0..40).prop_map(V::L),
        1 => prop::collection::btree_map("[a-z]{0,3}", any::<bool>(), 0..4).prop_map(V::B),
        1 => prop_oneof![4 => 200usize..700, 1 => 3_900usize..4_300, 1 => 65_400usize..65_700].prop_map(|n| V::S("v".repeat(n))),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum MOp {
    Append(K, V),
    /// under a key used before
    Again(usize, V),
    Lookup(K),
    LookupOld(usize),
    All,
    Reopen,
    NoIndex { readonly: bool },
}

#[derive(Default, Clone)]
struct Model {
    log: Vec<(K, V)>,
}
impl Model {
    fn at(&self, k: &K) -> Option<usize> {
        self.log.iter().rposition(|x| &x.0 == k)
    }
}

fn collect(it: impl Iterator<Item = anyhow::Result<V>>) -> Result<Vec<V>, Fail> {
    it.map(|x| x.or_fail("iterate")).collect()
}

fn check_key(map: &Map, m: &Model, k: &K, what: &str) -> Res {
    let at = m.at(k);
    check_eq!(map.get(k).or_fail("get")?, at.map(|i| m.log[i].1.clone()), "{what}: get {k:?}");
    check_eq!(map.contains(k).or_fail("contains")?, at.is_some(), "{what}: contains {k:?}");
    match map.iter_from(k).or_fail("iter_from")? {
        None => check!(at.is_none(), "{what}: no iteration from {k:?}, which was appended"),
        Some(it) => {
            let want: Vec<V> = m.log[at.unwrap_or(m.log.len())..].iter().map(|x| x.1.clone()).collect();
            check!(at.is_some(), "{what}: an iteration from {k:?}, which was never appended");
            check_eq!(collect(it)?, want, "{what}: iteration from {k:?}");
        }
    }
    let next = at.and_then(|i| m.log.get(i + 1)).map(|x| x.1.clone());
    check_eq!(get_next(map, &Some(k.clone())).or_fail("get_next")?, next, "{what}: next after {k:?}");
    Ok(())
}

fn check_log(map: &Map, m: &Model, what: &str) -> Res {
    let want: Vec<V> = m.log.iter().map(|x| x.1.clone()).collect();
    check_eq!(collect(map.iter().or_fail("iter")?)?, want, "{what}: iteration");
    check_eq!(map.last().or_fail("last")?, want.last().cloned(), "{what}: last");
    check_eq!(get_next(map, &None).or_fail("get_next")?, want.first().cloned(), "{what}: first");
    Ok(())
}

fn check_map(map: &Map, m: &Model, what: &str) -> Res {
    check_log(map, m, what)?;
    check_eq!(map.is_empty().or_fail("is_empty")?, m.log.is_empty(), "{what}: is_empty");
    let keys: std::collections::BTreeSet<_> = m.log.iter().map(|x| x.0.clone()).collect();
    for k in &keys {
        check_key(map, m, k, what)?;
    }
    for k in [K::N(0), K::N(7_000_000), K::S(String::new()), K::P(0, None)] {
        check_key(map, m, &k, what)?;
    }
    Ok(())
}

fn run_ops(ops: &[MOp], path: Option<&Path>, cx: &mut Cx) -> Res {
    let mut map = Some(open(path, true, false)?);
    let mut m = Model::default();
    let mut repeated = false;
    let mut reopened = false;
    for op in ops {
        let cur = map.as_ref().unwrap();
        match op {
            MOp::Append(k, v) => {
                repeated |= m.at(k).is_some();
                cur.append(k.clone(), v.clone()).or_fail("append")?;
                m.log.push((k.clone(), v.clone()));
                check_key(cur, &m, k, "after the append")?;
            }
            MOp::Again(i, v) => {
                if let Some((k, _)) = pick(&m.log, *i).cloned() {
                    repeated = true;
                    cur.append(k.clone(), v.clone()).or_fail("append")?;
                    m.log.push((k.clone(), v.clone()));
                    check_key(cur, &m, &k, "after the append")?;
                }
            }
            MOp::Lookup(k) => check_key(cur, &m, k, "lookup")?,
            MOp::LookupOld(i) => {
                if let Some((k, _)) = pick(&m.log, *i) {
                    check_key(cur, &m, k, "lookup")?;
                }
            }
            MOp::All => check_map(cur, &m, "middle")?,
            MOp::Reopen => {
                if path.is_some() {
                    drop(map.take());
                    map = Some(open(path, true, false)?);
                    reopened |= !m.log.is_empty();
                    check_map(map.as_ref().unwrap(), &m, "reopened")?;
                }
            }
            MOp::NoIndex { readonly } => {
                // the log alone, e.g. for another reader
                if path.is_some() {
                    drop(map.take());
                    {
                        let ro = open(path, false, *readonly)?;
                        check_log(&ro, &m, "without index")?;
                        check!(ro.append(K::N(1), V::Unit).is_err(), "an append without key index was accepted");
                        check!(ro.get(&K::N(1)).is_err(), "a lookup without key index did not fail");
                        check!(ro.is_empty().is_err(), "is_empty without key index did not fail");
                        check_log(&ro, &m, "without index, after refusals")?;
                    }
                    if *readonly {
                        let ro = open(path, true, true)?;
                        check_map(&ro, &m, "read-only")?;
                        check!(ro.append(K::N(1), V::Unit).is_err(), "a read-only map took a value");
                        check_map(&ro, &m, "read-only, after a refused append")?;
                    }
                    map = Some(open(path, true, false)?);
                    reopened |= !m.log.is_empty();
                    check_map(map.as_ref().unwrap(), &m, "opened again")?;
                }
            }
        }
    }
    check_map(map.as_ref().unwrap(), &m, "at the end")?;
    cx.nontrivial_if(if path.is_some() { reopened } else { repeated });
    if repeated {
        cx.label("key appended again");
    }
    if reopened {
        cx.label("reopened non-empty");
    }
    Ok(())
}

fn mops(files: bool, max: usize) -> BoxedStrategy<Vec<MOp>> {
    let f = files as u32;
    crate::now_and_then_longer(
        prop_oneof![
            9 => (key(), val()).prop_map(|(k, v)| MOp::Append(k, v)),
            4 => (any::<usize>(), val()).prop_map(|(i, v)| MOp::Again(i, v)),
            3 => key().prop_map(MOp::Lookup),
            2 => any::<usize>().prop_map(MOp::LookupOld),
            1 => Just(MOp::All),
            (1 + 2 * f) => Just(MOp::Reopen),
            (1 + f) => any::<bool>().prop_map(|readonly| MOp::NoIndex { readonly }),
        ],
        max,
        if files { 3 } else { 8 },
    )
}

pub struct C16;
impl Check for C16 {
    type Case = Vec<MOp>;
    const ID: &'static str = "C16";
    const RULE: &'static str = "A case is a history of up to 40 (now and then 320) appends (fresh and repeated keys of several shapes) and lookups on an in-memory map; get, contains, iteration from a key, next-after-key, full iteration, first, last and emptiness are compared with a list of pairs. Non-trivial: a key was appended again.";
    fn strategy(_: Tier) -> BoxedStrategy<Vec<MOp>> {
        mops(false, 40)
    }
    fn cases(t: Tier) -> u32 {
        t.pick(30_000, 400_000)
    }
    fn run(c: &Vec<MOp>, cx: &mut Cx) -> Res {
        run_ops(c, None, cx)
    }
}

// ---------------------------------------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Disk {
    Ops(Vec<MOp>),
    /// a process appends these over and over, and is killed
    Kill { before: Vec<(K, V)>, items: Vec<(K, V)>, acks: u32, micros: u32 },
    /// a process opens, appends these and closes, twice, and is gone at the `at`-th statement of
    /// the store and its log
    At { before: Vec<(K, V)>, items: Vec<(K, V)>, at: u32 },
}

fn nth(items: &[(K, V)], n: usize) -> (K, V) {
    let (k, v) = &items[n % items.len()];
    (k.clone(), if n % 3 == 0 { V::I(n as i64) } else { v.clone() })
}

pub fn map_writer(args: &[String]) -> i32 {
    use std::io::Write;
    let items: Vec<(K, V)> = serde_json::from_str(&args[1]).unwrap();
    let map = open(Some(Path::new(&args[0])), true, false).unwrap();
    let mut out = std::io::stdout().lock();
    for n in 0.. {
        let (k, v) = nth(&items, n);
        if map.append(k, v).is_err() {
            return 3;
        }
        if out.write_all(&[1]).and_then(|_| out.flush()).is_err() {
            return 0;
        }
    }
    0
}

pub fn map_at(args: &[String]) -> i32 {
    use std::io::Write;
    let items: Vec<(K, V)> = serde_json::from_str(&args[1]).unwrap();
    vhpoints::kill_at(args[2].parse().unwrap());
    let mut out = std::io::stdout().lock();
    let mut n = 0;
    for _ in 0..2 {
        let Ok(map) = open(Some(Path::new(&args[0])), true, false) else { return 4 };
        for _ in 0..items.len() {
            let (k, v) = nth(&items, n);
            if map.append(k, v).is_err() {
                return 3;
            }
            out.write_all(&[1]).and_then(|_| out.flush()).unwrap();
            n += 1;
        }
    }
    0
}

pub struct C17;
impl Check for C17 {
    type Case = Disk;
    const ID: &'static str = "C17";
    const RULE: &'static str = "A case is a history on disk with clean closes and reopenings (with and without the key index, read-only), after which everything must be there, or a writer process gone (SIGKILL) at a chosen statement of the store or its log, or killed after some acknowledged appends and up to 2 ms later, after which the log must hold a prefix with everything acknowledged, and each key must lead to a value that was appended under it or to none, and appends go on. Non-trivial: the map was not empty when reopened.";
    const ASSUMPTIONS: &'static [&'static str] = &["after a kill, a key lookup may lag (the key index is flushed in the background); it must not be wrong"];
    fn strategy(_: Tier) -> BoxedStrategy<Disk> {
        let kv = || (key(), val());
        prop_oneof![
            4 => mops(true, 25).prop_map(Disk::Ops),
            1 => (prop::collection::vec(kv(), 0..6), prop::collection::vec(kv(), 1..10), 0u32..60, 0u32..2000)
                .prop_map(|(before, items, acks, micros)| Disk::Kill { before, items, acks, micros }),
            4 => (prop::collection::vec(kv(), 0..5), prop::collection::vec(kv(), 1..5), prop_oneof![1u32..400, 1u32..2500])
                .prop_map(|(before, items, at)| Disk::At { before, items, at }),
        ]
        .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(2_500, 40_000)
    }
    const SHRINK_ITERS: u32 = 300;
    fn run(c: &Disk, cx: &mut Cx) -> Res {
        let dir = cx.dir().join("map");
        match c {
            Disk::Ops(ops) => run_ops(ops, Some(&dir), cx),
            Disk::Kill { before, .. } | Disk::At { before, .. } => {
                use std::io::Read;
                use std::os::unix::process::ExitStatusExt;
                let mut m = Model::default();
                {
                    let map = open(Some(&dir), true, false)?;
                    for (k, v) in before {
                        map.append(k.clone(), v.clone()).or_fail("append")?;
                        m.log.push((k.clone(), v.clone()));
                    }
                }
                // the index of a handle just closed may still be locked: the child retries
                let (acked, items, attempted) = match c {
                    Disk::Kill { items, acks, micros, .. } => {
                        let mut ch = vhrun::spawn_child(
                            "map_writer",
                            &[dir.to_str().unwrap().to_string(), serde_json::to_string(items).unwrap()],
                        )
                        .stdout(std::process::Stdio::piped())
                        .stderr(std::process::Stdio::null())
                        .spawn()
                        .expect("spawn");
                        let mut out = ch.stdout.take().unwrap();
                        let mut acked = 0usize;
                        let mut b = [0u8; 1];
                        while acked < *acks as usize {
                            if out.read(&mut b).expect("ack") == 0 {
                                let st = ch.wait().expect("wait");
                                return Err(Fail::new(format!("the writer ended with {st} after {acked} appends")));
                            }
                            acked += 1;
                        }
                        std::thread::sleep(std::time::Duration::from_micros(*micros as u64));
                        ch.kill().expect("kill");
                        ch.wait().expect("wait");
                        let mut rest = vec![];
                        out.read_to_end(&mut rest).expect("acks");
                        acked += rest.len();
                        cx.label("killed");
                        (acked, items, 1)
                    }
                    Disk::At { items, at, .. } => {
                        let o = vhrun::spawn_child(
                            "map_at",
                            &[dir.to_str().unwrap().to_string(), serde_json::to_string(items).unwrap(), at.to_string()],
                        )
                        .stderr(std::process::Stdio::null())
                        .output()
                        .expect("spawn");
                        let killed = o.status.signal() == Some(libc::SIGKILL);
                        check!(killed || o.status.success(), "the writer ended with {}", o.status);
                        if killed {
                            cx.label("gone at a statement");
                        } else {
                            cx.label("came to its end");
                            check_eq!(o.stdout.len(), items.len() * 2, "appends of a writer that came to its end");
                        }
                        (o.stdout.len(), items, killed as usize)
                    }
                    Disk::Ops(_) => unreachable!(),
                };
                for n in 0..acked {
                    m.log.push(nth(items, n));
                }
                let sure = m.log.len();
                m.log.push(nth(items, acked));
                let map = open(Some(&dir), true, false)?;
                let n = map.iter().or_fail("iter")?.count();
                check!(n >= sure && n <= sure + attempted, "{n} values after the kill, {sure} were acknowledged");
                m.log.truncate(n);
                check_log(&map, &m, "after the kill")?;
                cx.nontrivial_if(acked > 0);
                // what was closed cleanly is as it was: all of it if the writer came to its end
                let known = match c {
                    Disk::At { items, .. } if attempted == 0 => before.len() + items.len() * 2,
                    Disk::At { items, .. } if acked > items.len() => before.len() + items.len(),
                    _ => before.len(),
                };
                let keys: std::collections::BTreeSet<_> = m.log.iter().map(|x| x.0.clone()).collect();
                for k in &keys {
                    let got = map.get(k).or_fail("get after the kill")?;
                    let last_known = m.log[..known].iter().rposition(|y| &y.0 == k);
                    match got {
                        None => check!(last_known.is_none(), "{k:?}, closed cleanly before, is gone after the kill"),
                        Some(v) => {
                            let ok = m.log.iter().enumerate().any(|(i, x)| &x.0 == k && x.1 == v && Some(i) >= last_known);
                            check!(ok, "after the kill {k:?} leads to {v:?}, never appended under it (since)");
                        }
                    }
                }
                // go on: re-append everything under fresh knowledge
                for k in keys {
                    map.append(k.clone(), V::I(-5)).or_fail("append after the kill")?;
                    m.log.push((k, V::I(-5)));
                }
                check_map(&map, &m, "after the kill and more")
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Par {
    file: bool,
    /// per thread the keys it appends under
    threads: Vec<Vec<u8>>,
    readers: u8,
    pace: u8,
    /// statements of the store and its log to be held up at, and for how many microseconds
    delays: Vec<(u16, u16)>,
}

fn map_sites(dir: &Path) -> &'static [u32] {
    static SITES: std::sync::OnceLock<Vec<u32>> = std::sync::OnceLock::new();
    SITES.get_or_init(|| {
        vhpoints::record(|| {
            for dir in [None, Some(dir)] {
                let map = open(dir, true, false).unwrap();
                for k in [1, 2, 1] {
                    map.append(K::N(k), V::I(k as i64)).unwrap();
                }
                map.get(&K::N(1)).unwrap();
                map.get(&K::N(7)).unwrap();
                assert_eq!(map.iter().unwrap().count(), 3);
            }
        })
    })
}

pub struct C18;
impl Check for C18 {
    type Case = Par;
    const ID: &'static str = "C18";
    const RULE: &'static str = "A case is 2-6 threads appending up to 40 values each under keys of their own and shared ones, with readers looking keys up and iterating meanwhile, threads being held up at up to three statements of the store and its log. Every append is immediately visible under its key (a later value may have replaced it), lookups never go back to an older value, and at the end every key leads to the last value of the log appended under it. Non-trivial: two threads appended under one key.";
    const ASSUMPTIONS: &'static [&'static str] = &["schedules are those the operating system produces under the generated delays; they are sampled, not enumerated"];
    const SHRINK_ITERS: u32 = 60;
    const WORKERS: u32 = 12;
    const REPLAY_RUNS: u32 = 300;
    fn strategy(_: Tier) -> BoxedStrategy<Par> {
        (
            prop::bool::weighted(0.2),
            prop::collection::vec(prop::collection::vec(0u8..4, 1..40), 2..7),
            0u8..3,
            any::<u8>(),
            delays(),
        )
            .prop_map(|(file, threads, readers, pace, delays)| Par { file, threads, readers, pace, delays })
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(2_500, 100_000)
    }
    fn run(c: &Par, cx: &mut Cx) -> Res {
        use std::sync::atomic::{AtomicUsize, Ordering};
        use std::sync::Barrier;
        type M = IndexedLogMap<u32, (u8, u32)>;
        let sites = map_sites(&cx.dir().join("sites"));
        let dir = cx.dir().join("map");
        let open = || -> Result<M, Fail> {
            let mut last = String::new();
            for _ in 0..300 {
                match M::new(IndexedLogMapConfig {
                    storage_path: c.file.then(|| dir.clone()),
                    use_key_indexing: true,
                    readonly: false,
                }) {
                    Ok(m) => return Ok(m),
                    Err(e) => last = format!("{e:#}"),
                }
                std::thread::sleep(std::time::Duration::from_millis(10));
            }
            Err(Fail::new(format!("open: {last}")))
        };
        let map = open()?;
        // key 0 belongs to the thread, the others are shared
        let key = |t: usize, k: u8| if k == 0 { 1000 + t as u32 } else { k as u32 };
        let users = |k: u8| c.threads.iter().filter(|x| x.contains(&k)).count();
        cx.nontrivial_if((1..4).any(|k| users(k) > 1));
        let barrier = Barrier::new(c.threads.len() + c.readers as usize);
        let running = AtomicUsize::new(c.threads.len());
        struct Done<'a>(&'a AtomicUsize);
        impl Drop for Done<'_> {
            fn drop(&mut self) {
                self.0.fetch_sub(1, Ordering::SeqCst);
            }
        }
        let held = held_up(sites, &c.delays);
        if !c.delays.is_empty() && !sites.is_empty() {
            cx.label("held up");
        }
        let results: Vec<Res> = std::thread::scope(|s| {
            let mut hs = vec![];
            for (t, keys) in c.threads.iter().enumerate() {
                let (map, barrier, running) = (&map, &barrier, &running);
                hs.push(s.spawn(move || -> Res {
                    let _d = Done(running);
                    barrier.wait();
                    for (i, k) in keys.iter().enumerate() {
                        let k = key(t, *k);
                        map.append(k, (t as u8, i as u32)).or_fail("append")?;
                        let got = map.get(&k).or_fail("get")?.or_fail("get after append")?;
                        check!(
                            got == (t as u8, i as u32) || (k < 1000 && (got.0 != t as u8 || got.1 > i as u32)),
                            "after appending ({t}, {i}) under {k} its value is {got:?}"
                        );
                        if (c.pace as usize + t) % 3 == 0 {
                            std::thread::yield_now();
                        }
                    }
                    Ok(())
                }));
            }
            for _ in 0..c.readers {
                let (map, barrier, running) = (&map, &barrier, &running);
                hs.push(s.spawn(move || -> Res {
                    barrier.wait();
                    let mut seen = std::collections::BTreeMap::new();
                    loop {
                        let end = running.load(Ordering::SeqCst) == 0;
                        for t in 0..c.threads.len() {
                            let k = key(t, 0);
                            if let Some(v) = map.get(&k).or_fail("get")? {
                                check!(v.0 == t as u8, "{k} leads to {v:?}");
                                let p = seen.insert(k, v.1);
                                check!(p <= Some(v.1), "{k} went back from {p:?} to {v:?}");
                            } else {
                                check!(!seen.contains_key(&k), "{k} vanished");
                            }
                        }
                        for k in 1..4u32 {
                            if let Some(v) = map.get(&k).or_fail("get")? {
                                check!(c.threads[v.0 as usize].get(v.1 as usize) == Some(&(k as u8)), "{k} leads to {v:?}");
                            }
                        }
                        if end {
                            return Ok(());
                        }
                        std::thread::yield_now();
                    }
                }));
            }
            hs.into_iter()
                .map(|h| h.join().unwrap_or_else(|_| Err(Fail::new("a thread panicked"))))
                .collect()
        });
        drop(held);
        for r in results {
            r?;
        }
        let verify = |map: &M, what: &str| -> Res {
            let log: Vec<(u8, u32)> = map
                .iter()
                .or_fail("iter")?
                .collect::<anyhow::Result<_>>()
                .or_fail("iterate")?;
            let total: usize = c.threads.iter().map(|t| t.len()).sum();
            check_eq!(log.len(), total, "{what}: number of values");
            for (t, keys) in c.threads.iter().enumerate() {
                let mine: Vec<u32> = log.iter().filter(|x| x.0 == t as u8).map(|x| x.1).collect();
                check_eq!(mine, (0..keys.len() as u32).collect::<Vec<_>>(), "{what}: values of thread {t}");
            }
            let mut last = std::collections::BTreeMap::new();
            for v in &log {
                last.insert(key(v.0 as usize, c.threads[v.0 as usize][v.1 as usize]), *v);
            }
            for (k, v) in last {
                check_eq!(map.get(&k).or_fail("get")?, Some(v), "{what}: the last value appended under {k}");
            }
            Ok(())
        };
        verify(&map, "at the end")?;
        drop(map);
        if c.file {
            verify(&open()?, "reopened")?;
        }
        Ok(())
    }
}
