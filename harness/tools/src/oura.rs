//! C43: oura-block-fetcher
use crate::relay::*;
use crate::run::{run, tool, LIMIT};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::BufRead;
use std::process::Stdio;
use std::sync::{mpsc, Arc, Mutex};
use std::time::{Duration, Instant};
use vhrun::{check, check_eq, Check, Cx, Fail, OrFail, Res, Tier};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Since {
    Origin,
    Block(usize),
    Off(usize, bool),
    Malformed(String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    /// as it is written
    magic: String,
    unix: bool,
    since: Since,
    frames: Vec<u16>,
    first: Vec<Spec>,
    changes: Vec<(u8, Vec<Spec>)>,
}

fn spec() -> impl Strategy<Value = Spec> {
    (prop_oneof![1u16..30, 1u16..4000], 2u8..8, 0u8..8, any::<u8>())
        .prop_map(|(gap, era, transactions, extra)| Spec { gap, era, transactions, extra })
}

fn known(m: &str) -> Option<u64> {
    match m {
        "mainnet" | "764824073" => Some(764824073),
        "testnet" | "1097911063" => Some(1097911063),
        "preprod" | "1" => Some(1),
        "preview" | "2" => Some(2),
        "4" => Some(4),
        _ => None,
    }
}

/// an end of a connection, of either kind
trait Io: std::io::Read + std::io::Write + Send {}
impl<T: std::io::Read + std::io::Write + Send> Io for T {}

fn serve(state: Arc<Mutex<State>>, accept: impl Fn() -> std::io::Result<Box<dyn Io>> + Send + 'static) {
    std::thread::spawn(move || {
        // ends with the process
        while let Ok(s) = accept() {
            state.lock().unwrap().connections += 1;
            let state = state.clone();
            std::thread::spawn(move || {
                let _ = Conn { s, state, sent: 0 }.serve();
            });
        }
    });
}

pub struct C43;
impl Check for C43 {
    type Case = Case;
    const ID: &'static str = "C43";
    const RULE: &'static str = "A case is a network by name or number, a chain of blocks in the ledger's encoding (Shelley to Conway, with and without transactions), its growth and forks while it is followed, and the point asked for; oura-block-fetcher is run against a node serving it over TCP or a Unix socket in any fragments, and the lines it prints are compared with the blocks the node tells it of. Non-trivial: at least one block is to be printed.";
    const ASSUMPTIONS: &'static [&'static str] = &["what is printed more than 15 ms after the last expected line goes unseen"];
    const SHRINK_ITERS: u32 = 300;
    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        let most = t.pick(12, 60);
        (
            prop_oneof![
                12 => prop_oneof![Just("mainnet"), Just("testnet"), Just("preprod"), Just("preview"), Just("764824073"), Just("1097911063"), Just("1"), Just("2"), Just("4"), Just("4")].prop_map(String::from),
                1 => prop_oneof![Just(""), Just("sancho"), Just("Mainnet"), Just("3"), Just("5"), Just("-1"), Just("0")].prop_map(String::from),
            ],
            any::<bool>(),
            prop_oneof![
                3 => Just(Since::Origin),
                6 => any::<usize>().prop_map(Since::Block),
                1 => (any::<usize>(), any::<bool>()).prop_map(|(i, h)| Since::Off(i, h)),
                1 => prop_oneof![Just(""), Just("7"), Just("a,00"), Just("-1,00"), Just("18446744073709551616,00")].prop_map(|s| Since::Malformed(s.into())),
            ],
            prop_oneof![
                2 => Just(vec![]),
                1 => prop::collection::vec(prop_oneof![1u16..30, 1u16..1400, 1u16..=u16::MAX], 1..5),
            ],
            prop_oneof![60 => prop::collection::vec(spec(), 1..most), 1 => prop::collection::vec(spec(), 60..200)],
            prop::collection::vec((prop_oneof![Just(0u8), 0u8..6], prop::collection::vec(spec(), 0..5)), 0..4),
        )
            .prop_map(|(magic, unix, since, frames, first, changes)| Case { magic, unix, since, frames, first, changes })
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(4000, 30_000)
    }
    fn run(c: &Case, cx: &mut Cx) -> Res {
        let chain = || {
            let mut x = Chain::default();
            c.first.iter().for_each(|s| x.grow(s));
            x
        };
        let magic = known(&c.magic);
        let mut st = State { chain: chain(), changes: c.changes.clone(), magic: magic.unwrap_or(0), unix: c.unix, frames: c.frames.clone(), ..State::default() };
        // the first answer is read as a whole
        if c.unix && !st.frames.is_empty() {
            cx.label("fragments");
        }
        let n = c.first.len();
        let text = |slot: u64, h: &[u8]| format!("{slot},{}", hex::encode(h));
        let (since, start) = {
            let b = |i: &usize| &st.chain.blocks[i % n];
            match &c.since {
                Since::Origin => (None, Some(None)),
                Since::Block(i) => (Some(text(b(i).slot, &b(i).hash)), Some(Some(i % n))),
                Since::Off(i, false) => (Some(text(b(i).slot + 1, &b(i).hash)), None),
                Since::Off(i, true) => {
                    let mut h = b(i).hash;
                    h[31] ^= 1;
                    (Some(text(b(i).slot, &h)), None)
                }
                Since::Malformed(s) => (Some(s.clone()), None),
            }
        };
        let want: Vec<String> = match start.filter(|_| magic.is_some()) {
            Some(at) => {
                let (chain, told) = told(chain(), &c.changes, at);
                told.iter()
                    .map(|i| {
                        let b = &chain.blocks[*i];
                        format!("Block #{}, point: {}@{}, raw cbor hex: {}", b.number, hex::encode(b.hash), b.slot, hex::encode(&b.raw))
                    })
                    .collect()
            }
            None => vec![],
        };
        if c.changes.iter().any(|(d, _)| *d > 0) {
            cx.label("forks");
        }
        let never = magic.is_none() || matches!(c.since, Since::Malformed(_));
        st.idle = false;
        let state = Arc::new(Mutex::new(st));
        let socket = if c.unix {
            let path = cx.dir().join("s");
            let l = std::os::unix::net::UnixListener::bind(&path).or_fail("bind")?;
            serve(state.clone(), move || l.accept().map(|(s, _)| Box::new(s) as Box<dyn Io>));
            path.to_string_lossy().into_owned()
        } else {
            let l = std::net::TcpListener::bind("127.0.0.1:0").or_fail("bind")?;
            let port = l.local_addr().unwrap().port();
            serve(state.clone(), move || {
                let (s, _) = l.accept()?;
                s.set_nodelay(true)?;
                Ok(Box::new(s) as Box<dyn Io>)
            });
            format!("127.0.0.1:{port}")
        };
        cx.label(if c.unix { "unix" } else { "tcp" });
        let mut cmd = tool("oura-block-fetcher");
        // the main network need not be named
        if c.magic != "mainnet" || n % 2 == 0 {
            cmd.arg(format!("--magic={}", c.magic));
        }
        if let Some(s) = &since {
            cmd.arg(format!("--since={s}"));
        }
        cmd.args(["--bearer", if c.unix { "unix" } else { "tcp" }, "--socket", &socket]);
        let lines: Vec<String> = if start.is_none() || never {
            // it ends
            let got = run(cmd)?;
            if never {
                check!(!got.status.success(), "magic {:?} and point {since:?} were taken", c.magic);
            }
            cx.label(if never { "malformed" } else { "unknown point" });
            got.out.lines().map(String::from).collect()
        } else {
            let mut child = cmd.stdout(Stdio::piped()).stderr(Stdio::null()).spawn().or_fail("the tool starts")?;
            let out = child.stdout.take().unwrap();
            let (tx, rx) = mpsc::channel();
            std::thread::spawn(move || {
                for l in std::io::BufReader::new(out).lines().map_while(Result::ok) {
                    if tx.send(l).is_err() {
                        break;
                    }
                }
            });
            let mut lines = vec![];
            let until = Instant::now() + LIMIT;
            let mut ended = false;
            while lines.len() < want.len() && !ended {
                match rx.recv_timeout(until.saturating_duration_since(Instant::now())) {
                    Ok(l) => lines.push(l),
                    Err(_) => ended = true,
                }
            }
            while !ended && Instant::now() < until {
                let g = state.lock().unwrap();
                if g.idle || !g.complaints.is_empty() {
                    break;
                }
                drop(g);
                std::thread::sleep(Duration::from_millis(1));
            }
            std::thread::sleep(Duration::from_millis(15));
            let _ = child.kill();
            let _ = child.wait();
            lines.extend(rx.iter());
            lines
        };
        let g = state.lock().unwrap();
        check!(g.complaints.is_empty(), "the node was asked wrongly: {:?}", g.complaints);
        for (i, l) in lines.iter().enumerate() {
            let w = want.get(i);
            check!(w == Some(l), "line {i} of {} is {}, expected {}", lines.len(), cut(l), w.map_or("none".into(), |w| cut(w)));
        }
        check_eq!(lines.len(), want.len(), "lines printed");
        if never {
            check_eq!(g.connections, 0, "connections with magic {:?} and point {since:?}", c.magic);
        }
        cx.nontrivial_if(!want.is_empty());
        Ok::<(), Fail>(())
    }
}

fn cut(s: &str) -> String {
    if s.len() > 220 {
        format!("{}... ({} characters)", &s[..220], s.len())
    } else {
        s.into()
    }
}
