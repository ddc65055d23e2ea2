//! A node with blocks in the ledger's encoding, of the eras since Shelley: header chain
//! synchronisation and block fetch over TCP, block chain synchronisation over a Unix socket.
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Spec {
    pub gap: u16,
    /// 2 Shelley .. 7 Conway
    pub era: u8,
    pub transactions: u8,
    pub extra: u8,
}

#[derive(Clone, Debug)]
pub struct Blk {
    pub hash: [u8; 32],
    pub parent: Option<usize>,
    pub number: u64,
    pub slot: u64,
    pub era: u8,
    pub header: Vec<u8>,
    pub raw: Vec<u8>,
}

/// a CBOR head
fn head(b: &mut Vec<u8>, major: u8, n: u64) {
    let m = major << 5;
    match n {
        0..=23 => b.push(m | n as u8),
        24..=0xff => b.extend([m | 24, n as u8]),
        0x100..=0xffff => {
            b.push(m | 25);
            b.extend((n as u16).to_be_bytes());
        }
        0x10000..=0xffff_ffff => {
            b.push(m | 26);
            b.extend((n as u32).to_be_bytes());
        }
        _ => {
            b.push(m | 27);
            b.extend(n.to_be_bytes());
        }
    }
}
fn uint(n: u64) -> Vec<u8> {
    let mut b = vec![];
    head(&mut b, 0, n);
    b
}
fn bytes(x: &[u8]) -> Vec<u8> {
    let mut b = vec![];
    head(&mut b, 2, x.len() as u64);
    b.extend(x);
    b
}
fn array(xs: &[Vec<u8>]) -> Vec<u8> {
    let mut b = vec![];
    head(&mut b, 4, xs.len() as u64);
    xs.iter().for_each(|x| b.extend(x));
    b
}
fn map(xs: &[(u64, Vec<u8>)]) -> Vec<u8> {
    let mut b = vec![];
    head(&mut b, 5, xs.len() as u64);
    for (k, v) in xs {
        b.extend(uint(*k));
        b.extend(v);
    }
    b
}
fn embedded(x: &[u8]) -> Vec<u8> {
    let mut b = vec![0xd8, 24];
    b.extend(bytes(x));
    b
}
fn blake256(x: &[u8]) -> [u8; 32] {
    let mut out = [0; 32];
    cryptoxide::hashing::blake2b::Blake2b::<256>::new().update(x).finalize_at(&mut out);
    out
}
/// bytes that look like a hash, a key, a signature
fn junk(n: usize, seed: u64) -> Vec<u8> {
    (0..n as u64).map(|i| ((seed + 1).wrapping_mul(0x9e3779b97f4a7c15 ^ (i << 7)) >> 23) as u8).collect()
}

fn block(i: u64, s: &Spec, parent: Option<&Blk>) -> Blk {
    let era = s.era.clamp(2, 7);
    let number = parent.map_or(0, |p| p.number + 1);
    let slot = parent.map_or(s.gap as u64, |p| p.slot + s.gap.max(1) as u64);
    let previous = parent.map_or(vec![0xf6], |p| bytes(&p.hash));
    let proof = |k: u64| array(&[bytes(&junk(64, i + k)), bytes(&junk(80, i + k))]);
    let mut h = vec![uint(number), uint(slot), previous, bytes(&junk(32, i)), bytes(&junk(32, i + 7))];
    let certificate = [bytes(&junk(32, i + 3)), uint(i), uint(i / 2), bytes(&junk(64, i + 4))];
    let size = uint(s.extra as u64 * 17);
    let body_hash = bytes(&junk(32, i + 5));
    if era >= 6 {
        h.extend([proof(1), size, body_hash, array(&certificate), array(&[uint(era as u64 + 1), uint(0)])]);
    } else {
        h.extend([proof(1), proof(2), size, body_hash]);
        h.extend(certificate);
        h.extend([uint(era as u64), uint(0)]);
    }
    let header = array(&[array(&h), bytes(&junk(448, i + 6))]);
    let n = if s.transactions > 3 { 0 } else { s.transactions as u64 };
    let transaction = |t: u64| {
        let mut address = vec![0x61];
        address.extend(junk(28, i + t));
        let out = array(&[bytes(&address), uint(1_000_000 + i * 13 + t)]);
        map(&[
            (0, array(&[array(&[bytes(&junk(32, i * 5 + t)), uint(t)])])),
            (1, array(&[out])),
            (2, uint(170_000 + t)),
            (3, uint(slot + 100)),
        ])
    };
    let mut parts = vec![
        header.clone(),
        array(&(0..n).map(transaction).collect::<Vec<_>>()),
        array(&(0..n).map(|_| map(&[])).collect::<Vec<_>>()),
        map(&[]),
    ];
    if era >= 5 {
        parts.push(array(&[]));
    }
    let raw = array(&[uint(era as u64), array(&parts)]);
    Blk { hash: blake256(&header), parent: None, number, slot, era, header, raw }
}

#[derive(Default)]
pub struct Chain {
    pub blocks: Vec<Blk>,
    pub chain: Vec<usize>,
}

impl Chain {
    pub fn grow(&mut self, s: &Spec) {
        let parent = self.chain.last().copied();
        let i = self.blocks.len();
        let mut b = block(i as u64, s, parent.map(|p| &self.blocks[p]));
        b.parent = parent;
        self.blocks.push(b);
        self.chain.push(i);
    }
    pub fn change(&mut self, (depth, new): &(u8, Vec<Spec>)) {
        self.chain.truncate(self.chain.len().saturating_sub(*depth as usize));
        new.iter().for_each(|s| self.grow(s));
    }
    /// what a follower at that block (none: the origin) is told next; the inner none: nothing yet
    fn next(&self, at: Option<usize>) -> Next {
        match at {
            Some(i) => match self.chain.iter().position(|k| *k == i) {
                Some(k) => self.chain.get(k + 1).map_or(Next::Nothing, |k| Next::Forward(*k)),
                None => {
                    let mut up = self.blocks[i].parent;
                    while let Some(k) = up.filter(|k| !self.chain.contains(k)) {
                        up = self.blocks[k].parent;
                    }
                    Next::Back(up)
                }
            },
            None => self.chain.first().map_or(Next::Nothing, |k| Next::Forward(*k)),
        }
    }
}

enum Next {
    Nothing,
    Forward(usize),
    Back(Option<usize>),
}

/// the blocks a follower is told of from there on, with all the changes
pub fn told(mut c: Chain, changes: &[(u8, Vec<Spec>)], mut at: Option<usize>) -> (Chain, Vec<usize>) {
    let mut out = vec![];
    let mut changes = changes.iter();
    loop {
        match c.next(at) {
            Next::Forward(i) => {
                out.push(i);
                at = Some(i);
            }
            Next::Back(to) => at = to,
            Next::Nothing => match changes.next() {
                Some(x) => c.change(x),
                None => return (c, out),
            },
        }
    }
}

#[derive(Default)]
pub struct State {
    pub chain: Chain,
    pub changes: Vec<(u8, Vec<Spec>)>,
    pub magic: u64,
    pub unix: bool,
    pub frames: Vec<u16>,
    pub connections: usize,
    /// the client is told everything and waits
    pub idle: bool,
    pub complaints: Vec<String>,
    pub asked: Vec<Vec<Option<(u64, Vec<u8>)>>>,
}

#[derive(Clone, Debug, PartialEq)]
enum Cbor {
    Uint(u64),
    Bytes(Vec<u8>),
    Array(Vec<Cbor>),
    Map(Vec<(Cbor, Cbor)>),
    Simple(u8),
}

/// a value at the start of the bytes, and what follows; none: more is needed
fn read(b: &[u8]) -> Option<(Cbor, &[u8])> {
    let (first, mut b) = b.split_first()?;
    let (major, low) = (first >> 5, first & 31);
    let wide = match low {
        24..=27 => 1 << (low - 24),
        _ => 0,
    };
    if b.len() < wide {
        return None;
    }
    let n = if wide == 0 { low as u64 } else { b[..wide].iter().fold(0, |n, x| n << 8 | *x as u64) };
    b = &b[wide..];
    let open = low == 31;
    match major {
        0 => Some((Cbor::Uint(n), b)),
        2 => {
            let n = n as usize;
            (b.len() >= n).then(|| (Cbor::Bytes(b[..n].to_vec()), &b[n..]))
        }
        4 | 5 => {
            let mut xs = vec![];
            let items = if major == 5 { 2 * n } else { n };
            while open || (xs.len() as u64) < items {
                if open && *b.first()? == 0xff {
                    b = &b[1..];
                    break;
                }
                let (x, rest) = read(b)?;
                xs.push(x);
                b = rest;
            }
            if major == 4 {
                return Some((Cbor::Array(xs), b));
            }
            let mut it = xs.into_iter();
            let mut m = vec![];
            while let (Some(k), Some(v)) = (it.next(), it.next()) {
                m.push((k, v));
            }
            Some((Cbor::Map(m), b))
        }
        6 => read(b),
        7 => Some((Cbor::Simple(low), b)),
        _ => Some((Cbor::Simple(255), b)),
    }
}

type End = std::io::Result<()>;

pub struct Conn<S: Read + Write> {
    pub s: S,
    pub state: Arc<Mutex<State>>,
    pub sent: usize,
}

fn point_of(b: &Cbor) -> Option<Option<(u64, Vec<u8>)>> {
    match b {
        Cbor::Array(x) if x.is_empty() => Some(None),
        Cbor::Array(x) => match &x[..] {
            [Cbor::Uint(s), Cbor::Bytes(h)] => Some(Some((*s, h.clone()))),
            _ => None,
        },
        _ => None,
    }
}

impl<S: Read + Write> Conn<S> {
    fn send(&mut self, id: u16, msg: &[u8]) -> End {
        let frames = self.state.lock().unwrap().frames.clone();
        let mut rest = msg;
        while !rest.is_empty() {
            let n = match frames.len() {
                0 => 65535,
                k => frames[self.sent % k].max(1) as usize,
            }
            .min(rest.len());
            self.sent += 1;
            let mut out = vec![0, 0, 0, 0];
            out.extend((id | 0x8000).to_be_bytes());
            out.extend((n as u16).to_be_bytes());
            out.extend(&rest[..n]);
            self.s.write_all(&out)?;
            rest = &rest[n..];
        }
        Ok(())
    }
    fn complain(&self, what: String) -> End {
        self.state.lock().unwrap().complaints.push(what);
        Err(std::io::ErrorKind::InvalidData.into())
    }
    pub fn serve(&mut self) -> End {
        let mut pending: BTreeMap<u16, Vec<u8>> = BTreeMap::new();
        let mut at: Option<usize> = None;
        let mut fresh = false;
        loop {
            let mut h = [0u8; 8];
            self.s.read_exact(&mut h)?;
            let id = u16::from_be_bytes([h[4], h[5]]);
            let mut b = vec![0; u16::from_be_bytes([h[6], h[7]]) as usize];
            self.s.read_exact(&mut b)?;
            pending.entry(id).or_default().extend(b);
            while let Some((m, n)) = read(&pending[&id]).map(|(m, rest)| (m, rest.len())) {
                let buf = pending.get_mut(&id).unwrap();
                buf.drain(..buf.len() - n);
                self.message(id, m, &mut at, &mut fresh)?;
            }
        }
    }
    fn message(&mut self, id: u16, m: Cbor, at: &mut Option<usize>, fresh: &mut bool) -> End {
        let Cbor::Array(m) = m else { return self.complain(format!("on {id}: {m:?}")) };
        let (unix, magic) = {
            let g = self.state.lock().unwrap();
            (g.unix, g.magic)
        };
        let sync = if unix { 5 } else { 2 };
        let kind = match m.first() {
            Some(Cbor::Uint(k)) => *k,
            _ => return self.complain(format!("on {id}: {m:?}")),
        };
        if id == 0 {
            let Some(Cbor::Map(versions)) = m.get(1).filter(|_| kind == 0) else {
                return self.complain(format!("handshake {m:?}"));
            };
            let magic_of = |v: &Cbor| match v {
                Cbor::Uint(n) => Some(*n),
                Cbor::Array(x) => match x.first() {
                    Some(Cbor::Uint(n)) => Some(*n),
                    _ => None,
                },
                _ => None,
            };
            if versions.iter().any(|(_, v)| magic_of(v) != Some(magic)) {
                return self.complain(format!("proposed {versions:?}, the network's magic is {magic}"));
            }
            // one that all know
            let want = if unix { 32778 } else { 10 };
            let Some((v, _)) = versions.iter().find(|(v, _)| *v == Cbor::Uint(want)) else {
                return self.complain(format!("proposed {versions:?}"));
            };
            debug_assert_eq!(*v, Cbor::Uint(want));
            let params = if unix { uint(magic) } else { array(&[uint(magic), vec![0xf5]]) };
            return self.send(0, &array(&[uint(1), uint(want), params]));
        }
        let point = |c: &Chain, i: Option<usize>| match i {
            Some(i) => array(&[uint(c.blocks[i].slot), bytes(&c.blocks[i].hash)]),
            None => array(&[]),
        };
        if id == sync {
            let answers: Vec<Vec<u8>> = {
                let mut g = self.state.lock().unwrap();
                let g = &mut *g;
                let tip = |c: &Chain| {
                    let n = c.chain.last().map_or(0, |i| c.blocks[*i].number);
                    array(&[point(c, c.chain.last().copied()), uint(n)])
                };
                match kind {
                    4 => {
                        let Some(Cbor::Array(points)) = m.get(1) else { return Err(std::io::ErrorKind::InvalidData.into()) };
                        let points: Vec<_> = points.iter().filter_map(point_of).collect();
                        g.asked.push(points.clone());
                        let found = points.iter().find_map(|p| match p {
                            None => Some(None),
                            Some((slot, hash)) => {
                                let c = &g.chain;
                                let i = c.chain.iter().find(|i| c.blocks[**i].slot == *slot && c.blocks[**i].hash[..] == hash[..]);
                                i.map(|i| Some(*i))
                            }
                        });
                        vec![match found {
                            Some(p) => {
                                *at = p;
                                *fresh = true;
                                array(&[uint(5), point(&g.chain, p), tip(&g.chain)])
                            }
                            None => array(&[uint(6), tip(&g.chain)]),
                        }]
                    }
                    0 => {
                        let mut out = vec![];
                        if std::mem::take(fresh) {
                            out.push(array(&[uint(3), point(&g.chain, *at), tip(&g.chain)]));
                        } else {
                            loop {
                                match g.chain.next(*at) {
                                    Next::Forward(i) => {
                                        *at = Some(i);
                                        let b = &g.chain.blocks[i];
                                        let content = if unix {
                                            embedded(&b.raw)
                                        } else {
                                            array(&[uint(b.era as u64 - 1), embedded(&b.header)])
                                        };
                                        out.push(array(&[uint(2), content, tip(&g.chain)]));
                                        break;
                                    }
                                    Next::Back(p) => {
                                        *at = p;
                                        out.push(array(&[uint(3), point(&g.chain, p), tip(&g.chain)]));
                                        break;
                                    }
                                    Next::Nothing => {
                                        if out.is_empty() {
                                            out.push(array(&[uint(1)]));
                                        }
                                        if g.changes.is_empty() {
                                            g.idle = true;
                                            break;
                                        }
                                        let x = g.changes.remove(0);
                                        g.chain.change(&x);
                                    }
                                }
                            }
                        }
                        out
                    }
                    7 => vec![],
                    _ => {
                        g.complaints.push(format!("chain sync: {m:?}"));
                        return Err(std::io::ErrorKind::InvalidData.into());
                    }
                }
            };
            for a in answers {
                self.send(id, &a)?;
            }
            return Ok(());
        }
        if id == 3 && !unix && kind == 0 {
            let ends: Vec<_> = m[1..].iter().filter_map(point_of).collect();
            let raw = {
                let g = self.state.lock().unwrap();
                match &ends[..] {
                    [Some(a), Some(b)] if a == b => {
                        g.chain.blocks.iter().find(|x| x.slot == a.0 && x.hash[..] == a.1[..]).map(|b| b.raw.clone())
                    }
                    _ => return Err(std::io::ErrorKind::InvalidData.into()),
                }
            };
            return match raw {
                Some(raw) => {
                    self.send(3, &array(&[uint(2)]))?;
                    self.send(3, &array(&[uint(4), embedded(&raw)]))?;
                    self.send(3, &array(&[uint(5)]))
                }
                None => self.send(3, &array(&[uint(3)])),
            };
        }
        if (id == 3 && kind == 1) || id == 8 {
            return Ok(());
        }
        self.complain(format!("on {id}: {m:?}"))
    }
}
