//! A Cardano node on the loopback interface: hands out blocks of the format of harness/stubs, over
//! the mini-protocols cardano-net speaks.
use cardano_sdk::chain::HeaderHash;
use cardano_sdk::protocol::{BlockFetch, ChainSync, HandshakeNode, HandshakeNodeData, Point, Tip, Version};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::sync::{Arc, Mutex};
use std::thread::JoinHandle;

/// how a block is made
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Spec {
    /// slots since its parent
    pub gap: u16,
    /// 0 epoch boundary, 1 Byron, 2.. later eras
    pub kind: u8,
    pub extra: u16,
    /// cannot be read
    pub garbled: bool,
}

pub fn spec(kinds: std::ops::Range<u8>, garbled: bool) -> impl Strategy<Value = Spec> {
    (
        prop_oneof![0u16..4, 1u16..2000],
        kinds,
        prop_oneof![12 => 0u16..40, 2 => 0u16..4000, 1 => any::<u16>()],
        prop::bool::weighted(if garbled { 0.02 } else { 0.0 }),
    )
        .prop_map(|(gap, kind, extra, garbled)| Spec { gap, kind, extra, garbled })
}

#[derive(Clone, Debug)]
pub struct Blk {
    pub hash: [u8; 32],
    /// index into all blocks
    pub parent: Option<usize>,
    pub number: u64,
    /// how many blocks it is built on
    pub height: u64,
    pub slot: u64,
    pub epoch: u64,
    pub kind: u8,
    pub garbled: bool,
    pub raw: Vec<u8>,
}

impl Blk {
    pub fn hex(&self) -> String {
        hex::encode(self.hash)
    }
    pub fn point(&self) -> Point {
        Point::BlockHeader { slot_nb: self.slot, hash: HeaderHash(self.hash) }
    }
}

/// what goes wrong with the n-th request, counted by its intersection
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Fault {
    None,
    /// the connection is closed in place of an answer
    CloseOnIntersect,
    CloseOnRange,
    NoBlocks,
    /// after that many blocks, perhaps within the one that follows
    CloseAfter(u16, bool),
    /// once the request is answered
    CloseThen,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Wire {
    /// sizes of the fragments messages are cut into, over and over
    pub frames: Vec<u16>,
    /// a pause after that many fragments, perhaps
    pub pause: Option<u8>,
}

pub fn wire() -> impl Strategy<Value = Wire> {
    (
        prop_oneof![
            3 => Just(vec![]),
            2 => prop::collection::vec(prop_oneof![1u16..30, 1u16..400, 1u16..=u16::MAX], 1..6),
        ],
        prop::option::weighted(0.3, 1u8..20),
    )
        .prop_map(|(frames, pause)| Wire { frames, pause })
}

#[derive(Default)]
pub struct State {
    pub blocks: Vec<Blk>,
    /// its chain, as indices into all blocks
    pub chain: Vec<usize>,
    pub faults: Vec<Fault>,
    /// before the n-th intersection is answered: that many blocks left, these added
    pub then: Vec<Option<(u8, Vec<Spec>)>>,
    /// connections closed at once, counted from the second on
    pub refuse: Vec<bool>,
    /// boundary blocks have the number of the block before them
    pub byron: bool,
    pub magic: u64,
    pub connections: usize,
    pub open: usize,
    pub intersections: Vec<Vec<Point>>,
    pub ranges: Vec<(Point, Point)>,
    /// what the client did wrong
    pub complaints: Vec<String>,
    pub streams: Vec<TcpStream>,
    pub ended: bool,
}

impl State {
    /// a block on top of the chain
    pub fn grow(&mut self, s: &Spec) -> usize {
        let parent = self.chain.last().copied();
        // there are never two boundary blocks in a row
        let adjacent = parent.is_some_and(|p| self.blocks[p].kind == 0);
        let s = &Spec { kind: if s.kind == 0 && adjacent { 1 } else { s.kind }, ..s.clone() };
        let rise = (s.kind != 0 || !self.byron) as u64;
        let (number, slot) = match parent {
            // the first block of an epoch is often in the slot of its boundary block
            Some(p) => (self.blocks[p].number + rise, self.blocks[p].slot + s.gap.max(!adjacent as u16) as u64),
            None => (0, s.gap as u64),
        };
        let parent_hash = parent.map(|p| self.blocks[p].hash);
        self.put(s, parent, parent_hash, number, slot)
    }
    pub fn put(&mut self, s: &Spec, parent: Option<usize>, parent_hash: Option<[u8; 32]>, number: u64, slot: u64) -> usize {
        let hash = Self::hash(self.blocks.len());
        self.put_as(hash, s, parent, parent_hash, number, slot)
    }
    fn hash(i: usize) -> [u8; 32] {
        let mut hash = [0u8; 32];
        // no order in them
        let mut x = (i as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15);
        for c in hash.chunks_mut(8) {
            x ^= x >> 29;
            x = x.wrapping_mul(0xbf58476d1ce4e5b9) ^ i as u64;
            c.copy_from_slice(&x.to_le_bytes());
        }
        hash
    }
    pub fn put_as(
        &mut self,
        hash: [u8; 32],
        s: &Spec,
        parent: Option<usize>,
        parent_hash: Option<[u8; 32]>,
        number: u64,
        slot: u64,
    ) -> usize {
        let i = self.blocks.len();
        let epoch = slot / 700 + 3;
        let mut raw = if s.garbled { b"VHB0".to_vec() } else { b"VHB1".to_vec() };
        raw.push(s.kind);
        for n in [number, slot, epoch] {
            raw.extend(n.to_be_bytes());
        }
        raw.push(parent_hash.is_some() as u8);
        raw.extend(parent_hash.unwrap_or([7; 32]));
        raw.extend(hash);
        raw.extend((0..s.extra as usize).map(|k| (k * 31 + i) as u8));
        let height = parent.map_or(0, |p| self.blocks[p].height + 1);
        self.blocks.push(Blk { hash, parent, number, height, slot, epoch, kind: s.kind, garbled: s.garbled, raw });
        self.chain.push(i);
        i
    }
    pub fn fork(&mut self, depth: u8, new: &[Spec]) {
        let keep = self.chain.len().saturating_sub(depth as usize).max(1);
        self.chain.truncate(keep);
        for s in new {
            self.grow(s);
        }
    }
    pub fn on_chain(&self, p: &Point) -> Option<usize> {
        self.chain.iter().position(|i| &self.blocks[*i].point() == p)
    }
    pub fn tip(&self) -> Tip {
        match self.chain.last() {
            Some(i) => Tip { point: self.blocks[*i].point(), block_number: self.blocks[*i].number },
            None => Tip::ORIGIN,
        }
    }
    /// blocks from one to another, whether or not they still are on the chain
    fn range(&self, from: &Point, to: &Point) -> Option<Vec<usize>> {
        let find = |p: &Point| self.blocks.iter().position(|b| &b.point() == p);
        let (from, mut at) = (find(from)?, find(to)?);
        let mut out = vec![at];
        while at != from {
            at = self.blocks[at].parent?;
            out.push(at);
        }
        out.reverse();
        Some(out)
    }
}

pub struct Node {
    pub port: u16,
    pub state: Arc<Mutex<State>>,
    listener: Option<JoinHandle<()>>,
}

impl Node {
    pub fn start(state: State, wire: Wire) -> Node {
        let l = TcpListener::bind("127.0.0.1:0").expect("bind");
        let port = l.local_addr().unwrap().port();
        let state = Arc::new(Mutex::new(state));
        let st = state.clone();
        let listener = std::thread::spawn(move || {
            let mut hs = vec![];
            for s in l.incoming() {
                let mut g = st.lock().unwrap();
                if g.ended {
                    break;
                }
                let Ok(s) = s else { continue };
                let n = g.connections;
                g.connections += 1;
                if n > 0 && g.refuse.get(n - 1) == Some(&true) {
                    let _ = s.shutdown(Shutdown::Both);
                    continue;
                }
                s.set_nodelay(true).unwrap();
                g.streams.push(s.try_clone().unwrap());
                g.open += 1;
                drop(g);
                let (st, wire) = (st.clone(), wire.clone());
                hs.push(std::thread::spawn(move || {
                    let mut c = Conn { s, wire, frame: 0, state: st };
                    let _ = c.serve();
                    let _ = c.s.shutdown(Shutdown::Both);
                    c.state.lock().unwrap().open -= 1;
                }));
            }
            for h in hs {
                let _ = h.join();
            }
        });
        Node { port, state, listener: Some(listener) }
    }
    pub fn state(&self) -> std::sync::MutexGuard<'_, State> {
        self.state.lock().unwrap()
    }
}

impl Drop for Node {
    fn drop(&mut self) {
        {
            let mut g = self.state();
            g.ended = true;
            for s in &g.streams {
                let _ = s.shutdown(Shutdown::Both);
            }
        }
        let _ = TcpStream::connect(("127.0.0.1", self.port));
        let _ = self.listener.take().unwrap().join();
    }
}

struct Conn {
    s: TcpStream,
    wire: Wire,
    frame: usize,
    state: Arc<Mutex<State>>,
}

type End = std::io::Result<()>;

fn closed() -> End {
    Err(std::io::ErrorKind::ConnectionAborted.into())
}

fn bytes(m: &impl cbored::Encode) -> Vec<u8> {
    let mut w = cbored::Writer::new();
    w.encode(m);
    w.finalize()
}

impl Conn {
    fn send(&mut self, id: u16, msg: &[u8]) -> End {
        let mut rest = msg;
        while !rest.is_empty() {
            let n = match self.wire.frames.len() {
                0 => 65535,
                k => self.wire.frames[self.frame % k].max(1) as usize,
            }
            .min(rest.len());
            self.frame += 1;
            let mut out = vec![0, 0, 0, 0];
            out.extend((id | 0x8000).to_be_bytes());
            out.extend((n as u16).to_be_bytes());
            out.extend(&rest[..n]);
            self.s.write_all(&out)?;
            rest = &rest[n..];
            if self.wire.pause.is_some_and(|p| self.frame % p as usize == 0) {
                std::thread::sleep(std::time::Duration::from_micros(300));
            }
        }
        Ok(())
    }
    fn receive(&mut self) -> std::io::Result<(u16, Vec<u8>)> {
        let mut h = [0u8; 8];
        self.quick();
        self.s.read_exact(&mut h)?;
        self.quick();
        let id = u16::from_be_bytes([h[4], h[5]]);
        let mut b = vec![0; u16::from_be_bytes([h[6], h[7]]) as usize];
        self.s.read_exact(&mut b)?;
        Ok((id, b))
    }
    /// the client's half of a request is not held back until an acknowledgement
    fn quick(&self) {
        use std::os::fd::AsRawFd;
        let one: libc::c_int = 1;
        unsafe {
            libc::setsockopt(self.s.as_raw_fd(), libc::IPPROTO_TCP, libc::TCP_QUICKACK, (&raw const one).cast(), 4);
        }
    }
    fn complain<T>(&self, what: String) -> std::io::Result<T> {
        self.state.lock().unwrap().complaints.push(what);
        Err(std::io::ErrorKind::InvalidData.into())
    }
    fn serve(&mut self) -> End {
        let (id, b) = self.receive()?;
        let magic = self.state.lock().unwrap().magic;
        match (id, cbored::Reader::new(&b).decode::<HandshakeNode>()) {
            (0, Ok(HandshakeNode::Propose(p))) => {
                let p = format!("{p:?}");
                let want = format!("Magic({magic})");
                if !p.contains(&want) || !p.contains("V8") {
                    return self.complain(format!("proposed {p}, the network's is {want}"));
                }
            }
            (id, m) => return self.complain(format!("handshake on {id}: {m:?}")),
        }
        // the answer's frame is read as a whole
        let data = HandshakeNodeData {
            magic: cardano_sdk::protocol::Magic(magic),
            diffusion: cardano_sdk::protocol::DiffusionMode::InitiatorOnly,
        };
        let frames = std::mem::take(&mut self.wire.frames);
        self.send(0, &bytes(&HandshakeNode::Accept(Version::V8, data)))?;
        self.wire.frames = frames;
        let mut fault = Fault::None;
        loop {
            let (id, b) = self.receive()?;
            match id {
                2 => match cbored::Reader::new(&b).decode::<ChainSync>() {
                    Ok(ChainSync::FindIntersect(points)) => {
                        let points: Vec<Point> = points.iter().cloned().collect();
                        let (answer, done) = {
                            let mut g = self.state.lock().unwrap();
                            let n = g.intersections.len();
                            fault = g.faults.get(n).copied().unwrap_or(Fault::None);
                            if let Some(Some((depth, new))) = g.then.get(n).cloned() {
                                g.fork(depth, &new);
                            }
                            g.intersections.push(points.clone());
                            let found = points.iter().find(|p| **p == Point::Origin || g.on_chain(p).is_some());
                            let tip = g.tip();
                            match found {
                                Some(p) => {
                                    let done = *p == tip.point;
                                    (ChainSync::IntersectionFound(p.clone(), tip), done)
                                }
                                None => (ChainSync::IntersectionNotFound(tip), true),
                            }
                        };
                        if fault == Fault::CloseOnIntersect {
                            return closed();
                        }
                        self.send(2, &bytes(&answer))?;
                        if done && fault == Fault::CloseThen {
                            return closed();
                        }
                    }
                    m => return self.complain(format!("chain sync: {m:?}")),
                },
                3 => match cbored::Reader::new(&b).decode::<BlockFetch>() {
                    Ok(BlockFetch::RequestRange { from, to }) => {
                        let range: Option<Vec<Vec<u8>>> = {
                            let mut g = self.state.lock().unwrap();
                            g.ranges.push((from.clone(), to.clone()));
                            g.range(&from, &to).map(|r| r.iter().map(|i| g.blocks[*i].raw.clone()).collect())
                        };
                        if fault == Fault::CloseOnRange {
                            return closed();
                        }
                        match range {
                            Some(range) if fault != Fault::NoBlocks => {
                                self.send(3, &bytes(&BlockFetch::StartBatch))?;
                                for (k, raw) in range.iter().enumerate() {
                                    // tag 24 over the bytes
                                    let mut m = vec![0x82, 4, 0xd8, 24, 0x5a];
                                    m.extend((raw.len() as u32).to_be_bytes());
                                    m.extend(raw);
                                    match fault {
                                        Fault::CloseAfter(n, within) if k == n as usize => {
                                            if within {
                                                self.send(3, &m[..m.len() / 2])?;
                                            }
                                            return closed();
                                        }
                                        _ => self.send(3, &m)?,
                                    }
                                }
                                self.send(3, &bytes(&BlockFetch::BatchDone))?;
                            }
                            _ => self.send(3, &bytes(&BlockFetch::NoBlocks))?,
                        }
                        if fault == Fault::CloseThen {
                            return closed();
                        }
                    }
                    m => return self.complain(format!("block fetch: {m:?}")),
                },
                id => return self.complain(format!("a message on channel {id}")),
            }
        }
    }
}
