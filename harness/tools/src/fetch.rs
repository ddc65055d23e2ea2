//! C42: cardano-net-fetcher
use crate::node::*;
use crate::run::{run, tool};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vhrun::{check, check_eq, Check, Cx, Res, Tier};

pub struct Net {
    name: &'static str,
    magic: u64,
    /// slot and hash: the genesis block, what its parent is called, the first block of the known era
    genesis: (u64, &'static str),
    parent: &'static str,
    start: (u64, &'static str),
    first_slot: u64,
}

/// from the networks' genesis files and explorers
pub const NETS: [Net; 4] = [
    Net {
        name: "mainnet",
        magic: 764824073,
        genesis: (0, "89d9b5a5b8ddc8d7e5a6795e9774d97faf1efea59b2caf7eaf9f8c5b32059df4"),
        parent: "5f20df933584822601f9e3f8c024eb5eb252fe8cefb24d1317dc3d432e940ebb",
        start: (4492800, "aa83acbf5904c0edfe4d79b3689d3d00fcfc553cf360fd2229b98d464c28e9de"),
        first_slot: 4492800,
    },
    Net {
        name: "preprod",
        magic: 1,
        genesis: (0, "9ad7ff320c9cf74e0f5ee78d22a85ce42bb0a487d0506bf60cfb5a91ea4497d2"),
        parent: "d4b8de7a11d929a323373cbab6c1a9bdc931beffff11db111cf9d57356ee1937",
        start: (86400, "c4a1595c5cc7a31eda9e544986fe9387af4e3491afe0ca9a80714f01951bbd5c"),
        first_slot: 86400,
    },
    Net {
        name: "preview",
        magic: 2,
        genesis: (0, "268ae601af8f9214804735910a3301881fbe0eec9936db7d1fb9fc39e93d1e37"),
        parent: "72593f260b66f26bef4fc50b38a8f24d3d3633ad2e854eaf73039eb9402706f1",
        start: (25400, "8542d7f0b744f40f3de6164294b5feb0095307d46c7290acc8a5d9bd802acb8e"),
        first_slot: 0,
    },
    Net {
        name: "sancho",
        magic: 4,
        genesis: (20, "6a7d97aae2a65ca790fd14802808b7fce00a3362bd7b21c4ed4ccb4296783b98"),
        parent: "785eb88427e136378a15b0a152a8bfbeec7a611529ccda29c43a1e60ffb48eaa",
        start: (20, "6a7d97aae2a65ca790fd14802808b7fce00a3362bd7b21c4ed4ccb4296783b98"),
        first_slot: 0,
    },
];

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Since {
    Nothing,
    Block(usize),
    Tip,
    GenesisParent,
    /// that block's slot or hash with another of it
    Off(usize, bool),
    Malformed(String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    net: u8,
    wrong_net: Option<String>,
    since: Since,
    wire: Wire,
    /// before and after the known start
    early: Vec<Spec>,
    late: Vec<Spec>,
    then: Vec<Option<(u8, Vec<Spec>)>>,
    faults: Vec<Fault>,
    refuse: Vec<bool>,
}

fn hash(s: &str) -> [u8; 32] {
    hex::decode(s).unwrap().try_into().unwrap()
}

fn fault() -> impl Strategy<Value = Fault> {
    prop_oneof![
        30 => Just(Fault::None),
        1 => Just(Fault::CloseOnIntersect),
        1 => Just(Fault::CloseOnRange),
        1 => Just(Fault::NoBlocks),
        2 => (0u16..8, any::<bool>()).prop_map(|(n, w)| Fault::CloseAfter(n, w)),
        2 => Just(Fault::CloseThen),
    ]
}

pub struct C42;
impl Check for C42 {
    type Case = Case;
    const ID: &'static str = "C42";
    const RULE: &'static str = "A case is one of the known networks, a chain over its genesis block and known start (any kinds, slots and sizes of blocks, now and then one that cannot be read), growth and forks of it before any of the fetcher's requests, how the node cuts and breaks off its answers, and the point asked for; cardano-net-fetcher is run against that node, and the lines it prints and its exit are compared with the node's chain. Non-trivial: at least one block is to be printed.";
    const ASSUMPTIONS: &'static [&'static str] = &["blocks are in the format of the stand-in for cml-multi-era"];
    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        let most = t.pick(25, 120);
        (
            0u8..4,
            prop::option::weighted(0.03, prop_oneof![Just("testnet"), Just("Mainnet"), Just(""), Just("main")].prop_map(String::from)),
            prop_oneof![
                4 => Just(Since::Nothing),
                8 => any::<usize>().prop_map(Since::Block),
                1 => Just(Since::Tip),
                2 => Just(Since::GenesisParent),
                1 => (any::<usize>(), any::<bool>()).prop_map(|(i, h)| Since::Off(i, h)),
                1 => prop_oneof![Just(""), Just("7"), Just("a,00"), Just("-1,00"), Just("1.0,00"), Just(" 1,00"), Just("18446744073709551616,00"), Just("5,zz"), Just("5,00"), Just("5,")].prop_map(|s| Since::Malformed(s.into())),
            ],
            wire(),
            prop::collection::vec(spec(0..2, true), 0..6),
            prop_oneof![60 => prop::collection::vec(spec(0..8, true), 0..most), 1 => prop::collection::vec(spec(0..8, true), 100..400)],
            prop::collection::vec(prop::option::weighted(0.4, (0u8..4, prop::collection::vec(spec(2..8, true), 0..5))), 0..5),
            prop::collection::vec(fault(), 0..4),
            prop::collection::vec(prop::bool::weighted(0.3), 0..3),
        )
            .prop_map(|(net, wrong_net, since, wire, early, late, then, faults, refuse)| Case {
                net, wrong_net, since, wire, early, late, then, faults, refuse,
            })
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(4000, 60_000)
    }
    fn run(c: &Case, cx: &mut Cx) -> Res {
        let net = &NETS[c.net as usize % 4];
        let mut st = State { faults: c.faults.clone(), then: c.then.clone(), refuse: c.refuse.clone(), magic: net.magic, byron: true, ..State::default() };
        let plain = |kind: u8, extra: u16| Spec { gap: 1, kind, extra, garbled: false };
        st.put_as(hash(net.genesis.1), &plain(1, 9), None, Some(hash(net.parent)), 0, net.genesis.0);
        if net.start != net.genesis {
            for s in &c.early {
                // all before the start
                st.grow(&Spec { gap: s.gap % 2000, ..s.clone() });
            }
            let parent = *st.chain.last().unwrap();
            let b = &st.blocks[parent];
            let (number, up) = (b.number + 1, b.hash);
            st.put_as(hash(net.start.1), &plain(3, 5), Some(parent), Some(up), number, net.start.0);
        }
        for s in &c.late {
            st.grow(s);
        }
        let known = st.chain.clone();
        let text = |slot: u64, h: &[u8; 32]| format!("{slot},{}", hex::encode(h));
        let of = |i: usize| {
            let b = &st.blocks[i];
            (b.slot, b.hash)
        };
        let at = |i: &usize| of(known[i % known.len()]);
        let since = match &c.since {
            Since::Nothing => None,
            Since::Block(i) => Some(text(at(i).0, &at(i).1)),
            Since::Tip => {
                let (s, h) = of(*known.last().unwrap());
                Some(text(s, &h))
            }
            Since::GenesisParent => Some(text(0, &hash(net.parent))),
            Since::Off(i, false) => Some(text(at(i).0 + 1, &at(i).1)),
            Since::Off(i, true) => {
                let mut h = at(i).1;
                h[31] ^= 1;
                Some(text(at(i).0, &h))
            }
            Since::Malformed(s) => Some(s.clone()),
        };
        let first_blocks = st.blocks.clone();
        let start: Option<(u64, [u8; 32])> = match &c.since {
            Since::Nothing => Some((net.start.0, hash(net.start.1))),
            Since::Block(i) => Some(at(i)),
            Since::Tip => Some(of(*known.last().unwrap())),
            Since::GenesisParent => Some((net.genesis.0, hash(net.genesis.1))),
            Since::Off(..) | Since::Malformed(_) => None,
        };
        let mut may_fail = false;
        let node = Node::start(st, c.wire.clone());
        let mut cmd = tool("cardano-net-fetcher");
        let name = c.wrong_net.as_deref().unwrap_or(net.name);
        // the main network need not be named
        if name != "mainnet" || c.net >= 4 || c.late.len() % 2 == 0 {
            cmd.args([format!("--network={name}")]);
        }
        if let Some(s) = &since {
            cmd.arg(format!("--since={s}"));
        }
        cmd.args(["--relay-host", "127.0.0.1", "--relay-port", &node.port.to_string()]);
        let got = run(cmd)?;
        let g = node.state();
        check!(g.complaints.is_empty(), "the node was asked wrongly: {:?}", g.complaints);
        // what must be printed, request by request
        let mut model = State { blocks: first_blocks, chain: known.clone(), byron: true, ..State::default() };
        let mut want: Vec<String> = vec![];
        // lines that may follow
        let mut perhaps: Vec<String> = vec![];
        let mut fails = false;
        let mut from = start;
        let mut inclusive = matches!(c.since, Since::GenesisParent);
        let mut told_tip = false;
        let mut n = 0;
        let mut connections = 1;
        let mut dead = false;
        'requests: while let Some(p) = from {
            if dead {
                dead = false;
                connections += 1;
                if c.refuse.get(connections - 2) == Some(&true) {
                    cx.label("refused");
                    break;
                }
            }
            let fault = c.faults.get(n).copied().unwrap_or(Fault::None);
            if let Some(Some((depth, new))) = c.then.get(n) {
                if *depth > 0 {
                    cx.label("a fork");
                }
                model.fork(*depth, new);
            }
            n += 1;
            if fault != Fault::None {
                cx.label(format!("{fault:?}").split('(').next().unwrap().to_string());
            }
            let found = model.chain.iter().position(|i| (model.blocks[*i].slot, model.blocks[*i].hash) == p);
            // a request that brings nothing is the end
            let Some(k) = found.filter(|_| fault != Fault::CloseOnIntersect) else {
                cx.label(if found.is_none() { "left by a fork" } else { "broken off" });
                break;
            };
            if k + 1 == model.chain.len() {
                break;
            }
            let something = !told_tip;
            told_tip = true;
            if matches!(fault, Fault::CloseOnRange | Fault::NoBlocks) {
                dead = fault == Fault::CloseOnRange;
                if something {
                    continue;
                }
                break;
            }
            let batch = model.chain[k..].to_vec();
            let whole = !matches!(fault, Fault::CloseAfter(m, _) if (m as usize) < batch.len());
            let mut lines = vec![];
            for (j, i) in batch.iter().enumerate() {
                if matches!(fault, Fault::CloseAfter(m, _) if m as usize <= j) {
                    break;
                }
                if j == 0 && !inclusive {
                    continue;
                }
                let b = &model.blocks[*i];
                if b.garbled || (b.kind >= 2 && b.slot < net.first_slot) {
                    cx.label("a block that cannot be read");
                    if whole {
                        fails = true;
                        want.extend(lines.into_iter().map(|(l, _)| l));
                        break 'requests;
                    }
                    may_fail = true;
                    break;
                }
                let line = format!("Block #{}, point: {}@{}, raw cbor hex: {}", b.number, b.hex(), b.slot, hex::encode(&b.raw));
                lines.push((line, (b.slot, b.hash)));
            }
            inclusive &= lines.is_empty();
            if whole {
                if let Some((_, p)) = lines.last() {
                    from = Some(*p);
                }
                want.extend(lines.into_iter().map(|(l, _)| l));
                // noticed with the next request, which brings nothing
                if fault == Fault::CloseThen {
                    break;
                }
                continue;
            }
            // how far it came is in the next request
            dead = true;
            let next = g.intersections.get(n).and_then(|p| p.first()).cloned();
            let resumed = lines.iter().position(|(_, (slot, h))| Some(&point(*slot, h)) == next.as_ref());
            match resumed {
                Some(r) => {
                    from = Some(lines[r].1);
                    want.extend(lines.into_iter().take(r + 1).map(|(l, _)| l));
                }
                None if next.is_some() && something => {}
                None => {
                    perhaps = lines.into_iter().map(|(l, _)| l).collect();
                    break;
                }
            }
        }
        if c.wrong_net.is_some() {
            want.clear();
            perhaps.clear();
        }
        let lines: Vec<&str> = got.out.lines().collect();
        for (i, l) in lines.iter().enumerate() {
            let w = want.get(i).or_else(|| perhaps.get(i.wrapping_sub(want.len())));
            check!(w.map(|w| w.as_str()) == Some(l), "line {i} of {} is {}, expected {}", lines.len(), cut(l), w.map_or("none".into(), |w| cut(w)));
        }
        check!(lines.len() >= want.len(), "{} lines for {} blocks", lines.len(), want.len());
        if c.wrong_net.is_some() {
            check!(!got.status.success(), "a network {name:?} was taken");
            check_eq!(g.connections, 0, "connections for the network {name:?}");
            return Ok(());
        }
        if fails {
            check!(!got.status.success(), "success with a block that cannot be read");
        } else if !may_fail && !matches!(c.since, Since::Malformed(_)) {
            check!(got.status.success(), "exit {}: {}", got.status, got.err);
        }
        if !matches!(c.since, Since::Malformed(_)) {
            check!(!g.intersections.is_empty(), "the node was not asked");
        }
        cx.nontrivial_if(!want.is_empty());
        Ok(())
    }
}

fn point(slot: u64, h: &[u8; 32]) -> cardano_sdk::protocol::Point {
    cardano_sdk::protocol::Point::BlockHeader { slot_nb: slot, hash: cardano_sdk::chain::HeaderHash(*h) }
}

fn cut(s: &str) -> String {
    if s.len() > 220 {
        format!("{}... ({} characters)", &s[..220], s.len())
    } else {
        s.into()
    }
}
