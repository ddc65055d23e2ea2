//! C22-C24: time, points and the one-shot source of blockchain-source
use dcspark_blockchain_source::cardano::time::{epoch_slot_to_absolute_byron, Era};
use dcspark_blockchain_source::cardano::Point;
use dcspark_blockchain_source::{EventObject, Source};
use dcspark_core::{BlockId, SlotNumber};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vhrun::{check, check_eq, Check, Cx, OrFail, Res, Tier};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Time {
    /// one of the known eras
    known: Option<u8>,
    first_slot: u64,
    start_epoch: u64,
    known_time: u64,
    slot_length: u64,
    slots_per_epoch: u64,
    epochs: u64,
    within: u64,
    before: u64,
}

pub struct C22;
impl Check for C22 {
    type Case = Time;
    const ID: &'static str = "C22";
    const RULE: &'static str = "A case is an era (one of the five known ones, or any first slot, epoch, time, slot length from 1 to 60 s and epoch length) and a slot given as epoch and place within it, at and around the boundaries; epoch, place, time stamp and Byron slot numbers are compared with exact arithmetic. Non-trivial: the slot is beyond the first epoch.";
    const ASSUMPTIONS: &'static [&'static str] = &["the epoch length is a multiple of the slot length; no number exceeds 64 bits; a time stamp is only asked for slots of the era"];
    fn strategy(_: Tier) -> BoxedStrategy<Time> {
        let big = || prop_oneof![2 => Just(0u64), 4 => 1u64..5_000_000, 1 => 1u64..(1 << 40)];
        (
            prop::option::weighted(0.5, 0u8..5),
            big(),
            0u64..100_000,
            big(),
            prop_oneof![3 => Just(1u64), 1 => Just(20u64), 2 => 1u64..=60],
            prop_oneof![2 => Just(432_000u64), 1 => Just(86_400u64), 1 => Just(21_600u64), 3 => 1u64..500, 1 => 1u64..1_000_000],
            prop_oneof![2 => 0u64..3, 2 => 0u64..2000, 1 => 0u64..(1 << 20)],
            prop_oneof![2 => Just(0u64), 2 => Just(u64::MAX), 3 => any::<u64>()],
            prop_oneof![1 => Just(0u64), 1 => any::<u64>()],
        )
            .prop_map(
                |(known, first_slot, start_epoch, known_time, slot_length, slots_per_epoch, epochs, within, before)| Time {
                    known,
                    first_slot,
                    start_epoch,
                    known_time,
                    slot_length,
                    slots_per_epoch,
                    epochs,
                    within,
                    before,
                },
            )
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(3_000_000, 40_000_000)
    }
    fn run(c: &Time, cx: &mut Cx) -> Res {
        // first slot, epoch, time, slot length, epoch length, from the networks' genesis files
        let (era, e) = match c.known {
            Some(k) => {
                let (era, e) = match k {
                    0 => (Era::SHELLEY_MAINNET, (4492800, 208, 1596059091, 1, 432000)),
                    1 => (Era::SHELLEY_TESTNET, (1598400, 74, 1595967616, 1, 432000)),
                    2 => (Era::SHELLEY_PREPROD, (86400, 4, 1655769600, 1, 432000)),
                    3 => (Era::SHELLEY_PREVIEW, (0, 0, 1666656000, 1, 86400)),
                    _ => (Era::SHELLEY_SANCHO, (0, 0, 1686789000, 1, 86400)),
                };
                cx.label("known era");
                (era, e)
            }
            None => {
                let e = (c.first_slot, c.start_epoch, c.known_time, c.slot_length, c.slots_per_epoch * c.slot_length);
                let era: Era = serde_json::from_value(serde_json::json!({
                    "first_slot": e.0, "start_epoch": e.1, "known_time": e.2, "slot_length": e.3,
                    "epoch_length_seconds": e.4,
                }))
                .or_fail("era from JSON")?;
                (era, e)
            }
        };
        let (first, epoch0, time0, len, epoch_len) = e;
        let spe = epoch_len / len;
        let within = c.within % spe;
        let slot = first + c.epochs * spe + within;
        check_eq!(era.absolute_slot_to_epoch(slot), Some(epoch0 + c.epochs), "{era:?}: epoch of slot {slot}");
        check_eq!(era.absolute_slot_to_relative(slot), Some(within), "{era:?}: place of slot {slot}");
        check_eq!(era.compute_timestamp(slot), time0 + (slot - first) * len, "{era:?}: time of slot {slot}");
        check_eq!(era.compute_timestamp(first), time0, "{era:?}: time of the first slot");
        check_eq!(
            era.compute_timestamp(first + (c.epochs + 1) * spe) - era.compute_timestamp(first + c.epochs * spe),
            epoch_len,
            "{era:?}: length of epoch {}",
            epoch0 + c.epochs
        );
        if first > 0 {
            let s = first - 1 - c.before % first;
            check_eq!(era.absolute_slot_to_epoch(s), None, "{era:?}: epoch of {s}, before the era");
            check_eq!(era.absolute_slot_to_relative(s), None, "{era:?}: place of {s}, before the era");
        }
        let byron = c.within % 21_600;
        check_eq!(epoch_slot_to_absolute_byron(c.epochs, byron), c.epochs * 21_600 + byron, "Byron slot");
        cx.nontrivial_if(c.epochs > 0);
        Ok(())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Pt {
    Origin,
    Hash { slot: u64, hash: [u8; 32], other: u8, other_slot: u64 },
    Text { slot: u64, text: String },
}

pub struct C23;
impl Check for C23 {
    type Case = Pt;
    const ID: &'static str = "C23";
    const RULE: &'static str = "A case is the origin, a point with any slot (0 and the largest among them) and 32-byte hash, or a point whose block identifier is not 64 hexadecimal digits. Valid points must reach the protocol's type with the same slot and hash and come back equal, different ones staying different, and survive JSON; others must be refused. Non-trivial: a valid point other than the origin.";
    fn strategy(_: Tier) -> BoxedStrategy<Pt> {
        let slot = || prop_oneof![2 => Just(0u64), 1 => Just(u64::MAX), 4 => any::<u64>(), 2 => 0u64..100];
        let hash = prop_oneof![1 => Just([0u8; 32]), 1 => Just([255u8; 32]), 8 => any::<[u8; 32]>()];
        prop_oneof![
            1 => Just(Pt::Origin),
            12 => (slot(), hash, 0u8..32, slot()).prop_map(|(slot, hash, other, other_slot)| Pt::Hash { slot, hash, other, other_slot }),
            4 => (slot(), prop_oneof![
                Just(String::new()),
                "[0-9a-f]{62,63}",
                "[0-9a-f]{65,70}",
                "0x[0-9a-f]{64}",
                "0x[0-9a-f]{62}",
                "[0-9a-f]{63}[g-z]",
                "[0-9a-f]{62}é",
                "[0-9a-f]{32}",
                any::<String>(),
            ]).prop_map(|(slot, text)| Pt::Text { slot, text }),
        ]
        .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(2_000_000, 20_000_000)
    }
    fn run(c: &Pt, cx: &mut Cx) -> Res {
        use cardano_sdk::protocol::Point as P;
        let json = |p: &Point| -> Res {
            let t = serde_json::to_string(p).or_fail("to JSON")?;
            check_eq!(&serde_json::from_str::<Point>(&t).or_fail("from JSON")?, p, "JSON {t}");
            Ok(())
        };
        match c {
            Pt::Origin => {
                let p = P::try_from(Point::Origin).or_fail("origin")?;
                check!(p == P::ORIGIN, "the origin became {p:?}");
                check_eq!(Point::from(p), Point::Origin, "origin, back");
                json(&Point::Origin)
            }
            Pt::Hash { slot, hash, other, other_slot } => {
                cx.nontrivial();
                let make = |slot: u64, hash: [u8; 32]| Point::BlockHeader {
                    slot_nb: SlotNumber::new(slot),
                    hash: BlockId::new(hex::encode(hash)),
                };
                let p = make(*slot, *hash);
                let q = P::try_from(p.clone()).or_fail("valid point")?;
                check_eq!(q.slot_nb(), *slot, "slot of {p:?}");
                check_eq!(q.hash().to_string(), hex::encode(hash), "hash of {p:?}");
                check!(q != P::ORIGIN, "{p:?} became the origin");
                check_eq!(Point::from(q.clone()), p, "back");
                json(&p)?;
                let mut h = *hash;
                h[*other as usize] ^= 1;
                for r in [make(*slot, h), make(*other_slot, *hash)] {
                    let s = P::try_from(r.clone()).or_fail("valid point")?;
                    check_eq!(s == q, r == p, "{r:?} against {p:?}: equal to each other");
                }
                Ok(())
            }
            Pt::Text { slot, text } => {
                let p = Point::BlockHeader { slot_nb: SlotNumber::new(*slot), hash: BlockId::new(text.clone()) };
                json(&p)?;
                let got = P::try_from(p);
                let valid = text.len() == 64 && text.bytes().all(|b| b.is_ascii_hexdigit());
                check_eq!(got.is_ok(), valid, "{text:?} as a block identifier: accepted");
                Ok(())
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Once(u64, bool);
impl EventObject for Once {
    fn is_blockchain_tip(&self) -> bool {
        self.1
    }
}

pub struct C24;
impl Check for C24 {
    type Case = (Vec<(Option<Once>, u8)>,);
    const ID: &'static str = "C24";
    const RULE: &'static str = "A case is a history of events put into an optional source and of pulls; each event must be handed out once, unchanged, and nothing else. Non-trivial: an event was put in and pulled for twice.";
    fn strategy(_: Tier) -> BoxedStrategy<Self::Case> {
        let ev = prop::option::weighted(0.8, (any::<u64>(), any::<bool>()).prop_map(|(a, b)| Once(a, b)));
        (prop::collection::vec((ev, 0u8..4), 1..12),).boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(1_000_000, 10_000_000)
    }
    fn run(c: &Self::Case, cx: &mut Cx) -> Res {
        let rt = tokio::runtime::Builder::new_current_thread().build().expect("runtime");
        let mut src: Option<Once> = None;
        let mut want: Option<Once> = None;
        for (put, pulls) in &c.0 {
            if let Some(e) = put {
                src = Some(e.clone());
                want = Some(e.clone());
            }
            for _ in 0..*pulls {
                let got = rt.block_on(src.pull(&())).or_fail("pull")?;
                check_eq!(got, want.take(), "event");
            }
            cx.nontrivial_if(put.is_some() && *pulls > 1);
        }
        Ok(())
    }
}
