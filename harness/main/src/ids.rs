//! C33: identifiers
use dcspark_core::tx::{TransactionId, UtxoPointer};
use dcspark_core::{Address, AssetName, BlockId, OutputIndex, PolicyId, TokenId};
use deps::serde_json;
use proptest::prelude::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::{Debug, Display};
use std::hash::{BuildHasher, Hash};
use vhrun::{check, check_eq, Check, Cx, OrFail, Res, Tier};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ids {
    texts: Vec<String>,
    prefix: String,
    junk: serde_json::Value,
    index: u64,
}

fn text() -> impl Strategy<Value = String> {
    prop_oneof![
        3 => "[0-9a-f]{0,64}",
        1 => "0{56,64}",
        1 => "[0-9a-fA-F]{64}",
        1 => "addr1[0-9a-z]{0,60}",
        2 => "\\PC{0,10}",
        1 => "[\"\\\\\\n\\t/<>\\x00-\\x1f]{1,4}",
        1 => "[ ab\u{e9}\u{1f600}]{0,3}",
        1 => prop_oneof![Just("N/A".to_string()), Just("414441".to_string()), Just(String::new())],
    ]
}

trait Id: Clone + Debug + Display + Ord + Hash + AsRef<str> + Serialize + DeserializeOwned {
    const NAME: &'static str;
    fn make(s: String) -> Self;
    fn fixed(s: &'static str) -> Self;
    /// the other ways to look at it
    fn more(&self, _text: &str, _prefix: &str) -> Res {
        Ok(())
    }
}

macro_rules! id {
    ($t:ty, $n:expr, |$x:ident, $s:ident, $p:ident| $more:block) => {
        impl Id for $t {
            const NAME: &'static str = $n;
            fn make(s: String) -> Self {
                <$t>::new(s)
            }
            fn fixed(s: &'static str) -> Self {
                <$t>::new_static(s)
            }
            fn more(&self, $s: &str, $p: &str) -> Res {
                let $x = self;
                $more
            }
        }
    };
}

id!(Address, "address", |x, s, p| {
    check_eq!(x.starts_with(p), s.starts_with(p), "address {s:?} starts with {p:?}");
    let inner: &str = x;
    check_eq!(inner, s, "address as str");
    check_eq!(s.parse::<Address>().ok(), Some(x.clone()), "address parsed");
    Ok(())
});
id!(BlockId, "block identifier", |x, s, p| {
    check_eq!(x.starts_with(p), s.starts_with(p), "block identifier {s:?} starts with {p:?}");
    check_eq!(AsRef::<[u8]>::as_ref(x), s.as_bytes(), "block identifier as bytes");
    Ok(())
});
id!(TransactionId, "transaction identifier", |x, s, p| {
    check_eq!(x.starts_with(p), s.starts_with(p), "transaction identifier {s:?} starts with {p:?}");
    check_eq!(AsRef::<[u8]>::as_ref(x), s.as_bytes(), "transaction identifier as bytes");
    check_eq!(*x == TransactionId::ZERO, s == "N/A", "absent transaction");
    Ok(())
});
id!(TokenId, "token identifier", |x, s, _p| {
    check_eq!(s.parse::<TokenId>().ok(), Some(x.clone()), "token identifier parsed");
    check_eq!(*x == TokenId::MAIN, s == "0".repeat(64), "main token");
    check_eq!(TokenId::default(), TokenId::MAIN, "default token");
    Ok(())
});
id!(PolicyId, "policy", |_x, _s, _p| { Ok(()) });
id!(AssetName, "asset name", |x, s, _p| {
    check_eq!(*x == AssetName::MAIN, s == "414441", "name of the main asset");
    Ok(())
});

fn one<T: Id>(c: &Ids, leaked: &[&'static str]) -> Res {
    let n = T::NAME;
    let ids: Vec<T> = c.texts.iter().map(|t| T::make(t.clone())).collect();
    let fixed: Vec<T> = leaked.iter().map(|t| T::fixed(t)).collect();
    let hash = std::collections::hash_map::RandomState::new();
    for (i, (x, t)) in ids.iter().zip(&c.texts).enumerate() {
        check_eq!(AsRef::<str>::as_ref(x), t.as_str(), "{n} as str");
        check_eq!(x.to_string(), *t, "{n} shown");
        x.more(t, &c.prefix)?;
        if let Some((k, _)) = t.char_indices().nth(c.prefix.len() % 7) {
            x.more(t, &t[..k])?;
        }
        // JSON: the text
        let j = serde_json::to_value(x).or_fail("to JSON")?;
        check_eq!(j, serde_json::Value::from(t.clone()), "{n} in JSON");
        let line = serde_json::to_string(x).or_fail("to JSON")?;
        check_eq!(line, serde_json::to_string(t).or_fail("to JSON")?, "{n} in JSON");
        check_eq!(serde_json::from_value::<T>(j).or_fail("from JSON")?, *x, "{n} from JSON");
        check_eq!(serde_json::from_str::<T>(&line).or_fail("from JSON")?, *x, "{n} from JSON");
        check_eq!(serde_json::from_slice::<T>(line.as_bytes()).or_fail("from JSON")?, *x, "{n} from JSON");
        // a borrowed text is the same as an owned one
        check!(fixed[i] == *x && x.cmp(&fixed[i]).is_eq(), "{n} {t:?} borrowed and owned differ");
        check_eq!(hash.hash_one(&fixed[i]), hash.hash_one(x), "hash of {n} {t:?} borrowed and owned");
        for (y, u) in ids.iter().zip(&c.texts) {
            check_eq!(x == y, t == u, "{n} {t:?} == {u:?}");
            check_eq!(x.cmp(y), t.cmp(u), "order of {n} {t:?} and {u:?}");
            check_eq!(x.partial_cmp(y), Some(t.cmp(u)), "order of {n} {t:?} and {u:?}");
            if x == y {
                check_eq!(hash.hash_one(y), hash.hash_one(x), "hash of {n} {t:?}");
            }
        }
    }
    let mut sorted = fixed.clone();
    sorted.sort();
    let mut texts = c.texts.clone();
    texts.sort();
    check_eq!(sorted.iter().map(|x| x.to_string()).collect::<Vec<_>>(), texts, "{n}s sorted");
    // as keys, in memory and in JSON
    let map: BTreeMap<T, usize> = ids.iter().cloned().enumerate().map(|(i, x)| (x, i)).collect();
    let want: BTreeMap<&String, usize> = c.texts.iter().enumerate().map(|(i, x)| (x, i)).collect();
    let j = serde_json::to_value(&map).or_fail("map to JSON")?;
    check_eq!(j, serde_json::to_value(&want).or_fail("map to JSON")?, "{n}s as keys in JSON");
    check_eq!(serde_json::from_value::<BTreeMap<T, usize>>(j).or_fail("map from JSON")?, map, "{n}s as keys from JSON");
    let hashed: HashMap<T, usize> = fixed.iter().cloned().enumerate().map(|(i, x)| (x, i)).collect();
    for x in &ids {
        check_eq!(hashed.get(x), map.get(x), "look-up of {n} {x:?}");
    }
    // nothing but a text is one
    if !c.junk.is_string() {
        check!(serde_json::from_value::<T>(c.junk.clone()).is_err(), "{} is read as {n}", c.junk);
    }
    Ok(())
}

pub struct C33;
impl Check for C33 {
    type Case = Ids;
    const ID: &'static str = "C33";
    const RULE: &'static str = "A case is up to five texts (hexadecimal, addresses, any characters, the reserved ones), a prefix and a JSON value. Each kind of identifier made from them (owned and borrowed) is compared with the texts: shown, as JSON, as bytes, equality, order, hash, as keys of maps, prefixes; pointers to outputs by their parts. Non-trivial: two of the texts differ, or two are equal.";
    fn strategy(_: Tier) -> BoxedStrategy<Ids> {
        (
            prop::collection::vec(text(), 1..5),
            any::<bool>(),
            prop_oneof![text(), "[0-9a]{0,2}"],
            prop_oneof![
                Just(serde_json::Value::Null),
                any::<u64>().prop_map(serde_json::Value::from),
                any::<bool>().prop_map(serde_json::Value::from),
                prop::collection::vec(text(), 0..3).prop_map(serde_json::Value::from),
                text().prop_map(|t| serde_json::json!({ "id": t })),
                prop::collection::vec(any::<u8>(), 0..8).prop_map(serde_json::Value::from),
            ],
            prop_oneof![0u64..12, any::<u64>()],
        )
            .prop_map(|(mut texts, again, prefix, junk, index)| {
                if again {
                    let t = texts[0].clone();
                    texts.push(t);
                }
                Ids { texts, prefix, junk, index }
            })
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(300_000, 4_000_000)
    }
    fn run(c: &Ids, cx: &mut Cx) -> Res {
        cx.nontrivial_if(c.texts.len() > 1);
        let boxes: Vec<*mut str> = c.texts.iter().map(|t| Box::into_raw(t.clone().into_boxed_str())).collect();
        // borrowed for as long as the identifiers made from them here
        let leaked: Vec<&'static str> = boxes.iter().map(|b| unsafe { &**b }).collect();
        let r = (|| {
            one::<Address>(c, &leaked)?;
            one::<BlockId>(c, &leaked)?;
            one::<TransactionId>(c, &leaked)?;
            one::<TokenId>(c, &leaked)?;
            one::<PolicyId>(c, &leaked)?;
            one::<AssetName>(c, &leaked)
        })();
        for b in boxes {
            drop(unsafe { Box::from_raw(b) });
        }
        r?;
        // pointers to outputs
        let all: Vec<(String, u64, UtxoPointer)> = c
            .texts
            .iter()
            .flat_map(|t| [c.index, c.index.wrapping_add(1)].map(|i| (t.clone(), i)))
            .map(|(t, i)| {
                let p = UtxoPointer { transaction_id: TransactionId::new(t.clone()), output_index: OutputIndex::new(i) };
                (t, i, p)
            })
            .collect();
        let set: HashSet<UtxoPointer> = all.iter().map(|a| a.2.clone()).collect();
        let want: HashSet<(&String, u64)> = all.iter().map(|a| (&a.0, a.1)).collect();
        check_eq!(set.len(), want.len(), "distinct pointers");
        for (t, i, p) in &all {
            check_eq!(p.to_string(), format!("{t}@{i}"), "pointer shown");
            let j = serde_json::to_value(p).or_fail("to JSON")?;
            check_eq!(j, serde_json::json!({"transactionId": t, "outputIndex": i}), "pointer in JSON");
            check_eq!(serde_json::from_value::<UtxoPointer>(j).or_fail("from JSON")?, *p, "pointer from JSON");
            for (u, k, q) in &all {
                check_eq!(p == q, (t, i) == (u, k), "pointers {p} and {q}");
            }
        }
        Ok(())
    }
}
