//! C01-C04: amounts
use crate::dec::*;
use dcspark_core::{algo, cardano, evm, Balance, Normalized, Regulated, Rule, TokenId, Value};
use deps::bigdecimal::num_bigint::BigInt;
use deps::bigdecimal::ToPrimitive;
use deps::serde_json;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use vhrun::{check, check_eq, Check, Cx, Fail, OrFail, Res, Tier};

fn same<R>(v: &Value<R>, d: &Dec, what: &str) -> Res {
    check!(
        Dec::of(v.raw()).same(d),
        "{what}: got {}, expected {} * 10^{}",
        v.raw(),
        d.m,
        -d.s
    );
    Ok(())
}

// ---------------------------------------------------------------------------------------------
pub struct C01;

/// the unit an amount says it is in
fn unit<R>(_: &Value<R>) -> &'static str {
    std::any::type_name::<R>()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Conv {
    a: Rep,
    b: Rep,
    main: i64,
    side: i64,
}

impl Check for C01 {
    type Case = Conv;
    const ID: &'static str = "C01";
    const RULE: &'static str = "A case is two non-negative amounts (up to 60 digits, scales -25..=30, trailing zeros, u64/u128 boundaries) and a precision rule (0..=30 decimals each side); every unit pair and both regulated paths are converted and compared with exact integer arithmetic. Non-trivial: both amounts non-zero and at least one with decimals or trailing zeros.";

    fn strategy(_: Tier) -> BoxedStrategy<Conv> {
        (rep(-25, 30), rep(-25, 30), 0i64..=30, 0i64..=30)
            .prop_map(|(a, b, main, side)| Conv { a, b, main, side })
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(1_500_000, 8_000_000)
    }

    fn run(c: &Conv, cx: &mut Cx) -> Res {
        let (da, db) = (c.a.dec(), c.b.dec());
        cx.nontrivial_if(
            !da.is_zero() && !db.is_zero() && (c.a.s != 0 || c.b.s != 0 || c.a.m.ends_with('0')),
        );
        if da.decimals() > 0 {
            cx.label("fractional");
        }
        if da.m.to_string().len() as i64 - c.a.s > 20 {
            cx.label("larger than u64");
        }

        macro_rules! pair {
            ($big:ty, $small:ty, $k:expr, $down:ident, $up:ident, $n:literal) => {{
                let big: Value<$big> = c.a.value();
                let small: Value<$small> = c.a.value();
                // to the smaller unit and back
                let s = big.$down();
                same(&s, &da.shift($k), concat!($n, " to the smaller unit"))?;
                same(&s.$up(), &da, concat!($n, " there and back"))?;
                let b = small.$up();
                same(&b, &da.shift(-$k), concat!($n, " to the larger unit"))?;
                check_eq!(unit(&s), std::any::type_name::<$small>(), concat!("unit of ", $n, " in the smaller one"));
                check_eq!(unit(&b), std::any::type_name::<$big>(), concat!("unit of ", $n, " in the larger one"));
                // by way of the normalized form
                let n1 = big.normalize();
                same(&n1, &da, concat!($n, " normalized (large)"))?;
                let n2 = small.normalize();
                same(&n2, &da.shift(-$k), concat!($n, " normalized (small)"))?;
                same(&Value::<$big>::from_normalized(&n1), &da, concat!($n, " from normalized (large)"))?;
                same(&Value::<$small>::from_normalized(&n1), &da.shift($k), concat!($n, " from normalized (small)"))?;
                same(&Value::<$small>::from_normalized(&n2), &da, concat!($n, " normalized there and back"))?;
                // the From impls are the same conversions
                same(&Value::<Normalized>::from(big.clone()), &da, concat!($n, " From large"))?;
                same(&Value::<Normalized>::from(small.clone()), &da.shift(-$k), concat!($n, " From small"))?;
                same(&Value::<$small>::from(n1.clone()), &da.shift($k), concat!($n, " small From normalized"))?;
                // order is kept
                let s2: Value<$small> = Value::<$big>::new(c.b.big()).$down();
                check_eq!(s.cmp(&s2), da.cmp(&db), concat!($n, " keeps order"));
            }};
        }
        pair!(cardano::Ada, cardano::Lovelace, 6, to_lovelace, to_ada, "ADA");
        pair!(evm::Ether, evm::Wei, 18, to_wei, to_ether, "Ether");
        pair!(algo::Algo, algo::MicroAlgo, 6, to_microalgo, to_algo, "Algo");
        let n: Value<Normalized> = c.a.value();
        same(&Value::<cardano::Ada>::from(n.clone()), &da, "ADA From normalized")?;
        same(&Value::<evm::Ether>::from(n.clone()), &da, "Ether From normalized")?;
        same(
            &Value::<cardano::Lovelace>::from(c.a.value::<cardano::Ada>()),
            &da.shift(6),
            "Lovelace From ADA",
        )?;

        // regulated amounts
        let l: Value<cardano::Lovelace> = c.a.value();
        let r = l.to_regulated();
        same(&r, &da, "lovelace as regulated")?;
        same(&Value::<cardano::Lovelace>::from_regulated(&r), &da, "regulated as lovelace")?;
        let rule = Rule {
            asset: TokenId::new("t"),
            mainchain_decimal_precision: c.main,
            sidechain_decimal_precision: c.side,
        };
        let nm = r.normalize_from_mainchain(&rule);
        let nd = da.shift(-c.main);
        same(&nm, &nd, "mainchain to normalized")?;
        let ns = r.normalize_from_sidechain(&rule);
        same(&ns, &da.shift(-c.side), "sidechain to normalized")?;
        same(&Value::<Regulated>::from_normalized_to_mainchain(&nm, &rule), &da, "mainchain there and back")?;
        same(&Value::<Regulated>::from_normalized_to_sidechain(&ns, &rule), &da, "sidechain there and back")?;
        let across = Value::<Regulated>::from_normalized_to_sidechain(&nm, &rule);
        same(&across, &da.shift(c.side - c.main), "mainchain to sidechain")?;
        let back = Value::<Regulated>::from_normalized_to_mainchain(&across.normalize_from_sidechain(&rule), &rule);
        same(&back, &da, "mainchain to sidechain and back")?;
        // ERC20's rule, which is the default
        for rule in [Rule::default(), Rule::ERC20] {
            same(&r.normalize_from_mainchain(&rule), &da, "ERC20 from the main chain")?;
            same(&Value::<Regulated>::from_normalized_to_sidechain(&nm, &rule), &nd.shift(18), "ERC20 to the side chain")?;
        }
        if c.side != c.main {
            cx.label("rule changes precision");
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
pub struct C02;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Text {
    /// a plain non-negative decimal with padding
    Plain { v: Rep, lead: u8, trail: u8 },
    Negative { v: Rep },
    Sci { v: Rep },
    Garbage { s: String },
    Int { n: u64 },
}

fn text_rt<R>(t: &Text, max: i64, name: &str, cx: &mut Cx) -> Res
where
    Value<R>: std::str::FromStr,
    <Value<R> as std::str::FromStr>::Err: std::error::Error,
{
    let show_and_back = |v: &Value<R>, d: &Dec, parseable: bool| -> Res {
        let shown = v.to_string();
        let read = Dec::read(&shown)
            .ok_or_else(|| Fail::new(format!("{name}: printed as {shown:?}, not a number")))?;
        check!(read.same(d), "{name}: {} * 10^{} printed as {shown}", d.m, -d.s);
        if parseable {
            let again: Value<R> = shown.parse().or_fail("parse of own display")?;
            check!(&again == v, "{name}: display {shown} parses as {again}");
        }
        let j = serde_json::to_string(v).or_fail("to json")?;
        check!(j.starts_with('"') && j.ends_with('"'), "{name}: json {j} is not a string");
        let again: Value<R> = serde_json::from_str(&j).or_fail("from own json")?;
        check!(&again == v && Dec::of(again.raw()).same(d), "{name}: json {j} reads as {again}");
        Ok(())
    };
    match t {
        Text::Plain { v, lead, trail } => {
            let v = Rep { m: v.m.clone(), s: v.s.min(max + 2) };
            let mut s = format!("{}{}", "0".repeat(*lead as usize), v.plain());
            let mut written = v.s.max(0);
            if *trail > 0 && written + *trail as i64 <= max {
                if written == 0 {
                    s.push('.');
                }
                s.push_str(&"0".repeat(*trail as usize));
                written += *trail as i64;
            }
            let d = v.dec();
            let got = s.parse::<Value<R>>();
            if d.decimals() > max {
                cx.label("too many decimals");
                check!(got.is_err(), "{name}: {s} has more than {max} decimals but parses");
            } else if written <= max {
                cx.label("valid");
                if d.decimals() > 0 {
                    cx.nontrivial();
                }
                let got = got.map_err(|e| Fail::new(format!("{name}: {s:?} rejected: {e}")))?;
                same(&got, &d, &format!("{name}: {s:?} parsed"))?;
                show_and_back(&got, &d, true)?;
                // the JSON string form is read as the same amount
                let j: Value<R> = serde_json::from_str(&format!("\"{s}\"")).or_fail("json string")?;
                check!(j == got, "{name}: JSON string {s} read as {j}");
            } else if let Ok(g) = got {
                // more zeros than the unit has decimals: may be refused, not misread
                same(&g, &d, &format!("{name}: {s:?} parsed"))?;
            }
        }
        Text::Negative { v } => {
            let s = format!("-{}", v.plain());
            let got = s.parse::<Value<R>>();
            if v.dec().is_zero() {
                if let Ok(g) = got {
                    same(&g, &Dec::zero(), name)?;
                }
            } else {
                cx.label("negative");
                cx.nontrivial();
                check!(got.is_err(), "{name}: negative amount {s} parses");
            }
        }
        Text::Sci { v } => {
            // amounts as the library prints big ones
            let s = format!("{}e{}", v.m, -v.s);
            if let Ok(g) = s.parse::<Value<R>>() {
                same(&g, &v.dec(), &format!("{name}: {s}"))?;
                check!(v.dec().decimals() <= max, "{name}: {s} has more than {max} decimals but parses");
                cx.label("exponent form");
                cx.nontrivial();
                show_and_back(&g, &v.dec(), true)?;
            }
        }
        Text::Garbage { s } => {
            if let Ok(g) = s.parse::<Value<R>>() {
                check!(!Dec::of(g.raw()).is_neg(), "{name}: {s:?} parses as negative {g}");
                check!(Dec::of(g.raw()).decimals() <= max, "{name}: {s:?} parses with too many decimals");
            } else {
                cx.label("garbage rejected");
            }
        }
        Text::Int { n } => {
            let v = Value::<R>::from(*n);
            let d = Dec::int(*n);
            same(&v, &d, name)?;
            show_and_back(&v, &d, true)?;
            let j: Value<R> = serde_json::from_str(&n.to_string()).or_fail("json number")?;
            check!(j == v, "{name}: JSON number {n} read as {j}");
            cx.label("integer");
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TextCase {
    t: Text,
    /// also a converted amount: shown and read back
    conv: Rep,
}

impl Check for C02 {
    type Case = TextCase;
    const ID: &'static str = "C02";
    const RULE: &'static str = "A case is one text (plain decimal with padding, negative, exponent form, digit-like garbage, or u64) read as each of the eight units, and one amount converted between units and printed. Non-trivial: an accepted fractional or exponent-form amount, or a refused negative.";
    fn strategy(_: Tier) -> BoxedStrategy<TextCase> {
        let t = prop_oneof![
            6 => (rep(-20, 21), 0u8..3, 0u8..4).prop_map(|(v, lead, trail)| Text::Plain { v, lead, trail }),
            1 => rep(-20, 20).prop_map(|v| Text::Negative { v }),
            2 => rep(-25, 20).prop_map(|v| Text::Sci { v }),
            2 => "[-+0-9.eE_ ]{0,12}".prop_map(|s| Text::Garbage { s }),
            1 => "[1-9][0-9]{0,3}[.]?[0-9]{0,3}[eE][-+]?[0-9]{1,2}".prop_map(|s| Text::Garbage { s }),
            1 => "\\PC{0,8}".prop_map(|s| Text::Garbage { s }),
            2 => any::<u64>().prop_map(|n| Text::Int { n }),
            1 => (0u64..2000).prop_map(|n| Text::Int { n }),
        ];
        (t, rep(-10, 6)).prop_map(|(t, conv)| TextCase { t, conv }).boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(300_000, 8_000_000)
    }
    fn run(c: &TextCase, cx: &mut Cx) -> Res {
        text_rt::<Normalized>(&c.t, 18, "Normalized", cx)?;
        text_rt::<Regulated>(&c.t, 18, "Regulated", cx)?;
        text_rt::<cardano::Lovelace>(&c.t, 0, "Lovelace", cx)?;
        text_rt::<cardano::Ada>(&c.t, 6, "Ada", cx)?;
        text_rt::<evm::Wei>(&c.t, 0, "Wei", cx)?;
        text_rt::<evm::Ether>(&c.t, 18, "Ether", cx)?;
        text_rt::<algo::MicroAlgo>(&c.t, 0, "MicroAlgo", cx)?;
        text_rt::<algo::Algo>(&c.t, 6, "Algo", cx)?;
        // amounts that come out of a conversion print and read back too
        if let Ok(ada) = c.conv.plain().parse::<Value<cardano::Ada>>() {
            let d = c.conv.dec();
            macro_rules! shown {
                ($v:expr, $d:expr, $T:ty) => {{
                    let v: Value<$T> = $v;
                    let s = v.to_string();
                    check!(Dec::read(&s).is_some_and(|x| x.same(&$d)), "{s} is printed for {} * 10^{}", $d.m, -$d.s);
                    let again: Value<$T> = s.parse().or_fail("parse of converted amount")?;
                    check!(again == v, "{s} reads back as {again}");
                }};
            }
            shown!(ada.to_lovelace(), d.shift(6), cardano::Lovelace);
            shown!(ada.to_lovelace().to_ada(), d, cardano::Ada);
            shown!(Value::<evm::Wei>::from_normalized(&ada.normalize()), d.shift(18), evm::Wei);
            shown!(Value::<evm::Wei>::from_normalized(&ada.normalize()).to_ether(), d, evm::Ether);
            cx.label("converted amount printed");
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
pub struct C03;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Arith {
    a: Rep,
    b: Rep,
    /// the same amount as `a` in another representation
    pad: u8,
    k32: u32,
    kus: u64,
    div: u64,
    list: Vec<Rep>,
}

fn h<T: Hash>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

impl Check for C03 {
    type Case = Arith;
    const ID: &'static str = "C03";
    const RULE: &'static str = "A case is two amounts, a re-scaled copy of the first, two multipliers, a divisor and a list of amounts; every operator variant, comparison, hash, truncation and integer extraction is compared with exact big-integer arithmetic. Non-trivial: the amounts have different representations scales.";
    fn strategy(_: Tier) -> BoxedStrategy<Arith> {
        (
            rep(-22, 25),
            prop_oneof![4 => rep(-22, 25), 1 => Just(Rep { m: "1".into(), s: 0 })],
            0u8..20,
            prop_oneof![any::<u32>(), 0u32..20],
            prop_oneof![any::<u64>(), 0u64..20],
            prop_oneof![1u64..1000, 1u64..=u64::MAX, Just(2u64), Just(20u64)],
            prop::collection::vec(rep(-5, 20), 0..8),
        )
            .prop_map(|(a, b, pad, k32, kus, div, list)| Arith { a, b, pad, k32, kus, div, list })
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(300_000, 8_000_000)
    }
    fn run(c: &Arith, cx: &mut Cx) -> Res {
        type V = Value<Regulated>;
        let (a, b): (V, V) = (c.a.value(), c.b.value());
        let (da, db) = (c.a.dec(), c.b.dec());
        cx.nontrivial_if(c.a.s != c.b.s && !da.is_zero() && !db.is_zero());

        let sum = da.add(&db);
        same(&(a.clone() + b.clone()), &sum, "a + b")?;
        same(&(&a + &b), &sum, "&a + &b")?;
        same(&(&a + b.clone()), &sum, "&a + b")?;
        same(&(a.clone() + &b), &sum, "a + &b")?;
        let mut x = a.clone();
        x += b.clone();
        same(&x, &sum, "a += b")?;
        let mut x = a.clone();
        x += &b;
        same(&x, &sum, "a += &b")?;
        let dif = da.sub(&db);
        same(&(a.clone() - b.clone()), &dif, "a - b")?;
        same(&(&a - &b), &dif, "&a - &b")?;
        same(&(a.clone() - &b), &dif, "a - &b")?;
        let mut x = a.clone();
        x -= b.clone();
        same(&x, &dif, "a -= b")?;
        let mut x = a.clone();
        x -= &b;
        same(&x, &dif, "a -= &b")?;
        check!(&(&a + &b) - &b == a, "(a + b) - b is not a");

        same(&(a.clone() * c.k32), &da.mul_int(c.k32), "a * u32")?;
        same(&(&a * c.k32), &da.mul_int(c.k32), "&a * u32")?;
        let kus = c.kus as usize;
        same(&(a.clone() * kus), &da.mul_int(c.kus), "a * usize")?;
        same(&(&a * kus), &da.mul_int(c.kus), "&a * usize")?;

        let d = c.div as usize;
        for q in [a.clone() / d, &a / d] {
            // q * d is a, up to the last of the (at least 60) significant digits kept
            let err = Dec::of(q.raw()).mul_int(c.div).sub(&da);
            let err = if err.is_neg() { err.neg() } else { err };
            check!(
                err.shift(60).cmp(&da) != std::cmp::Ordering::Greater,
                "{} / {d} = {q} is off by {} * 10^{}",
                a, err.m, -err.s
            );
        }

        let list: Vec<V> = c.list.iter().map(|r| r.value()).collect();
        let total = c.list.iter().fold(Dec::zero(), |t, r| t.add(&r.dec()));
        same(&list.iter().sum::<V>(), &total, "sum of references")?;
        same(&list.clone().into_iter().sum::<V>(), &total, "sum of values")?;

        check_eq!(a.cmp(&b), da.cmp(&db), "cmp");
        check_eq!(a.partial_cmp(&b), Some(da.cmp(&db)), "partial_cmp");
        check_eq!(a == b, da.same(&db), "eq");
        let padded = Rep { m: format!("{}{}", c.a.m, "0".repeat(c.pad as usize)), s: c.a.s + c.pad as i64 };
        let p: V = padded.value();
        check!(p == a, "{p} and {a} are the same amount but differ");
        check!(p.cmp(&a).is_eq(), "equal amounts do not compare equal");
        check_eq!(h(&p), h(&a), "hash of equal amounts {} and {}", p, a);
        check_eq!(p.cmp(&b), da.cmp(&db), "cmp of the re-scaled amount");
        if a == b {
            check_eq!(h(&a), h(&b), "hash of equal amounts");
        }

        // integral part
        for v in [&a, &p] {
            let t = v.truncate();
            let floor = da.floor();
            same(&t, &Dec::int(floor.clone()), &format!("truncation of {v}"))?;
            let want: Option<u64> = floor.to_u64();
            check_eq!(v.to_u64(), want, "to_u64 of {}", v);
            check_eq!(v.to_i64(), floor.to_i64(), "to_i64 of {}", v);
            if da.floor() > BigInt::from(0) && da.decimals() > 0 {
                cx.label("truncates decimals");
            }
            if v.to_string().contains('E') || v.to_string().contains('e') {
                cx.label("printed in exponent form");
            }
        }
        same(&V::zero(), &Dec::zero(), "zero")?;
        same(&V::one(), &Dec::int(1), "one")?;
        same(&V::default(), &Dec::zero(), "default")?;
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
pub struct C04;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum BOp {
    Add(Rep, u8),
    Sub(Rep, u8),
    /// add another balance, itself built by adding one amount and subtracting another
    Join(Rep, Rep),
    /// bring it back to exactly nothing owed
    Settle(u8),
}

fn cls(b: &Balance<Regulated>) -> (i8, Option<Dec>) {
    match b {
        Balance::Debt(v) => (-1, Some(Dec::of(v.raw()))),
        Balance::Balanced => (0, None),
        Balance::Excess(v) => (1, Some(Dec::of(v.raw()))),
    }
}

impl Check for C04 {
    type Case = Vec<BOp>;
    const ID: &'static str = "C04";
    const RULE: &'static str = "A case is a history of 1..25 additions, subtractions, joins with another balance and exact settlements, applied to a balance and to a signed exact integer; state, magnitude, predicates, text and equality are compared after each step. Non-trivial: the history crosses between debt and excess or settles exactly.";
    fn strategy(_: Tier) -> BoxedStrategy<Vec<BOp>> {
        let amt = || prop_oneof![3 => rep(-2, 4), 2 => (0u64..12).prop_map(|x| Rep { m: x.to_string(), s: 0 }), 1 => (0u64..120).prop_map(|x| Rep { m: x.to_string(), s: 1 }), 1 => rep(-20, 20)];
        let op = prop_oneof![
            4 => (amt(), 0u8..4).prop_map(|(r, k)| BOp::Add(r, k)),
            4 => (amt(), 0u8..4).prop_map(|(r, k)| BOp::Sub(r, k)),
            2 => (amt(), amt()).prop_map(|(a, b)| BOp::Join(a, b)),
            2 => (0u8..8).prop_map(BOp::Settle),
        ];
        crate::now_and_then_longer(op, 25, 10)
    }
    fn cases(t: Tier) -> u32 {
        t.pick(300_000, 8_000_000)
    }
    fn run(ops: &Vec<BOp>, cx: &mut Cx) -> Res {
        let mut b: Balance<Regulated> = Balance::zero();
        check!(Balance::<Regulated>::default() == b, "default balance is not zero");
        let mut m = Dec::zero();
        let mut last = 0i8;
        for op in ops {
            match op {
                BOp::Add(r, k) => {
                    let v: Value<Regulated> = r.value();
                    match k {
                        0 => b += v,
                        1 => b += &v,
                        2 => b = &b + &v,
                        _ => b = b + v,
                    }
                    m = m.add(&r.dec());
                }
                BOp::Sub(r, k) => {
                    let v: Value<Regulated> = r.value();
                    match k {
                        0 => b -= v,
                        1 => b -= &v,
                        2 => b = &b - &v,
                        _ => b = b - v,
                    }
                    m = m.sub(&r.dec());
                }
                BOp::Join(x, y) => {
                    let mut o: Balance<Regulated> = Balance::zero();
                    o += x.value::<Regulated>();
                    o -= y.value::<Regulated>();
                    let d = x.dec().sub(&y.dec());
                    let l = b.clone() + o.clone();
                    let r = o + b.clone();
                    check!(l == r, "joining balances depends on the order: {l} and {r}");
                    b = l;
                    m = m.add(&d);
                }
                BOp::Settle(z) => {
                    // in another representation of the same amount
                    let abs = if m.is_neg() { m.neg() } else { m.clone() };
                    let v = Value::<Regulated>::new(deps::bigdecimal::BigDecimal::new(
                        &abs.m * pow10(*z as u64),
                        abs.s + *z as i64,
                    ));
                    if m.is_neg() {
                        b += v;
                    } else {
                        b -= v;
                    }
                    m = Dec::zero();
                    cx.nontrivial();
                    cx.label("settled");
                }
            }
            let sign = if m.is_neg() { -1 } else if m.is_zero() { 0 } else { 1 };
            let (s, mag) = cls(&b);
            check_eq!(s, sign, "side of the balance {} after {:?}", b, op);
            let abs = if m.is_neg() { m.neg() } else { m.clone() };
            if let Some(mag) = mag {
                check!(mag.same(&abs), "balance {b}, expected {} * 10^{}", m.m, -m.s);
            }
            check_eq!(b.in_debt(), sign < 0, "in_debt of {}", b);
            check_eq!(b.balanced(), sign == 0, "balanced of {}", b);
            check_eq!(b.in_excess(), sign > 0, "in_excess of {}", b);
            let text = b.to_string();
            check!(Dec::read(&text).is_some_and(|d| d.same(&m)), "balance printed as {text}, expected {} * 10^{}", m.m, -m.s);
            check!(b == b.clone(), "a balance differs from its clone");
            let mut other = b.clone();
            other += Value::<Regulated>::one();
            check!(other != b, "{b} equals itself plus one");
            if sign * last < 0 {
                cx.nontrivial();
                cx.label("crossed zero");
            }
            last = sign;
        }
        Ok(())
    }
}
