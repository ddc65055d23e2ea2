//! Exact decimal model, independent of the code under test: value = m * 10^-s.
use deps::bigdecimal::num_bigint::BigInt;
use deps::bigdecimal::BigDecimal;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;

#[derive(Clone, Debug)]
pub struct Dec {
    pub m: BigInt,
    pub s: i64,
}

pub fn pow10(n: u64) -> BigInt {
    let mut r = BigInt::from(1);
    for _ in 0..n {
        r *= 10;
    }
    r
}

impl Dec {
    pub fn int(i: impl Into<BigInt>) -> Dec {
        Dec { m: i.into(), s: 0 }
    }
    pub fn zero() -> Dec {
        Dec::int(0)
    }
    fn at(&self, s: i64) -> BigInt {
        &self.m * pow10((s - self.s) as u64)
    }
    pub fn cmp(&self, o: &Dec) -> Ordering {
        let s = self.s.max(o.s);
        self.at(s).cmp(&o.at(s))
    }
    pub fn same(&self, o: &Dec) -> bool {
        self.cmp(o) == Ordering::Equal
    }
    pub fn add(&self, o: &Dec) -> Dec {
        let s = self.s.max(o.s);
        Dec { m: self.at(s) + o.at(s), s }
    }
    pub fn neg(&self) -> Dec {
        Dec { m: -&self.m, s: self.s }
    }
    pub fn sub(&self, o: &Dec) -> Dec {
        self.add(&o.neg())
    }
    pub fn mul_int(&self, k: impl Into<BigInt>) -> Dec {
        Dec { m: &self.m * k.into(), s: self.s }
    }
    /// times 10^k
    pub fn shift(&self, k: i64) -> Dec {
        Dec { m: self.m.clone(), s: self.s - k }
    }
    pub fn is_neg(&self) -> bool {
        self.cmp(&Dec::zero()) == Ordering::Less
    }
    pub fn is_zero(&self) -> bool {
        self.m == BigInt::from(0)
    }
    /// floor of a non-negative value
    pub fn floor(&self) -> BigInt {
        if self.s <= 0 {
            self.at(0)
        } else {
            &self.m / pow10(self.s as u64)
        }
    }
    /// number of decimals needed to write the value
    pub fn decimals(&self) -> i64 {
        let (mut m, mut s) = (self.m.clone(), self.s);
        if self.is_zero() {
            return 0;
        }
        while s > 0 && (&m % 10) == BigInt::from(0) {
            m /= 10;
            s -= 1;
        }
        s.max(0)
    }
    pub fn of(b: &BigDecimal) -> Dec {
        let (m, s) = b.as_bigint_and_exponent();
        Dec { m, s }
    }
    /// own reader of what the library prints: [-]digits[.digits][(e|E)[+-]digits]
    pub fn read(t: &str) -> Option<Dec> {
        let (neg, t) = match t.strip_prefix('-') {
            Some(r) => (true, r),
            None => (false, t.strip_prefix('+').unwrap_or(t)),
        };
        let (body, exp) = match t.find(['e', 'E']) {
            Some(i) => (&t[..i], t[i + 1..].parse::<i64>().ok()?),
            None => (t, 0),
        };
        let (int, frac) = body.split_once('.').unwrap_or((body, ""));
        let digits = format!("{int}{frac}");
        if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) {
            return None;
        }
        let mut m: BigInt = digits.parse().ok()?;
        if neg {
            m = -m;
        }
        Some(Dec { m, s: frac.len() as i64 - exp })
    }
}

/// a generated non-negative decimal in a particular representation
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Rep {
    /// decimal digits of the mantissa
    pub m: String,
    /// scale: value = m * 10^-s
    pub s: i64,
}

impl Rep {
    pub fn dec(&self) -> Dec {
        Dec { m: self.m.parse().expect("digits"), s: self.s }
    }
    pub fn big(&self) -> BigDecimal {
        BigDecimal::new(self.m.parse().expect("digits"), self.s)
    }
    pub fn value<R>(&self) -> dcspark_core::Value<R> {
        dcspark_core::Value::new(self.big())
    }
    /// plain text without exponent
    pub fn plain(&self) -> String {
        let m = self.m.trim_start_matches('0');
        let m = if m.is_empty() { "0" } else { m };
        if self.s <= 0 {
            format!("{m}{}", "0".repeat((-self.s) as usize))
        } else {
            let s = self.s as usize;
            let p = format!("{}{m}", "0".repeat((s + 1).saturating_sub(m.len())));
            format!("{}.{}", &p[..p.len() - s], &p[p.len() - s..])
        }
    }
}

fn digits() -> impl Strategy<Value = String> {
    prop_oneof![
        3 => (0u64..1000).prop_map(|x| x.to_string()),
        3 => any::<u64>().prop_map(|x| x.to_string()),
        // trailing zeros of any number
        3 => (1u64..100000, 0usize..30).prop_map(|(x, z)| format!("{x}{}", "0".repeat(z))),
        2 => any::<u128>().prop_map(|x| x.to_string()),
        2 => "[1-9][0-9]{0,60}",
        // more than any fixed precision
        1 => "[1-9][0-9]{61,250}",
        1 => (1usize..40).prop_map(|n| "9".repeat(n)),
        1 => (1usize..40).prop_map(|n| format!("1{}", "0".repeat(n))),
        1 => Just("0".to_string()),
        1 => Just(u64::MAX.to_string()),
        1 => Just("45000000000000000".to_string()),
    ]
}

/// non-negative decimals with scales in `lo..=hi`
pub fn rep(lo: i64, hi: i64) -> BoxedStrategy<Rep> {
    (
        digits(),
        prop_oneof![
            2 => Just(0i64.clamp(lo, hi)),
            4 => lo..=hi,
            1 => Just(lo),
            1 => Just(hi),
            2 => (0i64.max(lo))..=(18i64.min(hi).max(0i64.max(lo))),
        ],
    )
        .prop_map(|(m, s)| Rep { m, s })
        .boxed()
}
