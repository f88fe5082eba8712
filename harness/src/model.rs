//! The reference model: what the documentation says a number is.
//!
//! A value in the open interval (0,1) is a residual n/d.  Extraction:
//! below one half, it is doubled (Amplify); above, it is reciprocated and
//! loses one (Uncover); at one half it ends.  Nothing here is taken from the
//! implementation: all arithmetic is on exact rationals.

use crate::big::{I256, U256};
use clarith::protocol::{Primer, Reduction, Special};
use std::cmp::Ordering;

pub const A: u8 = 0;
pub const U: u8 = 1;

pub fn sym(s: u8) -> Reduction {
    if s == A {
        Reduction::Amplify
    } else {
        Reduction::Uncover
    }
}

pub fn code(r: &Reduction) -> u8 {
    match r {
        Reduction::Amplify => A,
        Reduction::Uncover => U,
    }
}

pub const NONE: u8 = 0;
pub const TURN: u8 = 1;
pub const REFLECT: u8 = 2;
pub const GROUND: u8 = 3;

pub fn primer(p: u8) -> Option<Primer> {
    match p {
        NONE => None,
        TURN => Some(Primer::Turn),
        REFLECT => Some(Primer::Reflect),
        _ => Some(Primer::Ground),
    }
}

pub fn primer_code(p: &Option<Primer>) -> u8 {
    match p {
        None => NONE,
        Some(Primer::Turn) => TURN,
        Some(Primer::Reflect) => REFLECT,
        Some(Primer::Ground) => GROUND,
    }
}

pub fn primer_name(p: u8) -> &'static str {
    ["", "T", "R", "G"][p as usize]
}

pub fn special_code(s: &Special) -> i8 {
    match s {
        Special::NegOne => -1,
        Special::Zero => 0,
        Special::PosOne => 1,
    }
}

pub fn gcd(mut a: u128, mut b: u128) -> u128 {
    if a <= u64::MAX as u128 && b <= u64::MAX as u128 {
        let (mut x, mut y) = (a as u64, b as u64);
        while y != 0 {
            let t = x % y;
            x = y;
            y = t;
        }
        return x as u128;
    }
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}

/// A value in (0,1).
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    S(u64, u64),
    B(U256, U256),
}

impl Res {
    pub fn new(n: u128, d: u128) -> Res {
        assert!(n > 0 && n < d);
        let g = gcd(n, d);
        Res::big(U256::from(n / g), U256::from(d / g))
    }

    pub fn big(n: U256, d: U256) -> Res {
        match d.small() {
            Some(sd) => Res::S(n.small().unwrap(), sd),
            None => Res::B(n, d),
        }
    }

    /// Extract the next symbol.
    pub fn next(&mut self) -> Option<u8> {
        match *self {
            Res::S(n, d) => match (2 * n).cmp(&d) {
                Ordering::Equal => None,
                Ordering::Less => {
                    *self = if d % 2 == 0 { Res::S(n, d / 2) } else { Res::S(2 * n, d) };
                    Some(A)
                }
                Ordering::Greater => {
                    *self = Res::S(d - n, n);
                    Some(U)
                }
            },
            Res::B(n, d) => match n.dbl().cmp(&d) {
                Ordering::Equal => None,
                Ordering::Less => {
                    *self = if d.is_even() { Res::big(n, d.half()) } else { Res::big(n.dbl(), d) };
                    Some(A)
                }
                Ordering::Greater => {
                    *self = Res::big(d.sub(&n), n);
                    Some(U)
                }
            },
        }
    }

    pub fn hash(&self) -> u64 {
        match self {
            Res::S(n, d) => mix(mix(0x51, *n), *d),
            Res::B(n, d) => {
                let mut h = 0xB1;
                for i in 0..4 {
                    h = mix(mix(h, n.0[i]), d.0[i]);
                }
                h
            }
        }
    }

    pub fn word(mut self) -> Vec<u8> {
        let mut w = vec![];
        while let Some(s) = self.next() {
            w.push(s);
        }
        w
    }
}

pub fn mix(h: u64, v: u64) -> u64 {
    let mut x = (h ^ v.wrapping_mul(0x9E37_79B9_7F4A_7C15)).wrapping_mul(0xD6E8_FEB8_6659_FD93);
    x ^= x >> 32;
    x = x.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    x ^ (x >> 29)
}

/// The value a symbol sequence stands for, as n/d in (0,1).
pub fn word_value(w: &[u8]) -> (u128, u128) {
    let (mut n, mut d) = (1u128, 2u128);
    for s in w.iter().rev() {
        if *s == A {
            // v / 2
            if n % 2 == 0 {
                n /= 2;
            } else {
                d = d.checked_mul(2).expect("model overflow");
            }
        } else {
            // 1 / (1 + v)
            let t = n.checked_add(d).expect("model overflow");
            n = d;
            d = t;
        }
    }
    (n, d)
}

pub fn word_str(w: &[u8]) -> String {
    w.iter().map(|s| if *s == A { 'A' } else { 'U' }).collect()
}

/// The representation a value must have.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Exp {
    Special(i8),
    Other(u8, Res),
}

/// The representation of n/d, d != 0.
pub fn expect(n: i128, d: i128) -> Exp {
    assert!(d != 0);
    let neg = (n < 0) != (d < 0);
    let (n, d) = (n.unsigned_abs(), d.unsigned_abs());
    let g = gcd(n, d);
    expect_mag(neg, U256::from(n / g), U256::from(d / g))
}

pub fn expect_big(n: &I256, d: &I256) -> Exp {
    assert!(!d.is_zero());
    let g = n.mag.gcd(&d.mag);
    expect_mag(n.neg != d.neg, n.mag.div_exact(&g), d.mag.div_exact(&g))
}

fn expect_mag(neg: bool, n: U256, d: U256) -> Exp {
    if n.is_zero() {
        return Exp::Special(0);
    }
    match n.cmp(&d) {
        Ordering::Equal => Exp::Special(if neg { -1 } else { 1 }),
        Ordering::Less => Exp::Other(if neg { REFLECT } else { NONE }, Res::big(n, d)),
        Ordering::Greater => Exp::Other(if neg { GROUND } else { TURN }, Res::big(d, n)),
    }
}

impl Exp {
    pub fn show(&self) -> String {
        match self {
            Exp::Special(s) => format!("special {}", s),
            Exp::Other(p, r) => {
                let w = r.word();
                if w.len() > 200 {
                    format!("'{}{}...'({} symbols)", primer_name(*p), word_str(&w[..200]), w.len())
                } else {
                    format!("'{}{}'", primer_name(*p), word_str(&w))
                }
            }
        }
    }
}

/// The value of primer p applied to residual n/d, as a signed fraction.
pub fn primed_value(p: u8, n: u128, d: u128) -> (i128, i128) {
    let (n, d) = (n as i128, d as i128);
    match p {
        NONE => (n, d),
        TURN => (d, n),
        REFLECT => (-n, d),
        _ => (-d, n),
    }
}

/// All coprime p/q with |p| <= b and 1 <= q <= b, simplest first.
pub fn rats(b: i64) -> Vec<(i64, i64)> {
    let mut v = vec![];
    for p in -b..=b {
        for q in 1..=b {
            if gcd(p.unsigned_abs() as u128, q as u128) == 1 {
                v.push((p, q));
            }
        }
    }
    v.sort_by_key(|(p, q)| (std::cmp::max(p.abs(), *q), *q, p.abs(), *p < 0));
    v
}

/// 0, 1, -1, 2, -2, ... up to b in magnitude.
pub fn ints(b: i64) -> Vec<i64> {
    let mut v = vec![0];
    for i in 1..=b {
        v.push(i);
        v.push(-i);
    }
    v
}

/// Number of words of length at most l.
pub fn nwords(l: u32) -> u64 {
    (1u64 << (l + 1)) - 1
}

/// The i-th word, shortest first.
pub fn word_at(i: u64) -> Vec<u8> {
    let v = i + 1;
    let l = 63 - v.leading_zeros();
    (0..l).map(|k| ((v >> k) & 1) as u8).collect()
}
