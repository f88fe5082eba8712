//! Operands, and single operations checked against the reference model.

use crate::big::I256;
use crate::engine::*;
use crate::model::*;
use clarith::protocol::Reduction;
use clarith::{Clog, Number};

/// How an operand is made.
#[derive(Clone, Debug)]
pub enum Opd {
    Ratio(i64, i64),
    RatioU(bool, u64, u64),
    /// A primer and a finite stream of symbols.
    Word(u8, Vec<u8>),
}

use Opd::*;

pub fn big(n: i128) -> I256 {
    I256::from(n)
}

impl Opd {
    pub fn value(&self) -> (i128, i128) {
        match self {
            Ratio(n, d) => (*n as i128, *d as i128),
            RatioU(s, n, d) => (if *s { *n as i128 } else { -(*n as i128) }, *d as i128),
            Word(p, w) => {
                let (n, d) = word_value(w);
                primed_value(*p, n, d)
            }
        }
    }
    pub fn make(&self) -> Number {
        match self {
            Ratio(n, d) => Number::ratio(*n as isize, *d as isize),
            RatioU(s, n, d) => Number::ratio_u(*s, *n as usize, *d as usize),
            Word(p, w) => word_number(*p, w),
        }
    }
    pub fn show(&self) -> String {
        match self {
            Ratio(n, d) => format!("ratio({}, {})", n, d),
            RatioU(s, n, d) => format!("ratio_u({}, {}, {})", s, n, d),
            Word(p, w) => format!("'{}{}'", primer_name(*p), word_str(w)),
        }
    }
    /// Number of symbols of the representation.
    pub fn symbols(&self) -> usize {
        if let Word(_, w) = self {
            return w.len();
        }
        let (n, d) = self.value();
        match expect(n, d) {
            Exp::Special(_) => 0,
            Exp::Other(_, r) => r.word().len(),
        }
    }
}

/// Whether symbol streams can be supplied by the harness.
pub const HOOK: bool = cfg!(clarith_verif);

#[cfg(clarith_verif)]
pub fn source(f: impl FnMut() -> Option<Reduction> + 'static) -> Clog {
    Clog::from_source(Box::new(f))
}

#[cfg(not(clarith_verif))]
pub fn source(_f: impl FnMut() -> Option<Reduction> + 'static) -> Clog {
    panic!("harness: no symbol sources in this build");
}

#[cfg(clarith_verif)]
pub fn word_number(p: u8, w: &[u8]) -> Number {
    let w = w.to_vec();
    let mut i = 0;
    Number::Other(
        primer(p),
        source(move || {
            let r = w.get(i).map(|s| sym(*s));
            i += 1;
            r
        }),
    )
}

#[cfg(not(clarith_verif))]
pub fn word_number(p: u8, w: &[u8]) -> Number {
    let (n, d) = word_value(w);
    let (n, d) = (n as usize, d as usize);
    match p {
        NONE => Number::ratio_u(true, n, d),
        TURN => Number::ratio_u(true, d, n),
        REFLECT => Number::ratio_u(false, n, d),
        _ => Number::ratio_u(false, d, n),
    }
}

/// Which failures a check accepts.
#[derive(Clone, Copy, PartialEq)]
pub enum Policy {
    /// No failure at all.
    Strict,
    /// Overflow, if intermediate coefficients could possibly reach the limit.
    Exact,
    /// Any panic but a wrong report of division by zero; also for poles.
    FailStop,
}

fn bits(c: &[i64]) -> u32 {
    c.iter().map(|v| 64 - v.unsigned_abs().leading_zeros()).max().unwrap()
}

/// Even without any cancellation of common factors, each symbol read or
/// delivered grows a coefficient by at most one bit, and range tests multiply
/// two coefficients.  Below this bound nobody can blame overflow.
pub fn may_overflow(coefs: &[i64], symbols: usize) -> bool {
    2 * (bits(coefs) as usize + symbols + 3) > 62
}

fn judge(
    r: Result<R, Panic>,
    pol: Policy,
    coefs: &[i64],
    insyms: impl FnOnce() -> usize,
    exp: Option<Exp>,
    ctx: &mut Ctx,
) -> R {
    match (r, exp) {
        (Ok(Ok(())), _) => Ok(()),
        (Ok(Err(m)), _) => Err(m),
        (Err(Panic::DivZero), None) => {
            ctx.class(DIVZERO);
            Ok(())
        }
        (Err(Panic::DivZero), Some(_)) => Err("got panic 'division by zero'".into()),
        (Err(p), e) => {
            let lenient = match pol {
                Policy::FailStop => true,
                Policy::Strict => false,
                Policy::Exact => match &p {
                    Panic::Other(_) => false,
                    _ => {
                        let out = match e {
                            Some(Exp::Other(_, r)) => r.word().len(),
                            _ => 0,
                        };
                        may_overflow(coefs, insyms() + out)
                    }
                },
            };
            if lenient {
                ctx.class(OVERFLOW);
                Ok(())
            } else {
                Err(format!("got {}", p.show()))
            }
        }
    }
}

/// n/d with n = sum of the products a[i]*b[i], d likewise.
fn fraction(num: &[(i128, i128)], den: &[(i128, i128)]) -> Option<Exp> {
    let small = |l: &[(i128, i128)]| -> Option<i128> {
        let mut s = 0i128;
        for (a, b) in l {
            s = s.checked_add(a.checked_mul(*b)?)?;
        }
        // so that the magnitude is representable
        if s == i128::MIN {
            None
        } else {
            Some(s)
        }
    };
    if let (Some(n), Some(d)) = (small(num), small(den)) {
        return if d == 0 { None } else { Some(expect(n, d)) };
    }
    let sum = |l: &[(i128, i128)]| {
        let mut s = I256::ZERO;
        for (a, b) in l {
            s = s.add(&big(*a).mul(&big(*b)));
        }
        s
    };
    let (n, d) = (sum(num), sum(den));
    if d.is_zero() {
        None
    } else {
        Some(expect_big(&n, &d))
    }
}

pub fn hom_exp(x: (i128, i128), c: &[i64; 4]) -> Option<Exp> {
    let (p, q) = x;
    let f = |a: i64, b: i64| [(a as i128, p), (b as i128, q)];
    fraction(&f(c[0], c[1]), &f(c[2], c[3]))
}

pub fn comb_exp(x: (i128, i128), y: (i128, i128), c: &[i64; 8]) -> Option<Exp> {
    let (px, qx) = x;
    let (py, qy) = y;
    // products of operands that do not fit are scaled by common powers of two at most
    let m = |a: i128, b: i128| a.checked_mul(b).expect("model operands too big");
    let (pp, pq, qp, qq) = (m(px, py), m(px, qy), m(qx, py), m(qx, qy));
    let f = |k: usize| {
        [
            (c[k] as i128, pp),
            (c[k + 1] as i128, pq),
            (c[k + 2] as i128, qp),
            (c[k + 3] as i128, qq),
        ]
    };
    fraction(&f(0), &f(4))
}

pub fn hom_make(x: Number, c: &[i64; 4]) -> Number {
    Number::homographic(x, c[0] as isize, c[1] as isize, c[2] as isize, c[3] as isize)
}

pub fn comb_make(x: Number, y: Number, c: &[i64; 8]) -> Number {
    Number::combine(
        x,
        y,
        c[0] as isize,
        c[1] as isize,
        c[2] as isize,
        c[3] as isize,
        c[4] as isize,
        c[5] as isize,
        c[6] as isize,
        c[7] as isize,
    )
}

fn exp_show(e: Option<Exp>) -> String {
    match e {
        None => "panic 'division by zero'".into(),
        Some(e) => e.show(),
    }
}

/// Check one homographic transformation.
pub fn hom(ctx: &mut Ctx, pol: Policy, x: &Opd, c: &[i64; 4]) -> R {
    let e = hom_exp(x.value(), c);
    let call = || format!("homographic({}; {}, {}, {}, {})", x.show(), c[0], c[1], c[2], c[3]);
    if e.is_none() && pol != Policy::FailStop {
        return ctx.skip();
    }
    let r = guard(|| {
        let z = hom_make(x.make(), c);
        match e {
            Some(e) => drain(z, e, ctx),
            None => Err("got a number".to_string()),
        }
    });
    ctx.note(|| format!("{} = {}", call(), exp_show(e)));
    judge(r, pol, c, || x.symbols(), e, ctx)
        .map_err(|m| format!("{}: {}, expected {}", call(), m, exp_show(e)))
}

/// Check one combination.
pub fn comb(ctx: &mut Ctx, pol: Policy, x: &Opd, y: &Opd, c: &[i64; 8]) -> R {
    let e = comb_exp(x.value(), y.value(), c);
    let call = || format!("combine({}, {}; {:?})", x.show(), y.show(), c);
    if e.is_none() && pol != Policy::FailStop {
        return ctx.skip();
    }
    let r = guard(|| {
        let z = comb_make(x.make(), y.make(), c);
        match e {
            Some(e) => drain(z, e, ctx),
            None => Err("got a number".to_string()),
        }
    });
    ctx.note(|| format!("{} = {}", call(), exp_show(e)));
    judge(r, pol, c, || x.symbols() + y.symbols(), e, ctx)
        .map_err(|m| format!("{}: {}, expected {}", call(), m, exp_show(e)))
}

/// Values near all the powers of two, and some of other shapes.
pub fn lattice_u(spread: i64) -> Vec<u64> {
    let mut v: Vec<u64> = vec![];
    for k in 0..=64u32 {
        for j in -spread..=spread {
            let t = (1i128 << k) + j as i128;
            if t >= 0 && t <= u64::MAX as i128 {
                v.push(t as u64);
            }
        }
    }
    for k in 1..=9u64 {
        v.push(u64::MAX / k);
        v.push(i64::MAX as u64 / k);
    }
    // Fibonacci neighbours
    let (mut a, mut b) = (1u64, 1u64);
    let mut i = 0;
    while let Some(c) = a.checked_add(b) {
        a = b;
        b = c;
        i += 1;
        if i % 15 == 0 || i > 89 {
            v.push(a);
            v.push(b);
        }
    }
    v.push(10u64.pow(18));
    v.push(10u64.pow(19));
    v.push(0xAAAA_AAAA_AAAA_AAAA);
    v.push(0x5555_5555_5555_5555);
    v.sort();
    v.dedup();
    v
}

/// Signed machine integers of extreme or characteristic size.
pub fn extremes() -> Vec<i64> {
    let mut v = vec![0, 1, 2, 3, 5, 10];
    for k in [31u32, 32, 61, 62] {
        v.push((1i64 << k) - 1);
        v.push(1i64 << k);
        v.push((1i64 << k) + 1);
    }
    v.push(i64::MAX / 3);
    v.push(i64::MAX / 2 + 2);
    v.push(i64::MAX - 1);
    v.push(i64::MAX);
    let w: Vec<i64> = v.iter().filter(|a| **a != 0).map(|a| -a).collect();
    v.extend(w);
    v.push(i64::MIN);
    v.push(i64::MIN + 2);
    v
}

/// Well known two operand forms: nxy nx ny n / dxy dx dy d.
pub const FORMS: [[i64; 8]; 40] = [
    [0, 1, 1, 0, 0, 0, 0, 1],    // x+y
    [0, 1, -1, 0, 0, 0, 0, 1],   // x-y
    [1, 0, 0, 0, 0, 0, 0, 1],    // xy
    [0, 1, 0, 0, 0, 0, 1, 0],    // x/y
    [0, -1, 1, 0, 0, 0, 0, 1],   // y-x
    [0, 0, 1, 0, 0, 1, 0, 0],    // y/x
    [0, 1, 1, 0, 0, 0, 0, 2],    // mean
    [2, 0, 0, 0, 0, 1, 1, 0],    // harmonic mean
    [1, 0, 0, 0, 0, 1, 1, 0],    // parallel
    [0, 1, 1, 0, -1, 0, 0, 1],   // tangent sum
    [0, 1, -1, 0, 1, 0, 0, 1],   // tangent difference
    [1, 0, 0, -1, 0, 1, 1, 0],   // cotangent sum
    [0, 1, -1, 0, 0, 1, 1, 0],   // (x-y)/(x+y)
    [0, 1, 1, 0, 0, 1, -1, 0],   // (x+y)/(x-y)
    [1, 1, 1, 1, 0, 0, 0, 1],    // (x+1)(y+1)
    [1, -1, -1, 1, 0, 0, 0, 1],  // (x-1)(y-1)
    [0, 1, 0, 1, 0, 0, 1, 1],    // (x+1)/(y+1)
    [0, 1, 0, -1, 0, 0, 1, -2],  // (x-1)/(y-2)
    [0, 0, 0, 1, 0, 1, 1, 0],    // 1/(x+y)
    [0, 0, 0, 1, 1, 0, 0, 0],    // 1/(xy)
    [0, 0, 0, -1, 1, 0, 0, 1],   // -1/(xy+1)
    [0, 1, 1, 1, 0, 0, 0, 1],    // x+y+1
    [0, 1, 1, -1, 0, 0, 0, 1],   // x+y-1
    [1, 0, 0, 1, 1, 0, 0, -1],   // (xy+1)/(xy-1)
    [1, 1, 0, 0, 0, 0, 0, 1],    // xy+x
    [1, 0, -1, 0, 0, 0, 0, 1],   // xy-y
    [0, 1, 0, 0, 0, 0, 0, 1],    // x
    [0, 0, 1, 0, 0, 0, 0, 1],    // y
    [0, -1, 0, 0, 0, 0, 0, 1],   // -x
    [0, 0, 0, 1, 0, 0, 1, 0],    // 1/y
    [0, 2, 3, 0, 0, 0, 0, 1],    // 2x+3y
    [0, 3, -2, 1, 0, 0, 0, 5],   // (3x-2y+1)/5
    [3, 1, 4, 1, 5, 9, 2, 6],    // dense
    [-2, 7, 1, -8, 2, 8, -1, 8], // dense
    [0, 1, 2, 3, 3, 2, 1, 0],    // dense
    [1, 2, 3, 4, 5, 6, 7, 8],    // dense
    [8, -7, 6, -5, 4, -3, 2, -1], // dense
    [16, 0, 0, 1, 0, 8, 8, 0],   // powers of two
    [0, 12, 12, 0, 0, 0, 0, 12], // common factor
    [0, 0, 0, 7, 0, 0, 0, 3],    // constant
];
