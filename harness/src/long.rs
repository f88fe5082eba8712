//! Operands of tens of thousands of symbols, also run in a build without optimisation, where
//! each call of a function has a stack frame of its own.

use crate::engine::*;
use crate::model::*;
use crate::memory::stream;
use crate::monitor::Stream;
use crate::ops::*;
use crate::props::*;
use clarith::Number;

/// The spaces to be repeated without optimisation.
pub fn spaces(prop: &str) -> Vec<Space> {
    if !HOOK {
        return vec![];
    }
    match prop {
        "C05" => vec![transformations()],
        "C06" => vec![combinations()],
        "C15" => vec![signs(), comparisons()],
        _ => vec![],
    }
}

const N: usize = 70_000;
const M: usize = 70_000;
const TAILS: [&[u8]; 3] = [&[], &[U], &[U, A, A]];

/// A primer, a run of amplifies and a tail.
fn run(p: u8, n: usize, tail: &'static [u8]) -> Number {
    let mut i = 0;
    Number::Other(
        primer(p),
        source(move || {
            i += 1;
            if i <= n {
                Some(sym(A))
            } else {
                tail.get(i - n - 1).map(|s| sym(*s))
            }
        }),
    )
}

fn constant(ctx: &mut Ctx, call: String, n: i64, d: i64, mk: impl FnOnce() -> Number) -> R {
    let e = expect(n as i128, d as i128);
    ctx.note(|| format!("{} = {}", call, e.show()));
    match guard(|| drain(mk(), e, ctx)) {
        Ok(r) => r.map_err(|m| format!("{}: {}, expected {}", call, m, e.show())),
        Err(p) => Err(format!("{}: got {}, expected {}", call, p.show(), e.show())),
    }
}

/// The quotient of two multiples of x does not depend on x, and no coefficient grows however
/// far a run of amplifies is read.
pub fn transformations() -> Space {
    let m = ints(3);
    space(
        "long-constants",
        format!("a x / b x for all a and b from -3 to 3, x with {N} amplifies and 3 tails x primers"),
        49 * 4 * 3,
        move |i, ctx| {
            let mut d = Dec(i);
            let (a, b) = (d.of(&m), d.of(&m));
            let (p, k) = (d.n(4) as u8, d.n(3) as usize);
            if b == 0 {
                return ctx.skip();
            }
            let call = format!("homographic('{}A^{N}{}'; {a}, 0, {b}, 0)", primer_name(p), word_str(TAILS[k]));
            constant(ctx, call, a, b, || hom_make(run(p, N, TAILS[k]), &[a, 0, b, 0]))
        },
    )
}

pub fn combinations() -> Space {
    space(
        "long-constants",
        format!("the constants 1, -1 and 0 as a quotient of multiples of xy, x or y, operands with {M} amplifies and 2 tails x primers"),
        3 * 3 * 16 * 2,
        move |i, ctx| {
            let mut d = Dec(i);
            let j = d.n(3) as usize;
            let v = d.n(3) as i64 - 1;
            let (p, q, k) = (d.n(4) as u8, d.n(4) as u8, d.n(2) as usize);
            let mut c = [0; 8];
            c[j] = v;
            c[j + 4] = 1;
            let call = format!(
                "combine('{}A^{M}{}', '{}A^{M}'; {:?})",
                primer_name(p),
                word_str(TAILS[k]),
                primer_name(q),
                c
            );
            constant(ctx, call, v, 1, || comb_make(run(p, M, TAILS[k]), run(q, M, &[]), &c))
        },
    )
}

fn signs() -> Space {
    space(
        "long-signs",
        format!("8 coefficient choices on the 6 unending streams of period up to 2 x primers, {N} symbols each"),
        8 * 4 * 6,
        move |i, ctx| {
            let mut d = Dec(i);
            let k = d.n(8) as usize;
            let p = d.n(4) as u8;
            sign_case(ctx, k, Stream { primer: p, head: vec![], period: word_at(d.0 + 1) }, N)
        },
    )
}

fn comparisons() -> Space {
    let tails: [&[u8]; 3] = [&[], &[A], &[U]];
    space(
        "long-comparisons",
        format!("comparison of streams equal in {N} symbols, 6 periods x all pairs of tails x primers"),
        6 * 9 * 4,
        move |i, ctx| {
            let mut d = Dec(i);
            let p = d.n(4) as u8;
            let (ta, tb) = (tails[d.n(3) as usize], tails[d.n(3) as usize]);
            let v = word_at(d.0 + 1);
            let mk = |t: &[u8]| {
                let mut head: Vec<u8> = (0..N).map(|k| v[k % v.len()]).collect();
                head.extend(t);
                Stream { primer: p, head, period: vec![] }
            };
            stream_compare(ctx, mk(ta), mk(tb), false, Some(format!("{}^k of {} symbols", word_str(&v), N)))
        },
    )
}

/// Numerator and denominator, as positions among the coefficients, of combinations that do not
/// depend on one operand and are the other one or its reciprocal.
const CANCELLED: [(usize, usize, bool, bool); 8] = [
    (0, 5, false, false),
    (2, 7, false, false),
    (0, 6, true, false),
    (1, 7, true, false),
    (1, 4, false, true),
    (3, 6, false, true),
    (2, 4, true, true),
    (3, 5, true, true),
];

/// The cases of cancellations: their number, and the one of an index.
pub const NCANCELLED: u64 = 8 * 16 * 6;
const KEPT: [&[u8]; 6] = [&[U], &[A, U], &[U, A], &[A, A, U], &[U, U, A], &[U, U, A, A, A]];

pub fn cancelled(i: u64) -> ([i64; 8], Stream, Stream, u8, Vec<u8>, String) {
    let mut d = Dec(i);
    let (p, q) = (d.n(4) as u8, d.n(4) as u8);
    // an operand that tends to zero (or infinity) must not make both parts vanish (or infinite)
    let large = q == TURN || q == GROUND;
    let (num, den, first, inverse) = CANCELLED[2 * d.n(4) as usize + !large as usize];
    let negative = d.n(2) == 1;
    let kept = Stream { primer: p, head: vec![], period: KEPT[d.0 as usize].to_vec() };
    let lost = Stream { primer: q, head: vec![], period: vec![A] };
    let mut c = [0; 8];
    c[num] = if negative { -1 } else { 1 };
    c[den] = 1;
    let want = SIGNS[4 * inverse as usize + 2 * negative as usize].1[p as usize];
    let w = kept.period.clone();
    let (x, y) = if first { (kept, lost) } else { (lost, kept) };
    let call = format!("combine({}, {}; {:?})", x.show(), y.show(), c);
    (c, x, y, want, w, call)
}

/// Combinations in which one operand cancels; if that one begins with a run of amplifies, no
/// coefficient grows however much is read.
pub fn cancellations() -> Space {
    space(
        "long-cancellations",
        format!("forms such as y/1 and xy/x that are one operand or its reciprocal, both signs, of an unending operand of 6 periods and a run of amplifies x primers, {N} symbols each unless coefficients overflow"),
        NCANCELLED,
        move |i, ctx| {
            let (c, x, y, want, w, call) = cancelled(i);
            ctx.note(|| format!("{}: primer '{}', {}...", call, primer_name(want), word_str(&w)));
            let mut got = 0;
            let r = guard(|| {
                let mut z = match comb_make(stream(&x, 2 * N), stream(&y, 2 * N), &c) {
                    Number::Other(p, z) if primer_code(&p) == want => z,
                    Number::Other(p, _) => return Err(format!("got primer {:?}", p)),
                    Number::Special(v) => return Err(format!("got special {:?}", v)),
                };
                for k in 0..N {
                    let s = z.egest().map(|s| code(&s));
                    if s != Some(w[k % w.len()]) {
                        return Err(format!("symbol {} is {:?}, expected {}", k, s, w[k % w.len()]));
                    }
                    got += 1;
                }
                Ok(())
            });
            ctx.transitions += got as u64;
            ctx.step(mix(i, got as u64));
            match r {
                Ok(Ok(())) => {
                    ctx.class(OK);
                    Ok(())
                }
                Ok(Err(m)) => Err(format!("{call}: {m}")),
                Err(Panic::Overflow(_)) if got >= 24 => {
                    ctx.class(OVERFLOW);
                    Ok(())
                }
                Err(p) => Err(format!("{call}: got {} after {got} symbols", p.show())),
            }
        },
    )
}
