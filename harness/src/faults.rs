//! Extraction that fails and is then tried again (C20).
//!
//! The failures are injected into the operands, one at every possible read,
//! or are genuine refusals to overflow.  Whatever is delivered afterwards is
//! compared with the representation the number must have.

use crate::critical::approaches;
use crate::engine::*;
use crate::model::*;
use crate::ops::Opd::*;
use crate::ops::*;
use crate::props::*;
use clarith::Number;
use std::cmp::Ordering;

/// A word whose reads at the positions in `fails` do not succeed at once.
fn flaky(p: u8, w: &[u8], mut fails: u64) -> Number {
    let w = w.to_vec();
    let mut i = 0;
    let s = source(move || {
        if fails >> i & 1 == 1 {
            fails &= !(1 << i);
            panic!("harness: operand fails");
        }
        let r = w.get(i).map(|s| sym(*s));
        i += 1;
        r
    });
    Number::Other(primer(p), s)
}

/// What is done with a number once its extraction has failed.
const AFTER: u64 = 5;

fn after_name(k: u64) -> &'static str {
    [
        "extracted again",
        "the rest consumed",
        "the rest transformed by 2,1,1,3",
        "the rest subtracted from 3/7",
        "the rest compared with its value",
    ][k as usize]
}

/// The value of n/d, or of the rest of it standing for a number in (0,1).
fn of_rest(r: Res) -> Option<(i128, i128)> {
    match r {
        Res::S(n, d) => Some((n as i128, d as i128)),
        Res::B(..) => None,
    }
}

/// Extract everything; a failed extraction is tried again, at most `tries`
/// times, or followed by another operation on what is left.  Once something
/// has failed anything may fail again, but what is delivered must be right.
fn steady(ctx: &mut Ctx, after: u64, tries: usize, make: impl FnOnce() -> Number, exp: Exp) -> R {
    let x = match guard(make) {
        Ok(x) => x,
        Err(Panic::DivZero) => return Err("got panic 'division by zero'".into()),
        Err(_) => {
            // the operands are gone: nothing can be tried again
            ctx.class(OVERFLOW);
            return Ok(());
        }
    };
    let (mut c, mut r) = match (x, exp) {
        (Number::Other(p, c), Exp::Other(e, r)) if primer_code(&p) == e => (c, r),
        (Number::Special(s), Exp::Special(e)) if special_code(&s) == e => {
            ctx.class(SPECIAL);
            return Ok(());
        }
        (Number::Special(s), _) => return Err(format!("got special {}", special_code(&s))),
        (Number::Other(p, _), _) => return Err(format!("got primer '{}'", primer_name(primer_code(&p)))),
    };
    let (mut failed, mut k, mut ended) = (0, 0, 0);
    ctx.state(r.hash());
    while ended < 3 {
        match guard(|| c.egest()) {
            Err(Panic::DivZero) => {
                return Err(format!("after {failed} failures and {k} symbols, got panic 'division by zero'"))
            }
            Err(_) if after == 0 => {
                failed += 1;
                if failed > tries {
                    ctx.class(OVERFLOW);
                    return Ok(());
                }
            }
            Err(_) => {
                let rest = match of_rest(r) {
                    Some(v) => v,
                    None => return Ok(()),
                };
                return elsewhere(ctx, after, c, rest).map_err(|m| format!("after a failure and {k} symbols: {m}"));
            }
            Ok(got) => {
                let got = got.map(|s| code(&s));
                let want = r.next();
                ctx.step(mix(r.hash(), failed as u64));
                if got != want {
                    let show = |s: Option<u8>| match s {
                        None => "the end",
                        Some(A) => "A",
                        _ => "U",
                    };
                    return Err(format!(
                        "after {failed} failures, symbol {k} is {}, expected {}",
                        show(got),
                        show(want)
                    ));
                }
                k += 1;
                ended += want.is_none() as u32;
            }
        }
    }
    ctx.class(OK);
    Ok(())
}

/// An operation on what is left of a number, worth n/d.
fn elsewhere(ctx: &mut Ctx, after: u64, c: clarith::Clog, (n, d): (i128, i128)) -> R {
    let x = Number::Other(None, c);
    if after == 1 {
        return match guard(|| Number::consume(x)) {
            Err(Panic::DivZero) => Err("got panic 'division by zero'".into()),
            Err(_) => {
                ctx.class(OVERFLOW);
                Ok(())
            }
            Ok((None, a, b, e, f)) => {
                // (a y + b) / (e y + f) at one half
                let (p, q) = (a as i128 + 2 * b as i128, e as i128 + 2 * f as i128);
                ctx.class(OK);
                match (p.checked_mul(d), q.checked_mul(n)) {
                    (Some(l), Some(r)) if l != r || q == 0 => Err(format!("consumed as {p}/{q}, expected {n}/{d}")),
                    _ => Ok(()),
                }
            }
            Ok(_) => {
                ctx.class(REST);
                Ok(())
            }
        };
    }
    if after == 4 {
        return match guard(|| Number::compare(x, Number::ratio_u(true, n as usize, d as usize))) {
            Err(Panic::DivZero) => Err("got panic 'division by zero'".into()),
            Err(_) => {
                ctx.class(OVERFLOW);
                Ok(())
            }
            Ok(Ordering::Equal) => {
                ctx.class(EQUAL);
                Ok(())
            }
            Ok(o) => Err(format!("compares as {o:?} with {n}/{d}")),
        };
    }
    let (e, z) = if after == 2 {
        let c = [2, 1, 1, 3];
        (hom_exp((n, d), &c), guard(|| hom_make(x, &c)))
    } else {
        let c = [0, -1, 1, 0, 0, 0, 0, 1];
        (comb_exp((n, d), (3, 7), &c), guard(|| comb_make(x, Number::ratio(3, 7), &c)))
    };
    let e = e.expect("no pole");
    match z {
        Err(Panic::DivZero) => Err("got panic 'division by zero'".into()),
        Err(_) => {
            ctx.class(OVERFLOW);
            Ok(())
        }
        Ok(z) => steady(ctx, 0, 4, || z, e),
    }
}

fn told(ctx: &mut Ctx, call: impl Fn() -> String, e: Exp, r: R) -> R {
    ctx.note(|| format!("{} = {}", call(), e.show()));
    r.map_err(|m| format!("{}: {}, whole result {}", call(), m, e.show()))
}

fn fails_str(f: u64, n: usize) -> String {
    (0..=n).filter(|i| f >> i & 1 == 1).map(|i| (i + 1).to_string()).collect::<Vec<_>>().join(",")
}

/// One failing read at each position, or all of them.
fn fails_at(k: u64, len: usize) -> Option<u64> {
    if k <= len as u64 {
        Some(1 << k)
    } else if k == len as u64 + 1 {
        Some((1 << (len + 1)) - 1)
    } else {
        None
    }
}

fn hom_flaky(ctx: &mut Ctx, after: u64, p: u8, w: &[u8], f: u64, c: &[i64; 4]) -> R {
    let e = match hom_exp(Word(p, w.to_vec()).value(), c) {
        Some(e) => e,
        None => return ctx.skip(),
    };
    let call = || {
        format!(
            "homographic('{}{}' failing once at reads {}; {:?}), {}",
            primer_name(p),
            word_str(w),
            fails_str(f, w.len()),
            c,
            after_name(after)
        )
    };
    let r = steady(ctx, after, w.len() + 5, || hom_make(flaky(p, w, f), c), e);
    told(ctx, call, e, r)
}

#[allow(clippy::too_many_arguments)]
fn comb_flaky(ctx: &mut Ctx, after: u64, x: (u8, &[u8], u64), y: (u8, &[u8], u64), c: &[i64; 8]) -> R {
    let e = match comb_exp(Word(x.0, x.1.to_vec()).value(), Word(y.0, y.1.to_vec()).value(), c) {
        Some(e) => e,
        None => return ctx.skip(),
    };
    let show = |x: (u8, &[u8], u64)| {
        format!("'{}{}' failing once at reads [{}]", primer_name(x.0), word_str(x.1), fails_str(x.2, x.1.len()))
    };
    let call = || format!("combine({}, {}; {:?}), {}", show(x), show(y), c, after_name(after));
    let tries = x.1.len() + y.1.len() + 8;
    let r = steady(ctx, after, tries, || comb_make(flaky(x.0, x.1, x.2), flaky(y.0, y.1, y.2), c), e);
    told(ctx, call, e, r)
}

pub fn c20(t: bool) -> Vec<Space> {
    let mut v = vec![];
    if HOOK {
        let l = pick(t, 4, 6) as u32;
        let nw = nwords(l);
        let al = ints(2);
        let na = al.len() as u64;
        let pos = l as u64 + 2;
        v.push(space(
            "transformation-operand-fails",
            format!("all quadruples up to {} x all operands of length <= {l} x primers x a failing read at every position, or at all of them, x {AFTER} continuations", na / 2),
            na.pow(4) * 4 * pos * AFTER * nw,
            move |i, ctx| {
                let mut d = Dec(i);
                let c = quad(&mut d, &al);
                let (p, k, after) = (d.n(4) as u8, d.n(pos), d.n(AFTER));
                let w = word_at(d.0);
                match fails_at(k, w.len()) {
                    None => ctx.skip(),
                    Some(f) => hom_flaky(ctx, after, p, &w, f, &c),
                }
            },
        ));
        let l = pick(t, 3, 4) as u32;
        let nw = nwords(l);
        let pos = l as u64 + 3;
        let nf = pick(t, 9, 40) as u64;
        v.push(space(
            "combination-operand-fails",
            format!("{nf} forms x all pairs of operands of length <= {l} x primers x failing reads at every position of either operand, of both, or all, x {AFTER} continuations"),
            nf * 16 * pos * pos * AFTER * nw * nw,
            move |i, ctx| {
                let mut d = Dec(i);
                let c = FORMS[d.n(nf) as usize];
                let (p, q) = (d.n(4) as u8, d.n(4) as u8);
                let (j, k, after) = (d.n(pos), d.n(pos), d.n(AFTER));
                let (x, y) = (word_at(d.n(nw)), word_at(d.0));
                let f = |k: u64, n: usize| if k == 0 { Some(0) } else { fails_at(k - 1, n) };
                match (f(j, x.len()), f(k, y.len())) {
                    (Some(j), Some(k)) if j | k != 0 => comb_flaky(ctx, after, (p, &x, j), (q, &y, k), &c),
                    _ => ctx.skip(),
                }
            },
        ));
        let l = pick(t, 7, 9) as u32;
        let nw = nwords(l);
        let pos = l as u64 + 2;
        v.push(space(
            "operand-fails-directly",
            format!("consumption, transformation, subtraction and comparison of all numbers of length <= {l} x a failing read at every position, or at all of them"),
            4 * pos * nw,
            move |i, ctx| {
                let mut d = Dec(i);
                let (k, after) = (d.n(pos), 1 + d.n(4));
                let w = word_at(d.0);
                let f = match fails_at(k, w.len()) {
                    None => return ctx.skip(),
                    Some(f) => f,
                };
                let (n, m) = word_value(&w);
                let call = || format!("'{}' failing once at reads {}, {}", word_str(&w), fails_str(f, w.len()), after_name(after));
                ctx.note(call);
                let (_, c) = flaky(NONE, &w, f).unwrap_other();
                elsewhere(ctx, after, c, (n as i128, m as i128)).map_err(|e| format!("{}: {}", call(), e))
            },
        ));
        let al: Vec<i64> = vec![0, 1, -2];
        let ws = [vec![], vec![U], vec![A, U, U], vec![U, A]];
        v.push(space(
            "combination-coefficients",
            "all octuples of 0, 1, -2 x 4 x 4 operands x primers of both the same x every third read failing, or all",
            3u64.pow(8) * 4 * 16 * 4,
            move |i, ctx| {
                let mut d = Dec(i);
                let c = oct(&mut d, &al);
                let p = d.n(4) as u8;
                let (x, y) = (&ws[d.n(4) as usize], &ws[d.n(4) as usize]);
                let f = [0o111, 0o222, 0o444, 0o777][d.0 as usize];
                comb_flaky(ctx, 0, (p, x, f), (p, y, f << 1), &c)
            },
        ));
        let l = pick(t, 4, 5) as u32;
        let nw = nwords(l);
        let pos = l as u64 + 2;
        v.push(space(
            "nested",
            format!("6 x 6 x 3 towers of transformation, combination and transformation x all operands of length <= {l} x primers x failing reads at every position x {AFTER} continuations"),
            108 * 4 * pos * AFTER * nw,
            move |i, ctx| {
                let mut d = Dec(i);
                const T: [[i64; 4]; 6] = [[2, 1, 0, 1], [1, 0, 0, 3], [0, 1, 1, 0], [-1, 2, 0, 1], [3, 1, 2, 5], [1, 0, 0, 1]];
                let (h, g, f) = (d.of(&T), d.of(&T), FORMS[d.n(3) as usize]);
                let (p, k, after) = (d.n(4) as u8, d.n(pos), d.n(AFTER));
                let w = word_at(d.0);
                let fails = match fails_at(k, w.len()) {
                    None => return ctx.skip(),
                    Some(f) => f,
                };
                let val = |e: Option<Exp>| match e {
                    Some(Exp::Other(p, Res::S(n, d))) => Some(primed_value(p, n as u128, d as u128)),
                    Some(Exp::Special(s)) => Some((s as i128, 1)),
                    _ => None,
                };
                let e = match val(hom_exp(Word(p, w.clone()).value(), &h))
                    .and_then(|x| val(comb_exp(x, (3, 7), &f)))
                    .and_then(|x| hom_exp(x, &g))
                {
                    None => return ctx.skip(),
                    Some(e) => e,
                };
                let mk = || hom_make(comb_make(hom_make(flaky(p, &w, fails), &h), Number::ratio(3, 7), &f), &g);
                let call = || {
                    format!(
                        "{:?} of {:?} with 3/7 of {:?} of '{}{}' failing once at reads {}, {}",
                        g,
                        f,
                        h,
                        primer_name(p),
                        word_str(&w),
                        fails_str(fails, w.len()),
                        after_name(after)
                    )
                };
                let r = steady(ctx, after, w.len() + 8, mk, e);
                told(ctx, call, e, r)
            },
        ));
    }
    // genuine overflow
    let mut big: Vec<i64> = vec![0, 1, -1, 3, 1 << 30, 1 << 31, -(1 << 61), 1 << 62, i64::MAX - 1, i64::MAX, i64::MIN];
    if t {
        big.extend([2, -(1 << 31), 1 << 61, i64::MAX / 3]);
    }
    let nb = big.len() as u64;
    let ops: Vec<(i64, i64)> = vec![
        (1, 2),
        (-1, 2),
        (2, 3),
        (-3, 4),
        (7, 5),
        (-5, 1),
        (i64::MAX, 1),
        (1, i64::MAX),
        (i64::MIN, i64::MAX),
        (i64::MAX - 1, i64::MAX),
        (1, 1 << 40),
        (123456789, 987654321),
    ];
    let no = ops.len() as u64;
    v.push(space(
        "transformation-overflows",
        format!("all quadruples of {nb} coefficients up to the limits x {no} operands of all sizes x 3 continuations"),
        nb.pow(4) * no * 3,
        move |i, ctx| {
            let mut d = Dec(i);
            let c = quad(&mut d, &big);
            let after = d.n(3) * 2;
            let (p, q) = ops[d.0 as usize];
            overflow_hom(ctx, after, &Ratio(p, q), &c)
        },
    ));
    let nu = nwords(2);
    let nv = nwords(4) - 1;
    let max = 58u64;
    let al = ints(pick(t, 1, 2));
    let na = al.len() as u64;
    v.push(space(
        "long-operands",
        format!("all quadruples up to {} x operands u v^k of every third length up to {max} (|u| <= 2, |v| <= 4) x primers", na / 2),
        na.pow(4) * 4 * nu * nv * (max / 3),
        move |i, ctx| {
            let mut d = Dec(i);
            let c = quad(&mut d, &al);
            let p = d.n(4) as u8;
            let (mut w, z) = (word_at(d.n(nu)), word_at(d.n(nv) + 1));
            let k = w.len();
            while w.len() < 4 + 3 * d.0 as usize {
                w.push(z[(w.len() - k) % z.len()]);
            }
            overflow_hom(ctx, 0, &Word(p, w), &c)
        },
    ));
    let ws: Vec<Vec<u8>> = approaches(0, 48).into_iter().step_by(pick(t, 3, 1) as usize).collect();
    let nw = ws.len() as u64;
    v.push(space(
        "combination-overflows",
        format!("20 forms x {nw} operands of every length up to 48 x primers x 24 operands of three lengths"),
        20 * 16 * nw * 24,
        move |i, ctx| {
            let mut d = Dec(i);
            let c = FORMS[d.n(20) as usize];
            let (p, q) = (d.n(4) as u8, d.n(4) as u8);
            let x = &ws[d.n(nw) as usize];
            let z = word_at(d.n(8) + 1);
            let y: Vec<u8> = (0..[9, 24, 44][d.0 as usize]).map(|k| z[k % z.len()]).collect();
            overflow_comb(ctx, &Word(p, x.clone()), &Word(q, y), &c)
        },
    ));
    let rs: Vec<(i64, i64)> = vec![(2, 3), (-9, 4), (123456789, 987654321)];
    let nr = rs.len() as u64;
    v.push(space(
        "combination-scales",
        format!("40 forms with every coefficient in turn, or all, moved to every scale 2^k (and next to it), x all pairs of {nr} operands"),
        40 * 9 * 62 * 3 * 2 * nr * nr,
        move |i, ctx| {
            let mut d = Dec(i);
            let mut c = FORMS[d.n(40) as usize];
            let pos = d.n(9) as usize;
            let k = d.n(62);
            let e = d.n(3) as i64 - 1;
            let s = if d.n(2) == 0 { 1i64 } else { -1 };
            let (x, y) = (d.of(&rs), d.of(&rs));
            for j in 0..8 {
                if pos == j {
                    c[j] = (s * (1i64 << k)).wrapping_add(e);
                }
                if pos == 8 {
                    match c[j].checked_mul(s * (1i64 << k)) {
                        Some(v) => c[j] = v,
                        None => return ctx.skip(),
                    }
                }
            }
            overflow_comb(ctx, &Ratio(x.0, x.1), &Ratio(y.0, y.1), &c)
        },
    ));
    v
}

const TRIES: usize = 3;

fn overflow_hom(ctx: &mut Ctx, after: u64, x: &Opd, c: &[i64; 4]) -> R {
    let e = match hom_exp(x.value(), c) {
        Some(e) => e,
        None => return ctx.skip(),
    };
    let r = steady(ctx, after, TRIES, || hom_make(x.make(), c), e);
    told(ctx, || format!("homographic({}; {:?}), {}", x.show(), c, after_name(after)), e, r)
}

fn overflow_comb(ctx: &mut Ctx, x: &Opd, y: &Opd, c: &[i64; 8]) -> R {
    let e = match comb_exp(x.value(), y.value(), c) {
        Some(e) => e,
        None => return ctx.skip(),
    };
    let r = steady(ctx, 0, TRIES, || comb_make(x.make(), y.make(), c), e);
    told(ctx, || format!("combine({}, {}; {:?}), extracted again", x.show(), y.show(), c), e, r)
}
