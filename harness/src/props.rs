//! The spaces explored for each property.

use crate::big::{I256, U256};
use crate::critical::*;
use crate::engine::*;
use crate::model::*;
use crate::monitor::*;
use crate::ops::*;
use clarith::Number;
use std::cell::Cell;
use std::cmp::Ordering;
use std::rc::Rc;
use Opd::*;

pub fn spaces(prop: &str, t: bool) -> Vec<Space> {
    match prop {
        "C01" => c01(t),
        "C02" => crate::histories::c02(t),
        "C03" => c03(t),
        "C04" => c04(t),
        "C05" => c05(t),
        "C06" => c06(t),
        "C07" => c07(t),
        "C08" => c08(What::Soundness, t),
        "C09" => c08(What::Demand, t),
        "C10" => c10(t),
        "C11" => c11(t),
        "C12" => c12(t),
        "C13" => crate::histories::c13(t),
        "C14" => crate::histories::c14(t),
        "C15" => c15(t),
        "C17" => c17(t),
        "C18" => crate::quadratic::c18(t),
        "C19" => crate::memory::c19(t),
        "C20" => crate::faults::c20(t),
        _ => vec![],
    }
}

pub fn pick(t: bool, quick: i64, thorough: i64) -> i64 {
    if t {
        thorough
    } else {
        quick
    }
}

/// All quadruples from an alphabet, by index.
pub fn quad(d: &mut Dec, al: &[i64]) -> [i64; 4] {
    let mut c = [0; 4];
    for k in 0..4 {
        c[k] = d.of(al);
    }
    c
}

pub fn oct(d: &mut Dec, al: &[i64]) -> [i64; 8] {
    let mut c = [0; 8];
    for k in 0..8 {
        c[k] = d.of(al);
    }
    c
}

// ---------------------------------------------------------------- C01

/// A ratio must be the representation of its value.
fn ratio_case(ctx: &mut Ctx, o: Opd) -> R {
    let (n, d) = o.value();
    let e = expect(n, d);
    ctx.note(|| format!("{} = {}", o.show(), e.show()));
    match guard(|| drain(o.make(), e, ctx)) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(m)) => Err(m),
        Err(p) => Err(format!("got {}", p.show())),
    }
    .map_err(|m| format!("{}: {}, expected {}", o.show(), m, e.show()))
}

fn c01(t: bool) -> Vec<Space> {
    let mut v = vec![];
    let b = pick(t, 1100, 4000) as u64;
    v.push(space(
        "signed-box",
        format!("ratio(n, d) for all |n| <= {b}, 0 < |d| <= {b}"),
        (2 * b + 1) * 2 * b,
        move |i, ctx| {
            let mut d = Dec(i);
            let q = d.n(2 * b) as i64;
            let q = if q % 2 == 0 { q / 2 + 1 } else { -(q / 2 + 1) };
            let p = d.0 as i64;
            let p = if p % 2 == 0 { p / 2 } else { -(p / 2 + 1) };
            ratio_case(ctx, Ratio(p, q))
        },
    ));
    v.push(space(
        "unsigned-box",
        format!("ratio_u(s, n, d) for both s and all n <= {b}, 0 < d <= {b}"),
        2 * (b + 1) * b,
        move |i, ctx| {
            let mut d = Dec(i);
            let s = d.n(2) == 0;
            let q = d.n(b) + 1;
            ratio_case(ctx, RatioU(s, d.0, q))
        },
    ));
    let l = pick(t, 19, 23) as u32;
    v.push(space(
        "words",
        format!("all reduction sequences of length <= {l}, under all primers, rebuilt from their value"),
        4 * nwords(l),
        move |i, ctx| {
            let mut d = Dec(i);
            let p = d.n(4) as u8;
            let w = word_at(d.0);
            let (n, q) = word_value(&w);
            let o = match p {
                NONE => RatioU(true, n as u64, q as u64),
                TURN => RatioU(true, q as u64, n as u64),
                REFLECT => RatioU(false, n as u64, q as u64),
                _ => RatioU(false, q as u64, n as u64),
            };
            let e = Exp::Other(p, Res::new(n, q));
            // the model itself must give the word back
            if e != expect(o.value().0, o.value().1) || Res::new(n, q).word() != w {
                panic!("model is inconsistent");
            }
            ratio_case(ctx, o)
        },
    ));
    let lat = lattice_u(pick(t, 2, 5));
    let n = lat.len() as u64;
    let lat2 = lat.clone();
    v.push(space(
        "lattice-unsigned",
        format!("ratio_u over all pairs of {n} integers near powers of two, limits and other shapes"),
        2 * n * n,
        move |i, ctx| {
            let mut d = Dec(i);
            let s = d.n(2) == 0;
            let (p, q) = (d.of(&lat), d.of(&lat));
            if q == 0 {
                return ctx.skip();
            }
            ratio_case(ctx, RatioU(s, p, q))
        },
    ));
    v.push(space(
        "lattice-signed",
        "the same with ratio, all signs, including the smallest integer",
        4 * n * n,
        move |i, ctx| {
            let mut d = Dec(i);
            let (s1, s2) = (d.n(2) == 0, d.n(2) == 0);
            let (p, q) = (d.of(&lat2), d.of(&lat2));
            let f = |s: bool, v: u64| {
                let v = if s { v as i128 } else { -(v as i128) };
                i64::try_from(v).ok()
            };
            match (f(s1, p), f(s2, q)) {
                (Some(p), Some(q)) if q != 0 => ratio_case(ctx, Ratio(p, q)),
                _ => ctx.skip(),
            }
        },
    ));
    let rs = rats(pick(t, 40, 120));
    let n = rs.len() as u64;
    let mut ks: Vec<u64> = vec![];
    for k in 0..64 {
        ks.push(1 << k);
        ks.push(3 << k >> 1);
    }
    for k in [3, 5, 7, 9, 11, 15, 17, 33, 97, 121, 255, 1001, 65537, 1_000_000_007] {
        ks.push(k);
    }
    ks.push(u64::MAX);
    ks.sort();
    ks.dedup();
    let nk = ks.len() as u64;
    v.push(space(
        "common-factors",
        format!("k*p / k*q for {n} reduced p/q and {nk} factors k (largest fitting if too big)"),
        n * nk,
        move |i, ctx| {
            let mut d = Dec(i);
            let (p, q) = d.of(&rs);
            let k = d.of(&ks);
            let k = k.min(u64::MAX / p.unsigned_abs().max(q as u64));
            ratio_case(ctx, RatioU(p >= 0, p.unsigned_abs() * k, q as u64 * k))?;
            let k = k.min(i64::MAX as u64 / p.unsigned_abs().max(q as u64)) as i64;
            ratio_case(ctx, Ratio(p * k, q * k))?;
            ratio_case(ctx, Ratio(-p * k, q * -k))
        },
    ));
    v.push(space(
        "shifted",
        "(a << i) / (b << j) for odd a, b < 64 and all i, j that fit",
        32 * 32 * 64 * 64,
        |i, ctx| {
            let mut d = Dec(i);
            let (s, u) = (d.n(64), d.n(64));
            let (a, b) = (2 * d.n(32) + 1, 2 * d.n(32) + 1);
            if a.leading_zeros() < s as u32 || b.leading_zeros() < u as u32 {
                return ctx.skip();
            }
            ratio_case(ctx, RatioU(i % 2 == 0, a << s, b << u))
        },
    ));
    v
}

// ---------------------------------------------------------------- C03, C04

fn ord_class(ctx: &mut Ctx, o: Ordering) {
    ctx.class(match o {
        Ordering::Less => LESS,
        Ordering::Equal => EQUAL,
        Ordering::Greater => GREATER,
    });
}

pub fn order(a: (i128, i128), b: (i128, i128)) -> Ordering {
    let f = |(n, d): (i128, i128)| if d < 0 { (big(n).mul(&big(-1)), big(-d)) } else { (big(n), big(d)) };
    let (a, b) = (f(a), f(b));
    a.0.mul(&b.1).cmp(&b.0.mul(&a.1))
}

/// Order of two streams by their values: position in the list of regions,
/// then the first difference, reversed once per Uncover and for primers that reverse.
fn stream_order(x: &Stream, y: &Stream, limit: usize) -> (Ordering, usize) {
    let region = |p: u8| [2, 3, 1, 0][p as usize];
    if x.primer != y.primer {
        return (region(x.primer).cmp(&region(y.primer)), 0);
    }
    let mut flip = x.primer == TURN || x.primer == REFLECT;
    let rank = |s: Option<u8>| match s {
        Some(A) => 0,
        None => 1,
        _ => 2,
    };
    for i in 0..limit {
        let (a, b) = (x.at(i), y.at(i));
        if a != b {
            let o = rank(a).cmp(&rank(b));
            return (if flip { o.reverse() } else { o }, i);
        }
        match a {
            None => return (Ordering::Equal, i),
            Some(U) => flip = !flip,
            _ => {}
        }
    }
    panic!("harness: streams do not differ");
}

fn compare_case(ctx: &mut Ctx, a: &Opd, b: &Opd) -> R {
    let want = order(a.value(), b.value());
    compare_made(ctx, || (a.make(), b.make()), want, || {
        format!("compare({}, {})", a.show(), b.show())
    })
}

fn compare_made(
    ctx: &mut Ctx,
    mk: impl FnOnce() -> (Number, Number),
    want: Ordering,
    call: impl Fn() -> String,
) -> R {
    ctx.note(|| format!("{} = {:?}", call(), want));
    ord_class(ctx, want);
    let got = guard(|| {
        let (a, b) = mk();
        Number::compare(a, b)
    });
    match got {
        Ok(o) if o == want => Ok(()),
        Ok(o) => Err(format!("{}: got {:?}, expected {:?}", call(), o, want)),
        Err(p) => Err(format!("{}: got {}, expected {:?}", call(), p.show(), want)),
    }
}

fn c03(t: bool) -> Vec<Space> {
    let mut v = vec![];
    let l = pick(t, 8, 11) as u32;
    let nw = nwords(l);
    v.push(space(
        "word-pairs",
        format!("all pairs of reduction sequences of length <= {l} under the same primer"),
        4 * nw * nw,
        move |i, ctx| {
            let mut d = Dec(i);
            let p = d.n(4) as u8;
            let (a, b) = (word_at(d.n(nw)), word_at(d.0));
            let (va, vb) = (word_value(&a), word_value(&b));
            ctx.step(mix(mix(va.0 as u64, va.1 as u64), mix(vb.0 as u64, vb.1 as u64) ^ p as u64));
            compare_case(ctx, &Word(p, a), &Word(p, b))
        },
    ));
    let rs = rats(pick(t, 45, 90));
    let n = rs.len() as u64;
    v.push(space(
        "ratio-pairs",
        format!("all pairs of {n} ratios in all regions, including the special values"),
        n * n,
        move |i, ctx| {
            let mut d = Dec(i);
            let (a, b) = (d.of(&rs), d.of(&rs));
            ctx.step(mix(mix(a.0 as u64, a.1 as u64), mix(b.0 as u64, b.1 as u64)));
            compare_case(ctx, &Ratio(a.0, a.1), &Ratio(b.0, b.1))
        },
    ));
    let ex = extremes();
    let mut vals = vec![];
    for p in &ex {
        for q in &ex {
            if *q > 0 {
                vals.push((*p, *q));
            }
        }
    }
    let vals: Vec<_> = if t { vals } else { vals.into_iter().step_by(1).take(700).collect() };
    let n = vals.len() as u64;
    v.push(space(
        "extreme-pairs",
        format!("all pairs of {n} ratios of extreme integers (many differ only far down)"),
        n * n,
        move |i, ctx| {
            let mut d = Dec(i);
            let (a, b) = (d.of(&vals), d.of(&vals));
            ctx.step(mix(mix(a.0 as u64, a.1 as u64), mix(b.0 as u64, b.1 as u64)));
            compare_case(ctx, &Ratio(a.0, a.1), &Ratio(b.0, b.1))
        },
    ));
    let near = lattice_u(1);
    let n = near.len() as u64;
    v.push(space(
        "neighbours",
        format!("n/d against (n+i)/(d+j), |i|,|j| <= 1, for all pairs of {n} integers"),
        n * n * 9 * 2,
        move |i, ctx| {
            let mut d = Dec(i);
            let s = d.n(2) == 0;
            let (dp, dq) = (d.n(3) as i128 - 1, d.n(3) as i128 - 1);
            let (p, q) = (d.of(&near) as i128, d.of(&near) as i128);
            let (p2, q2) = (p + dp, q + dq);
            let ok = |x: i128| x >= 0 && x <= u64::MAX as i128;
            if !ok(p2) || !ok(q2) || q == 0 || q2 == 0 {
                return ctx.skip();
            }
            ctx.step(mix(mix(p as u64, q as u64), mix(p2 as u64, q2 as u64)));
            compare_case(
                ctx,
                &RatioU(s, p as u64, q as u64),
                &RatioU(s, p2 as u64, q2 as u64),
            )
        },
    ));
    // results of other constructors against ratios
    let rs = rats(pick(t, 10, 16));
    let n = rs.len() as u64;
    v.push(space(
        "mixed-constructors",
        format!("sums, products, quotients and transformations of {n} ratios against each ratio and each other"),
        n * n * n * 4,
        move |i, ctx| {
            let mut d = Dec(i);
            let k = d.n(4) as usize;
            let (a, b, c) = (d.of(&rs), d.of(&rs), d.of(&rs));
            let (pa, qa, pb, qb) = (a.0 as i128, a.1 as i128, b.0 as i128, b.1 as i128);
            let mk = |v: (i64, i64)| Number::ratio(v.0 as isize, v.1 as isize);
            let val = match k {
                0 => (pa * qb + pb * qa, qa * qb),
                1 => (pa * pb, qa * qb),
                2 => (pa * qb, qa * pb),
                _ => (2 * pa + qa, pa - 3 * qa),
            };
            if val.1 == 0 {
                return ctx.skip();
            }
            let z = || match k {
                0 => comb_make(mk(a), mk(b), &FORMS[0]),
                1 => comb_make(mk(a), mk(b), &FORMS[2]),
                2 => comb_make(mk(a), mk(b), &FORMS[3]),
                _ => hom_make(mk(a), &[2, 1, 1, -3]),
            };
            let cv = (c.0 as i128, c.1 as i128);
            ctx.step(mix(mix(val.0 as u64, val.1 as u64), mix(c.0 as u64, c.1 as u64)));
            let name = || {
                let f = ["x+y", "x*y", "x/y", "(2x+1)/(x-3)"][k];
                format!("compare({f} with x={a:?} y={b:?}, ratio{c:?})")
            };
            if i % 2 == 0 {
                compare_made(ctx, || (z(), mk(c)), order(val, cv), name)
            } else {
                compare_made(ctx, || (mk(c), z()), order(cv, val), name)
            }
        },
    ));
    if HOOK {
        v.push(long_streams(t, false));
    }
    v
}

/// Streams with long common prefixes: u v^k then different tails.
fn long_streams(t: bool, count: bool) -> Space {
    let nu = nwords(2);
    let nv = nwords(3) - 1;
    let mut lens: Vec<usize> = (0..=72).collect();
    lens.extend([100, 127, 128, 129, 200, 255, 256, 257, 500, 999, 1000, 1023, 1024, 1025, 4096]);
    if t {
        lens.extend([32767, 32768, 65535, 65536, 65537, 100_000]);
    }
    let tails: Vec<(Vec<u8>, Vec<u8>)> = vec![
        (vec![], vec![]),
        (vec![A], vec![]),
        (vec![U], vec![]),
        (vec![], vec![A]),
        (vec![], vec![U]),
        (vec![A, U], vec![]),
        (vec![U, A], vec![]),
    ];
    let nl = lens.len() as u64;
    let nt = tails.len() as u64;
    space(
        "long-common-prefix",
        format!("streams u v^k (|u| <= 2, 1 <= |v| <= 3) cut at {nl} lengths up to {}, continued by all pairs of {nt} finite or unending tails, under all primers", lens.last().unwrap()),
        4 * nu * nv * nl * nt * nt,
        move |i, ctx| {
            let mut d = Dec(i);
            let p = d.n(4) as u8;
            let (ta, tb) = (d.n(nt) as usize, d.n(nt) as usize);
            if ta == tb && !tails[ta].1.is_empty() {
                return ctx.skip();
            }
            let (u, w) = (word_at(d.n(nu)), word_at(d.n(nv) + 1));
            let len = d.of(&lens);
            let mut head = u.clone();
            while head.len() < len + u.len() {
                head.push(w[(head.len() - u.len()) % w.len()]);
            }
            let mk = |t: usize| {
                let mut h = head.clone();
                h.extend(&tails[t].0);
                Stream { primer: p, head: h, period: tails[t].1.clone() }
            };
            let show = format!("prefix {}+{}^k cut at {}", word_str(&u), word_str(&w), len);
            stream_compare(ctx, mk(ta), mk(tb), count, Some(show))
        },
    )
}

/// Compare two streams; if counting, judge how much was read.
pub fn stream_compare(ctx: &mut Ctx, x: Stream, y: Stream, count: bool, show: Option<String>) -> R {
    let limit = x.head.len().max(y.head.len()) + 40;
    let (want, pos) = stream_order(&x, &y, limit);
    ctx.transitions += pos as u64;
    ctx.step(mix(mix(ta_hash(&x), ta_hash(&y)), pos as u64));
    let cx = Rc::new(Cell::new(0usize));
    let cy = Rc::new(Cell::new(0usize));
    let call = || match &show {
        Some(s) => format!(
            "compare of streams with {s}, primer '{}', tails {} / {}",
            primer_name(x.primer),
            word_str(&x.period),
            word_str(&y.period)
        ),
        None => format!("compare({}, {})", x.show(), y.show()),
    };
    let feed = |s: &Stream, c: &Rc<Cell<usize>>| {
        let (s, c) = (s.clone(), Rc::clone(c));
        Number::Other(
            primer(s.primer),
            source(move || {
                let i = c.get();
                if i > limit + 100_000 {
                    panic!("harness: reads without end");
                }
                let r = s.at(i);
                if r.is_some() {
                    c.set(i + 1);
                }
                r.map(sym)
            }),
        )
    };
    if !count {
        return compare_made(ctx, || (feed(&x, &cx), feed(&y, &cy)), want, call);
    }
    ctx.note(|| format!("{}: at most {} symbols", call(), pos + 1));
    ord_class(ctx, want);
    let r = guard(|| Number::compare(feed(&x, &cx), feed(&y, &cy)));
    let allowed = if x.primer != y.primer { 0 } else { pos + 1 };
    let worst = cx.get().max(cy.get());
    if worst > allowed {
        return Err(format!(
            "{}: {} and {} symbols are extracted, but {} decide",
            call(),
            cx.get(),
            cy.get(),
            allowed
        ));
    }
    if let Err(p) = r {
        return Err(format!("{}: got {}", call(), p.show()));
    }
    Ok(())
}

fn ta_hash(s: &Stream) -> u64 {
    let mut h = 7 + s.primer as u64;
    for c in s.head.iter().rev().take(64) {
        h = mix(h, *c as u64);
    }
    h = mix(h, s.head.len() as u64);
    for c in &s.period {
        h = mix(h, 2 + *c as u64);
    }
    h
}

fn c04(t: bool) -> Vec<Space> {
    let mut v = vec![];
    if !HOOK {
        // without observable streams only the consequences are checked
        return c03(t);
    }
    let l = pick(t, 6, 8) as u32;
    let nw = nwords(l);
    // tails: end, A..., U..., AU...
    let tails: [&[u8]; 4] = [&[], &[A], &[U], &[A, U]];
    v.push(space(
        "stream-pairs",
        format!("all pairs of streams with heads of length <= {l}, same primer, ended or unending tails"),
        4 * 16 * nw * nw,
        move |i, ctx| {
            let mut d = Dec(i);
            let p = d.n(4) as u8;
            let (ta, tb) = (d.n(4) as usize, d.n(4) as usize);
            let (a, b) = (word_at(d.n(nw)), word_at(d.0));
            let mk = |w: Vec<u8>, t: usize| Stream { primer: p, head: w, period: tails[t].to_vec() };
            let (x, y) = (mk(a, ta), mk(b, tb));
            if !x.period.is_empty() && (0..l as usize + 4).all(|k| x.at(k) == y.at(k)) {
                return ctx.skip(); // equal unending streams
            }
            stream_compare(ctx, x, y, true, None)
        },
    ));
    let l = pick(t, 3, 4) as u32;
    let nw = nwords(l);
    v.push(space(
        "primers-decide",
        format!("all pairs of streams with heads of length <= {l} under different primers"),
        16 * 16 * nw * nw,
        move |i, ctx| {
            let mut d = Dec(i);
            let (pa, pb) = (d.n(4) as u8, d.n(4) as u8);
            if pa == pb {
                return ctx.skip();
            }
            let (ta, tb) = (d.n(4) as usize, d.n(4) as usize);
            let (a, b) = (word_at(d.n(nw)), word_at(d.0));
            let x = Stream { primer: pa, head: a, period: tails[ta].to_vec() };
            let y = Stream { primer: pb, head: b, period: tails[tb].to_vec() };
            stream_compare(ctx, x, y, true, None)
        },
    ));
    let l = pick(t, 8, 12) as u32;
    let nw = nwords(l);
    v.push(space(
        "specials-decide",
        format!("each special value against all streams with heads of length <= {l}"),
        3 * 2 * 4 * 4 * nw,
        move |i, ctx| {
            let mut d = Dec(i);
            let s = d.n(3) as i64 - 1;
            let first = d.n(2) == 0;
            let p = d.n(4) as u8;
            let period = tails[d.n(4) as usize].to_vec();
            let x = Stream { primer: p, head: word_at(d.0), period };
            let c = Rc::new(Cell::new(0usize));
            let c2 = Rc::clone(&c);
            let x2 = x.clone();
            let call = || format!("compare of special {} with {}", s, x.show());
            ctx.step(mix(ta_hash(&x), (s + 1) as u64));
            ctx.note(|| call() + ": nothing is extracted");
            let r = guard(|| {
                let n = Number::Other(
                    primer(p),
                    source(move || {
                        let k = c2.get();
                        c2.set(k + 1);
                        if k > 10_000 {
                            panic!("harness: reads without end");
                        }
                        x2.at(k).map(sym)
                    }),
                );
                let s = Number::ratio(s as isize, 1);
                if first {
                    Number::compare(s, n)
                } else {
                    Number::compare(n, s)
                }
            });
            if c.get() > 0 {
                return Err(format!("{}: {} symbols are extracted", call(), c.get()));
            }
            match r {
                Ok(o) => {
                    ord_class(ctx, o);
                    Ok(())
                }
                Err(p) => Err(format!("{}: got {}", call(), p.show())),
            }
        },
    ));
    v.push(long_streams(t, true));
    v
}

// ---------------------------------------------------------------- C05

fn hom_box(name: &'static str, pol: Policy, al: Vec<i64>, rs: Vec<(i64, i64)>) -> Space {
    let (na, nr) = (al.len() as u64, rs.len() as u64);
    space(
        name,
        format!(
            "all coefficient quadruples from {} values up to {} x {} operands up to {}",
            na,
            al.iter().map(|v| v.abs()).max().unwrap(),
            nr,
            rs.iter().map(|v| v.0.abs().max(v.1)).max().unwrap()
        ),
        na.pow(4) * nr,
        move |i, ctx| {
            let mut d = Dec(i);
            let c = quad(&mut d, &al);
            let (p, q) = rs[d.0 as usize];
            hom(ctx, pol, &Ratio(p, q), &c)
        },
    )
}

const SCALED_QUADS: u64 = 62 * 12 * 9 * 9 * 2;

/// Quadruples with coefficients near a power of two in two positions.
fn scaled_quad(d: &mut Dec) -> [i64; 4] {
    let k = d.n(62);
    let pos = d.n(12);
    let (a, b) = (d.n(9) as i64, d.n(9) as i64);
    let f = |v: i64| -> i64 { (v / 3 - 1).wrapping_mul(1i64 << k).wrapping_add(v % 3 - 1) };
    let mut c = [[1, 2, 1, 3], [0, 1, 1, 0]][d.n(2) as usize];
    let (i1, i2) = (pos / 3, pos % 3);
    let i2 = if i2 >= i1 { i2 + 1 } else { i2 };
    c[i1 as usize] = f(a);
    c[i2 as usize] = f(b);
    c
}

const SCALED_FORMS: u64 = 40 * 9 * 62 * 2 * 2;

/// The 40 forms with one coefficient at a power of two or next to it, or all of them multiplied.
fn scaled_form(d: &mut Dec) -> Option<[i64; 8]> {
    let mut c = FORMS[d.n(40) as usize];
    let pos = d.n(9) as usize;
    let k = d.n(62);
    let e = d.n(2) as i64;
    let s = if d.n(2) == 0 { 1i64 << k } else { -(1i64 << k) };
    for j in 0..8 {
        if pos == j {
            c[j] = s + e;
        }
        if pos == 8 {
            c[j] = c[j].checked_mul(s)?;
        }
    }
    Some(c)
}

fn c05(t: bool) -> Vec<Space> {
    use Policy::Exact;
    let mut v = vec![];
    v.push(hom_box("box", Exact, ints(pick(t, 6, 9)), rats(pick(t, 16, 20))));
    v.push(hom_box("operands", Exact, ints(2), rats(pick(t, 100, 250))));
    v.push(hom_box("coefficients", Exact, ints(pick(t, 15, 24)), rats(pick(t, 3, 4))));
    let mut al: Vec<i64> = vec![0];
    for k in [1, 2, 3, 7, 16, 100, 1023, 4096, 65535, 1 << 20] {
        al.push(k);
        al.push(-k);
    }
    v.push(hom_box("large-coefficients", Exact, al, rats(pick(t, 4, 10))));
    let l = pick(t, 11, 14) as u32;
    let al = ints(1);
    v.push(space(
        "words",
        format!("all quadruples of -1, 0, 1 x all reduction sequences of length <= {l} x primers"),
        81 * 4 * nwords(l),
        move |i, ctx| {
            let mut d = Dec(i);
            let c = quad(&mut d, &al);
            let p = d.n(4) as u8;
            hom(ctx, Exact, &Word(p, word_at(d.0)), &c)
        },
    ));
    let ex = extremes();
    let ne = ex.len() as u64;
    let al = ints(pick(t, 2, 3));
    let na = al.len() as u64;
    v.push(space(
        "extreme-operands",
        format!("all quadruples up to {} x ratios of {ne} extreme integers", na / 2),
        na.pow(4) * ne * ne,
        move |i, ctx| {
            let mut d = Dec(i);
            let c = quad(&mut d, &al);
            let (p, q) = (d.of(&ex), d.of(&ex));
            if q == 0 {
                return ctx.skip();
            }
            hom(ctx, Exact, &Ratio(p, q), &c)
        },
    ));
    let rs = rats(pick(t, 2, 5));
    let nr = rs.len() as u64;
    v.push(space(
        "scales",
        format!("coefficients s*2^k + e at every scale k for small s, e, in every two positions, x {nr} operands"),
        SCALED_QUADS * nr,
        move |i, ctx| {
            let mut d = Dec(i);
            let c = scaled_quad(&mut d);
            let (p, q) = rs[d.0 as usize];
            hom(ctx, Exact, &Ratio(p, q), &c)
        },
    ));
    let b = pick(t, 300, 1500);
    let al = ints(2);
    let rs = some_operands();
    let nr = rs.len() as u64;
    v.push(space(
        "one-coefficient",
        format!("every coefficient in turn from -{b} to {b}, the others up to 2, x {nr} operands"),
        4 * (2 * b as u64 + 1) * 125 * nr,
        move |i, ctx| {
            let mut d = Dec(i);
            let (k, x) = (d.n(4) as usize, d.n(2 * b as u64 + 1) as i64 - b);
            let mut c = quad(&mut Dec(d.n(125)), &al);
            // the fourth is free: rotate it into place
            c[3] = x;
            c.rotate_left(k);
            let (p, q) = d.of(&rs);
            hom(ctx, Exact, &Ratio(p, q), &c)
        },
    ));
    let mid: Vec<i64> = [5, 9, 12, 17, 25, 31, 33, 50, 63, 64, 65, 99, 100, 127, 129, 255, 257, 500, 512, 1000]
        .iter()
        .flat_map(|v| [*v, -*v])
        .collect();
    let (al, rs) = (ints(pick(t, 1, 2)), some_operands());
    let (na, nm) = (al.len() as u64, mid.len() as u64);
    v.push(space(
        "two-coefficients",
        format!("every two coefficients from {nm} values up to 1000, the others up to {}, x {nr} operands", na / 2),
        6 * nm * nm * na * na * nr,
        move |i, ctx| {
            let mut d = Dec(i);
            let (j, k) = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)][d.n(6) as usize];
            let mut c = [0; 4];
            for l in 0..4 {
                c[l] = if l == j || l == k { d.of(&mid) } else { d.of(&al) };
            }
            let (p, q) = rs[d.0 as usize];
            hom(ctx, Exact, &Ratio(p, q), &c)
        },
    ));
    let b = pick(t, 2000, 10000) as u64;
    let al = ints(1);
    v.push(space(
        "long-line",
        format!("all quadruples of -1, 0, 1 x n/d and d/n for all n up to {b} and d = 1, 2, 3, 5, 8, both signs"),
        81 * 4 * 5 * b,
        move |i, ctx| {
            let mut d = Dec(i);
            let c = quad(&mut d, &al);
            let (inv, neg) = (d.n(2) == 0, d.n(2) == 0);
            let q = [1, 2, 3, 5, 8][d.n(5) as usize];
            let p = d.0 as i64 + 1;
            let (p, q) = if inv { (q, p) } else { (p, q) };
            hom(ctx, Exact, &Ratio(if neg { -p } else { p }, q), &c)
        },
    ));
    v.push(hom_patterns(t, Exact));
    v.push(hom_critical(Exact, pick(t, 9, 12) as u32, 40, pick(t, 3, 5) as u32));
    v.extend(crate::long::spaces("C05"));
    v
}

/// A few operands in all regions, special values included.
fn some_operands() -> Vec<(i64, i64)> {
    vec![(1, 2), (0, 1), (1, 1), (-1, 1), (2, 1), (-2, 3), (3, 5), (-7, 4), (1, 10), (22, 7), (-50, 1), (99, 100), (-1, 37)]
}

/// Operands u v^k of growing length under small transformations.
fn hom_patterns(t: bool, pol: Policy) -> Space {
    let nu = nwords(2);
    let nv = nwords(4) - 1;
    let max = 58u64;
    let al = ints(pick(t, 1, 2));
    let na = al.len() as u64;
    space(
        "long-operands",
        format!("all quadruples up to {} x operands u v^k of every length up to {max} (|u| <= 2, |v| <= 4) x primers", na / 2),
        na.pow(4) * 4 * nu * nv * (max - 4),
        move |i, ctx| {
            let mut d = Dec(i);
            let c = quad(&mut d, &al);
            let p = d.n(4) as u8;
            let (mut w, v) = (word_at(d.n(nu)), word_at(d.n(nv) + 1));
            let len = 4 + d.0 as usize;
            let k = w.len();
            while w.len() < len {
                w.push(v[(w.len() - k) % v.len()]);
            }
            hom(ctx, pol, &Word(p, w), &c)
        },
    )
}

// ---------------------------------------------------------------- C06

fn forms_on(name: &'static str, pol: Policy, nf: usize, rs: Vec<(i64, i64)>) -> Space {
    let nr = rs.len() as u64;
    let nf = nf as u64;
    space(
        name,
        format!(
            "{nf} arithmetic forms x all pairs of {nr} operands up to {}",
            rs.iter().map(|v| v.0.abs().max(v.1)).max().unwrap()
        ),
        nf * nr * nr,
        move |i, ctx| {
            let mut d = Dec(i);
            let c = FORMS[d.n(nf) as usize];
            let (x, y) = (d.of(&rs), d.of(&rs));
            comb(ctx, pol, &Ratio(x.0, x.1), &Ratio(y.0, y.1), &c)
        },
    )
}

fn comb_box(name: &'static str, pol: Policy, al: Vec<i64>, rs: Vec<(i64, i64)>) -> Space {
    let (na, nr) = (al.len() as u64, rs.len() as u64);
    space(
        name,
        format!(
            "all coefficient octuples from {:?} x all pairs of {} operands up to {}",
            al,
            nr,
            rs.iter().map(|v| v.0.abs().max(v.1)).max().unwrap()
        ),
        na.pow(8) * nr * nr,
        move |i, ctx| {
            let mut d = Dec(i);
            let c = oct(&mut d, &al);
            let (x, y) = (d.of(&rs), d.of(&rs));
            comb(ctx, pol, &Ratio(x.0, x.1), &Ratio(y.0, y.1), &c)
        },
    )
}

/// Numerators or denominators with at most two nonzero coefficients.
fn sparse(al: &[i64]) -> Vec<[i64; 4]> {
    let mut v = vec![[0; 4]];
    for i in 0..4 {
        for a in al {
            let mut s = [0; 4];
            s[i] = *a;
            v.push(s);
            for j in 0..i {
                for b in al {
                    let mut s = s;
                    s[j] = *b;
                    v.push(s);
                }
            }
        }
    }
    v
}

/// Numerator or denominator multiplied by k.
fn unequal(mut c: [i64; 8], side: u64, k: i64) -> [i64; 8] {
    for v in &mut c[4 * side as usize..][..4] {
        *v *= k;
    }
    c
}

fn c06(t: bool) -> Vec<Space> {
    use Policy::Exact;
    let mut v = vec![];
    v.push(comb_box("box", Exact, ints(1), rats(pick(t, 4, 7))));
    if t {
        v.push(comb_box("box2", Exact, ints(2), rats(2)));
    }
    v.push(forms_on("forms", Exact, 40, rats(pick(t, 16, 30))));
    v.push(forms_on("basic-forms", Exact, 12, rats(pick(t, 26, 60))));
    let sp = sparse(&[1, -1, 2, -3, 10]);
    let ns = sp.len() as u64;
    let rs: Vec<(i64, i64)> = vec![(1, 2), (2, 3), (-1, 3), (5, 2), (-7, 4), (1, 9), (0, 1), (1, 1)];
    let rs = if t { rats(3) } else { rs };
    let nr = rs.len() as u64;
    v.push(space(
        "sparse-large",
        format!("all pairs of {ns} numerators and denominators with at most two nonzero coefficients of 1, -1, 2, -3, 10 x all pairs of {nr} operands"),
        ns * ns * nr * nr,
        move |i, ctx| {
            let mut d = Dec(i);
            let (n, m) = (d.of(&sp), d.of(&sp));
            let (x, y) = (d.of(&rs), d.of(&rs));
            let c = [n[0], n[1], n[2], n[3], m[0], m[1], m[2], m[3]];
            comb(ctx, Exact, &Ratio(x.0, x.1), &Ratio(y.0, y.1), &c)
        },
    ));
    let rs: Vec<(i64, i64)> = if t { rats(3) } else { vec![(2, 3), (-3, 1), (5, 2)] };
    let nr = rs.len() as u64;
    v.push(space(
        "scales",
        format!("40 forms with every coefficient in turn, or all, moved to every scale 2^k (and next to it), x all pairs of {nr} operands"),
        SCALED_FORMS * nr * nr,
        move |i, ctx| {
            let mut d = Dec(i);
            let c = match scaled_form(&mut d) {
                Some(c) => c,
                None => return ctx.skip(),
            };
            let (x, y) = (d.of(&rs), d.of(&rs));
            comb(ctx, Exact, &Ratio(x.0, x.1), &Ratio(y.0, y.1), &c)
        },
    ));
    let l = pick(t, 4, 6) as u32;
    let nw = nwords(l);
    v.push(space(
        "words",
        format!("40 forms x all pairs of reduction sequences of length <= {l} x all primers"),
        40 * 16 * nw * nw,
        move |i, ctx| {
            let mut d = Dec(i);
            let c = FORMS[d.n(40) as usize];
            let (p, q) = (d.n(4) as u8, d.n(4) as u8);
            let (a, b) = (word_at(d.n(nw)), word_at(d.0));
            comb(ctx, Exact, &Word(p, a), &Word(q, b), &c)
        },
    ));
    let l = pick(t, 10, 13) as u32;
    let nw = nwords(l);
    v.push(space(
        "unequal-lengths",
        format!("12 forms x sequences of length <= 1 with sequences of length <= {l}, both ways, x primers"),
        12 * 2 * 16 * 3 * nw,
        move |i, ctx| {
            let mut d = Dec(i);
            let c = FORMS[d.n(12) as usize];
            let sw = d.n(2) == 0;
            let (p, q) = (d.n(4) as u8, d.n(4) as u8);
            let (a, b) = (word_at(d.n(3)), word_at(d.0));
            if sw {
                comb(ctx, Exact, &Word(p, a), &Word(q, b), &c)
            } else {
                comb(ctx, Exact, &Word(p, b), &Word(q, a), &c)
            }
        },
    ));
    let ex = extremes();
    let mut ops = vec![];
    for p in &ex {
        for q in [1, 2, 3, 7, 1 << 31, (1 << 62) + 1, i64::MAX] {
            ops.push((*p, q));
        }
    }
    let small: Vec<(i64, i64)> = rats(3);
    let (no, nm) = (ops.len() as u64, small.len() as u64);
    v.push(space(
        "extreme-operands",
        format!("40 forms x {no} extreme operands with {nm} small ones, both ways"),
        40 * no * nm * 2,
        move |i, ctx| {
            let mut d = Dec(i);
            let c = FORMS[d.n(40) as usize];
            let sw = d.n(2) == 0;
            let (x, y) = (d.of(&small), d.of(&ops));
            let (x, y) = if sw { (x, y) } else { (y, x) };
            comb(ctx, Exact, &Ratio(x.0, x.1), &Ratio(y.0, y.1), &c)
        },
    ));
    let b = pick(t, 64, 300);
    let rs = &some_operands()[..pick(t, 7, 10) as usize];
    let rs = rs.to_vec();
    let nr = rs.len() as u64;
    v.push(space(
        "one-coefficient",
        format!("40 forms with every coefficient in turn replaced by -{b} to {b} x all pairs of {nr} operands"),
        40 * 8 * (2 * b as u64 + 1) * nr * nr,
        move |i, ctx| {
            let mut d = Dec(i);
            let mut c = FORMS[d.n(40) as usize];
            c[d.n(8) as usize] = d.n(2 * b as u64 + 1) as i64 - b;
            let (x, y) = (d.of(&rs), d.of(&rs));
            comb(ctx, Exact, &Ratio(x.0, x.1), &Ratio(y.0, y.1), &c)
        },
    ));
    let (b, m) = (pick(t, 250, 1000) as u64, pick(t, 40, 100) as u64);
    v.push(space(
        "long-line",
        format!("12 forms x n or 1/n with m or 1/m, both ways and signs, for all n up to {b} and m up to {m}"),
        12 * 32 * b * m,
        move |i, ctx| {
            let mut d = Dec(i);
            let c = FORMS[d.n(12) as usize];
            let sw = d.n(2) == 0;
            let (ix, nx, iy, ny) = (d.n(2) == 0, d.n(2) == 0, d.n(2) == 0, d.n(2) == 0);
            let mk = |n: u64, inv: bool, neg: bool| {
                let n = n as i64 + 1;
                let (p, q) = if inv { (1, n) } else { (n, 1) };
                Ratio(if neg { -p } else { p }, q)
            };
            let x = mk(d.n(b), ix, nx);
            let y = mk(d.0, iy, ny);
            if sw {
                comb(ctx, Exact, &x, &y, &c)
            } else {
                comb(ctx, Exact, &y, &x, &c)
            }
        },
    ));
    let b = pick(t, 7, 12);
    let rs: Vec<(i64, i64)> = vec![(1, 2), (-2, 3), (7, 4), (-5, 1)];
    v.push(space(
        "two-values",
        format!("all octuples of any two values up to {b} x all pairs of 4 operands"),
        256 * (2 * b as u64 + 1).pow(2) * 16,
        move |i, ctx| {
            let mut d = Dec(i);
            let m = d.n(256);
            let (p, q) = (d.n(2 * b as u64 + 1) as i64 - b, d.n(2 * b as u64 + 1) as i64 - b);
            let (x, y) = (d.of(&rs), d.of(&rs));
            if p >= q {
                return ctx.skip();
            }
            let c = std::array::from_fn(|k| if m >> k & 1 == 0 { p } else { q });
            comb(ctx, Exact, &Ratio(x.0, x.1), &Ratio(y.0, y.1), &c)
        },
    ));
    let rs: Vec<(i64, i64)> = vec![(2, 3), (-1, 3), (9, 4), (-3, 1)];
    let vs: Vec<Vec<i64>> = vec![vec![0, 1, 2], vec![0, 2, -3], vec![0, 4, 6], vec![1, 3, -5], vec![0, 8, -9], vec![2, 6, -18]];
    let nv = vs.len() as u64;
    v.push(space(
        "three-values",
        format!("all octuples of {nv} sets of three values up to 18 x all pairs of 4 operands"),
        6561 * nv * 16,
        move |i, ctx| {
            let mut d = Dec(i);
            let al = &vs[d.n(nv) as usize];
            let c = oct(&mut d, al);
            let (x, y) = (d.of(&rs), d.of(&rs));
            comb(ctx, Exact, &Ratio(x.0, x.1), &Ratio(y.0, y.1), &c)
        },
    ));
    let rs: Vec<(i64, i64)> = vec![(1, 2), (1, 3), (5, 7), (-2, 3), (7, 4), (-5, 1)];
    let (al, b) = (ints(1), pick(t, 5, 9) as u64);
    v.push(space(
        "unequal-sides",
        format!("all octuples of -1, 0, 1 with one side multiplied by 2 to {b} x all pairs of 6 operands"),
        6561 * 2 * (b - 1) * 36,
        move |i, ctx| {
            let mut d = Dec(i);
            let c = unequal(oct(&mut d, &al), d.n(2), d.n(b - 1) as i64 + 2);
            let (x, y) = (d.of(&rs), d.of(&rs));
            comb(ctx, Exact, &Ratio(x.0, x.1), &Ratio(y.0, y.1), &c)
        },
    ));
    v.push(comb_critical(Exact, pick(t, 5, 8) as u32, 20, pick(t, 2, 3) as u32, false));
    v.extend(crate::long::spaces("C06"));
    v
}

// ---------------------------------------------------------------- C07

/// A pole must be reported at construction; anything else never.
fn pole_case(
    ctx: &mut Ctx,
    e: Option<Exp>,
    lenient: impl FnOnce() -> bool,
    mk: impl FnOnce() -> Number,
    call: impl Fn() -> String,
) -> R {
    ctx.note(|| format!("{}: {}", call(), if e.is_none() { "division by zero" } else { "a number" }));
    let r = guard(mk);
    match (e, r) {
        (None, Err(Panic::DivZero)) => {
            ctx.class(DIVZERO);
            Ok(())
        }
        (None, Err(Panic::Overflow(_))) if lenient() => {
            ctx.class(OVERFLOW);
            Ok(())
        }
        (None, Err(p)) => Err(format!("{}: got {} instead of 'division by zero'", call(), p.show())),
        (None, Ok(_)) => Err(format!("{}: got a number instead of 'division by zero'", call())),
        (Some(e), Err(Panic::DivZero)) => {
            Err(format!("{}: got 'division by zero' instead of {}", call(), e.show()))
        }
        (Some(_), Err(_)) => {
            ctx.class(OVERFLOW);
            Ok(())
        }
        (Some(_), Ok(Number::Special(_))) => {
            ctx.class(SPECIAL);
            Ok(())
        }
        (Some(_), Ok(Number::Other(_, mut c))) => {
            let mut steps = 0;
            let r = guard(|| {
                while c.egest().is_some() && steps < 10_000 {
                    steps += 1;
                }
            });
            ctx.transitions += steps;
            ctx.class(OK);
            match r {
                Err(Panic::DivZero) => Err(format!("{}: 'division by zero' during extraction", call())),
                _ => Ok(()),
            }
        }
    }
}

pub fn hom_pole(ctx: &mut Ctx, x: &Opd, c: &[i64; 4]) -> R {
    let (p, q) = x.value();
    ctx.step(mix(mix(p as u64, q as u64), mix(mix(c[0] as u64, c[1] as u64), mix(c[2] as u64, c[3] as u64))));
    pole_case(ctx, hom_exp(x.value(), c), || may_overflow(c, x.symbols()), || hom_make(x.make(), c), || {
        format!("homographic({}; {}, {}, {}, {})", x.show(), c[0], c[1], c[2], c[3])
    })
}

pub fn comb_pole(ctx: &mut Ctx, x: &Opd, y: &Opd, c: &[i64; 8]) -> R {
    let (xv, yv) = (x.value(), y.value());
    let mut h = mix(mix(xv.0 as u64, xv.1 as u64), mix(yv.0 as u64, yv.1 as u64));
    for k in c {
        h = mix(h, *k as u64);
    }
    ctx.step(h);
    pole_case(ctx, comb_exp(xv, yv, c), || may_overflow(c, x.symbols() + y.symbols()), || comb_make(x.make(), y.make(), c), || {
        format!("combine({}, {}; {:?})", x.show(), y.show(), c)
    })
}

fn c07(t: bool) -> Vec<Space> {
    let mut v = vec![];
    let lat = lattice_u(2);
    let n = lat.len() as u64;
    v.push(space(
        "ratio",
        format!("ratio and ratio_u of {n} integers and their negatives with denominators 0 and 1"),
        n * 2 * 2 * 2,
        move |i, ctx| {
            let mut d = Dec(i);
            let (den, s, f) = (d.n(2), d.n(2) == 0, d.n(2));
            let k = d.of(&lat);
            ctx.step(mix(k, den));
            let o = if f == 0 {
                RatioU(s, k, den)
            } else {
                let k = if s { k as i64 } else { (k as i64).wrapping_neg() };
                Ratio(k, den as i64)
            };
            let e = if den == 0 { None } else { Some(expect(o.value().0, 1)) };
            pole_case(ctx, e, || false, || o.make(), || o.show())
        },
    ));
    let rs = rats(pick(t, 30, 60));
    let (nr, ks, al) = (rs.len() as u64, ints(pick(t, 3, 6)), ints(2));
    let nk = ks.len() as u64;
    v.push(space(
        "homographic-poles",
        format!("denominators k*(q*x - p) at x = p/q for {nr} operands and |k| <= {}, all numerators up to 2", nk / 2),
        nr * nk * 25,
        move |i, ctx| {
            let mut d = Dec(i);
            let (a, b) = (d.of(&al), d.of(&al));
            let k = d.of(&ks);
            let (p, q) = d.of(&rs);
            hom_pole(ctx, &Ratio(p, q), &[a, b, k * q, -k * p])
        },
    ));
    let rs = rats(pick(t, 20, 30));
    let nr = rs.len() as u64;
    let al = ints(3);
    v.push(space(
        "homographic-near-poles",
        "denominators that miss zero by one in one coefficient, all numerators up to 3",
        nr * 49 * 3 * 3 * 5,
        move |i, ctx| {
            let mut d = Dec(i);
            let (a, b) = (d.of(&al), d.of(&al));
            let (e, f) = (d.n(3) as i64 - 1, d.n(3) as i64 - 1);
            let k = d.n(5) as i64 - 2;
            let (p, q) = d.of(&rs);
            hom_pole(ctx, &Ratio(p, q), &[a, b, k * q + e, -k * p + f])
        },
    ));
    let rs = rats(pick(t, 6, 12));
    let nr = rs.len() as u64;
    v.push(space(
        "homographic-scaled-poles",
        format!("denominators k*(q*x - p) at x = p/q for {nr} operands and k at every scale 2^j, and those that miss zero by one, 4 numerators"),
        nr * 60 * 2 * 9 * 4,
        move |i, ctx| {
            let mut d = Dec(i);
            let num = [[0, 0], [1, 0], [0, 1], [-2, 3]][d.n(4) as usize];
            let (e, f) = (d.n(3) as i64 - 1, d.n(3) as i64 - 1);
            let k = if d.n(2) == 0 { 1i64 } else { -1 } << d.n(60);
            let (p, q) = d.of(&rs);
            match (q.checked_mul(k), p.checked_mul(-k)) {
                (Some(a), Some(b)) => hom_pole(ctx, &Ratio(p, q), &[num[0], num[1], a + e, b + f]),
                _ => ctx.skip(),
            }
        },
    ));
    let rs = rats(pick(t, 3, 5));
    let nr = rs.len() as u64;
    v.push(space(
        "combine-scaled-poles",
        format!("denominators k*(q*x - p), k*(s*y - r), k*(q*s*x*y - p*r), k*(q*x - p)*(y + 1) at p/q, r/s for all pairs of {nr} operands and k at every scale 2^j, and those that miss zero by one, 3 numerators"),
        nr * nr * 60 * 2 * 3 * 4 * 3,
        move |i, ctx| {
            let mut d = Dec(i);
            let num = [[0, 0, 0, 1], [0, 1, 1, 0], [1, 0, 0, -2]][d.n(3) as usize];
            let e = d.n(3) as i64 - 1;
            let kind = d.n(4) as usize;
            let k = if d.n(2) == 0 { 1i64 } else { -1 } << d.n(60);
            let ((p, q), (r, s)) = (d.of(&rs), d.of(&rs));
            let den = [[0, q, 0, -p], [0, 0, s, -r], [q * s, 0, 0, -p * r], [q, q, -p, -p]][kind];
            let mut c = [num[0], num[1], num[2], num[3], 0, 0, 0, 0];
            for j in 0..4 {
                c[4 + j] = match den[j].checked_mul(k) {
                    Some(v) => v,
                    None => return ctx.skip(),
                };
            }
            c[7] += e;
            comb_pole(ctx, &Ratio(p, q), &Ratio(r, s), &c)
        },
    ));
    let (al, rs) = (ints(pick(t, 3, 4)), rats(pick(t, 7, 9)));
    let (na, nr) = (al.len() as u64, rs.len() as u64);
    v.push(space(
        "homographic-box",
        format!("all quadruples up to {} x {nr} operands", na / 2),
        na.pow(4) * nr,
        move |i, ctx| {
            let mut d = Dec(i);
            let c = quad(&mut d, &al);
            let (p, q) = rs[d.0 as usize];
            hom_pole(ctx, &Ratio(p, q), &c)
        },
    ));
    // combination: choose three denominator coefficients, solve for the fourth
    let rs = rats(pick(t, 5, 8));
    let nr = rs.len() as u64;
    let al = ints(2);
    let nums: [[i64; 4]; 8] = [
        [0, 0, 0, 0],
        [0, 0, 0, 1],
        [0, 1, 1, 0],
        [1, 0, 0, 0],
        [1, 1, 1, 1],
        [0, 1, -1, 0],
        [2, -1, 0, 1],
        [-1, 2, 1, -1],
    ];
    v.push(space(
        "combine-poles",
        format!("all pairs of {nr} operands, denominators up to 2 in three coefficients, the fourth solved for zero (all scaled to integers), 8 numerators, also missing zero by one"),
        nr * nr * 125 * 8 * 3,
        move |i, ctx| {
            let mut d = Dec(i);
            let m = nums[d.n(8) as usize];
            let off = d.n(3) as i64;
            let (e, f, g) = (d.of(&al), d.of(&al), d.of(&al));
            let (x, y) = (d.of(&rs), d.of(&rs));
            let qq = x.1 * y.1;
            let s = e * x.0 * y.0 + f * x.0 * y.1 + g * y.0 * x.1;
            let k = gcd(qq as u128, s.unsigned_abs() as u128) as i64;
            let (k, s) = (qq / k, s / k);
            let off = [0, 1, -1][off as usize];
            let c = [m[0], m[1], m[2], m[3], e * k, f * k, g * k, -s + off];
            comb_pole(ctx, &Ratio(x.0, x.1), &Ratio(y.0, y.1), &c)
        },
    ));
    let rs: Vec<(i64, i64)> = rats(pick(t, 2, 4));
    let al = ints(1);
    let nr = rs.len() as u64;
    v.push(space(
        "combine-box",
        format!("all octuples of -1, 0, 1 x all pairs of {nr} operands"),
        6561 * nr * nr,
        move |i, ctx| {
            let mut d = Dec(i);
            let c = oct(&mut d, &al);
            let (x, y) = (d.of(&rs), d.of(&rs));
            comb_pole(ctx, &Ratio(x.0, x.1), &Ratio(y.0, y.1), &c)
        },
    ));
    v.push(hom_critical_pole(pick(t, 9, 12) as u32, 40, pick(t, 3, 5) as u32));
    v.push(comb_critical(Policy::Exact, pick(t, 5, 8) as u32, 20, pick(t, 2, 3) as u32, true));
    v
}

// ---------------------------------------------------------------- C08, C09

fn c08(what: What, t: bool) -> Vec<Space> {
    if !HOOK {
        // without observable streams only the delivered results are checked
        return c05(false).into_iter().chain(c06(false)).collect();
    }
    let mut v = vec![];
    let ended = |p: u8, w: Vec<u8>| Stream { primer: p, head: w, period: vec![] };
    let al = ints(pick(t, 3, 4));
    let na = al.len() as u64;
    let l = pick(t, 7, 9) as u32;
    v.push(space(
        "homographic-words",
        format!("all quadruples up to {} x all reduction sequences of length <= {l} (hence all their prefixes) x primers", na / 2),
        na.pow(4) * 4 * nwords(l),
        move |i, ctx| {
            let mut d = Dec(i);
            let c = quad(&mut d, &al);
            let p = d.n(4) as u8;
            let c = [0, c[0], 0, c[1], 0, c[2], 0, c[3]];
            monitored(ctx, what, &ended(p, word_at(d.0)), None, &c, 60)
        },
    ));
    let al = ints(pick(t, 9, 14));
    let na = al.len() as u64;
    v.push(space(
        "homographic-coefficients",
        format!("all quadruples up to {} x all sequences of length <= 3 x primers", na / 2),
        na.pow(4) * 4 * nwords(3),
        move |i, ctx| {
            let mut d = Dec(i);
            let c = quad(&mut d, &al);
            let p = d.n(4) as u8;
            let c = [0, c[0], 0, c[1], 0, c[2], 0, c[3]];
            monitored(ctx, what, &ended(p, word_at(d.0)), None, &c, 60)
        },
    ));
    let al: Vec<i64> = vec![0, 1, -1, 2, -5, 7, 64, -1000, 4097];
    let na = al.len() as u64;
    let nu = nwords(2);
    let nv = nwords(3) - 1;
    v.push(space(
        "homographic-unending",
        "all quadruples of 9 values up to 4097 x unending streams u v v v... (|u| <= 2, |v| <= 3) x primers",
        na.pow(4) * 4 * nu * nv,
        move |i, ctx| {
            let mut d = Dec(i);
            let c = quad(&mut d, &al);
            let p = d.n(4) as u8;
            let s = Stream { primer: p, head: word_at(d.n(nu)), period: word_at(d.0 + 1) };
            let c = [0, c[0], 0, c[1], 0, c[2], 0, c[3]];
            monitored(ctx, what, &s, None, &c, 24)
        },
    ));
    let al = ints(1);
    let l = pick(t, 2, 3) as u32;
    let nw = nwords(l);
    v.push(space(
        "combine-box",
        format!("all octuples of -1, 0, 1 x all pairs of sequences of length <= {l} x same primers"),
        6561 * 4 * nw * nw,
        move |i, ctx| {
            let mut d = Dec(i);
            let c = oct(&mut d, &al);
            let p = d.n(4) as u8;
            let (a, b) = (word_at(d.n(nw)), word_at(d.0));
            monitored(ctx, what, &ended(p, a), Some(&ended(p, b)), &c, 60)
        },
    ));
    let (al, b) = (ints(1), pick(t, 4, 7) as u64);
    let l = pick(t, 1, 2) as u32;
    let nw = nwords(l);
    v.push(space(
        "combine-unequal-sides",
        format!("all octuples of -1, 0, 1 with one side multiplied by 2 to {b} x all pairs of sequences of length <= {l} x same primers"),
        6561 * 2 * (b - 1) * 4 * nw * nw,
        move |i, ctx| {
            let mut d = Dec(i);
            let c = unequal(oct(&mut d, &al), d.n(2), d.n(b - 1) as i64 + 2);
            let p = d.n(4) as u8;
            let (a, b) = (word_at(d.n(nw)), word_at(d.0));
            monitored(ctx, what, &ended(p, a), Some(&ended(p, b)), &c, 60)
        },
    ));
    let al = ints(pick(t, 3, 5));
    let na = al.len() as u64;
    v.push(space(
        "combine-one-side",
        format!("all numerators and all denominators of {na} values, the other side one of 4 x all pairs of sequences of length <= 1 x same primers"),
        na.pow(4) * 2 * 4 * 4 * 9,
        move |i, ctx| {
            let mut d = Dec(i);
            let free: [i64; 4] = std::array::from_fn(|_| d.of(&al));
            let fixed = [[0, 0, 0, 1], [0, 0, 0, 40], [1, 2, 3, 4], [-8, 5, 7, 30]][d.n(4) as usize];
            let (n, m) = if d.n(2) == 0 { (free, fixed) } else { (fixed, free) };
            let c = std::array::from_fn(|k| if k < 4 { n[k] } else { m[k - 4] });
            let p = d.n(4) as u8;
            let (a, b) = (word_at(d.n(3)), word_at(d.0));
            monitored(ctx, what, &ended(p, a), Some(&ended(p, b)), &c, 60)
        },
    ));
    let l = pick(t, 4, 6) as u32;
    let nw = nwords(l);
    v.push(space(
        "combine-forms",
        format!("40 forms x all pairs of sequences of length <= {l} x all primers"),
        40 * 16 * nw * nw,
        move |i, ctx| {
            let mut d = Dec(i);
            let c = FORMS[d.n(40) as usize];
            let (p, q) = (d.n(4) as u8, d.n(4) as u8);
            let (a, b) = (word_at(d.n(nw)), word_at(d.0));
            monitored(ctx, what, &ended(p, a), Some(&ended(q, b)), &c, 60)
        },
    ));
    let nv = nwords(pick(t, 3, 4) as u32) - 1;
    v.push(space(
        "combine-unending",
        "40 forms x pairs of unending streams u v v v... (|u| <= 1, short v) x all primers",
        40 * 16 * 9 * nv * nv,
        move |i, ctx| {
            let mut d = Dec(i);
            let c = FORMS[d.n(40) as usize];
            let (p, q) = (d.n(4) as u8, d.n(4) as u8);
            let (u1, u2) = (word_at(d.n(3)), word_at(d.n(3)));
            let x = Stream { primer: p, head: u1, period: word_at(d.n(nv) + 1) };
            let y = Stream { primer: q, head: u2, period: word_at(d.0 + 1) };
            monitored(ctx, what, &x, Some(&y), &c, 20)
        },
    ));
    let l = pick(t, 9, 12) as u32;
    let nw = nwords(l);
    v.push(space(
        "combine-unequal",
        format!("12 forms x sequences of length <= 1 with sequences of length <= {l}, both ways, x all primers"),
        12 * 16 * 2 * 3 * nw,
        move |i, ctx| {
            let mut d = Dec(i);
            let c = FORMS[d.n(12) as usize];
            let sw = d.n(2) == 0;
            let (p, q) = (d.n(4) as u8, d.n(4) as u8);
            let (a, b) = (word_at(d.n(3)), word_at(d.0));
            let (x, y) = (ended(p, a), ended(q, b));
            if sw {
                monitored(ctx, what, &x, Some(&y), &c, 60)
            } else {
                monitored(ctx, what, &y, Some(&x), &c, 60)
            }
        },
    ));
    let l = pick(t, 1, 2) as u32;
    let nw = nwords(l);
    v.push(space(
        "homographic-scales",
        format!("coefficients s*2^k + e at every scale k for small s, e, in every two positions, x all sequences of length <= {l} x primers"),
        SCALED_QUADS * 4 * nw,
        move |i, ctx| {
            let mut d = Dec(i);
            let c = scaled_quad(&mut d);
            let c = [0, c[0], 0, c[1], 0, c[2], 0, c[3]];
            let p = d.n(4) as u8;
            monitored(ctx, what, &ended(p, word_at(d.0)), None, &c, 60)
        },
    ));
    let nw = nwords(1);
    v.push(space(
        "combine-scales",
        "40 forms with every coefficient in turn, or all, moved to every scale 2^k (and next to it), x all pairs of sequences of length <= 1",
        SCALED_FORMS * nw * nw,
        move |i, ctx| {
            let mut d = Dec(i);
            let c = match scaled_form(&mut d) {
                Some(c) => c,
                None => return ctx.skip(),
            };
            let (a, b) = (word_at(d.n(nw)), word_at(d.0));
            monitored(ctx, what, &ended(NONE, a), Some(&ended(TURN, b)), &c, 60)
        },
    ));
    // combinations that live at the same time
    let periods: Vec<(u8, &[u8])> = vec![(NONE, &[U]), (NONE, &[A, U]), (TURN, &[A, U, U]), (NONE, &[A, A, U]), (REFLECT, &[A, U, U, U]), (GROUND, &[A, U, A, A, U])];
    let np = periods.len() as u64;
    let orders: [&[usize]; 4] = [&[0, 1], &[0, 0, 1], &[0, 1, 1, 1], &[0, 0, 1, 1]];
    let nf = pick(t, 6, 20) as u64;
    v.push(space(
        "combine-together",
        format!("all pairs of combinations ({nf} forms, each of all pairs of {np} unending streams) alive at the same time x 4 orders of extraction"),
        4 * nf * nf * np.pow(4),
        move |i, ctx| {
            let mut d = Dec(i);
            let order = orders[d.n(4) as usize];
            let mut one = || {
                let c = FORMS[d.n(nf) as usize];
                let mut s = || {
                    let (primer, w) = periods[d.n(np) as usize];
                    Stream { primer, head: vec![], period: w.to_vec() }
                };
                (s(), s(), c)
            };
            let all = [one(), one()];
            together(ctx, what, &all, order, 24)
        },
    ));
    v.push(hom_critical_monitored(what, pick(t, 6, 9) as u32, pick(t, 24, 36) as usize, 2));
    v.push(comb_critical_monitored(what, pick(t, 4, 6) as u32, pick(t, 12, 18) as usize, pick(t, 1, 2) as u32));
    v
}

// ---------------------------------------------------------------- C10

fn i256(v: isize) -> I256 {
    I256::from(v as i128)
}

/// Value of a number by draining it, as a fraction in lowest terms with known sign.
fn drained(x: Number, cap: usize) -> Result<(I256, I256), String> {
    let one = I256::from(1);
    match x {
        Number::Special(s) => Ok((I256::from(special_code(&s) as i128), one)),
        Number::Other(p, mut c) => {
            let mut w = vec![];
            while let Some(s) = c.egest() {
                w.push(code(&s));
                if w.len() > cap {
                    return Err("the rest does not end".into());
                }
            }
            let (n, d) = word_value(&w);
            let (n, d) = primed_value(primer_code(&p), n, d);
            Ok((I256::from(n), I256::from(d)))
        }
    }
}

/// consume(x) for x with the given value and number of symbols.
pub fn consume_case(
    ctx: &mut Ctx,
    mk: impl FnOnce() -> Number,
    val: (i128, i128),
    may_overflow: bool,
    call: impl Fn() -> String,
) -> R {
    ctx.step(mix(mix(0xC0, val.0 as u64), mix(val.1 as u64, (val.1 >> 64) as u64)));
    let r = guard(|| {
        let (y, ny, n, dy, d) = Number::consume(mk());
        let some = y.is_some();
        let (yn, yd) = match y {
            None => (I256::from(1), I256::from(2)),
            Some(y) => match drained(y, 20_000) {
                Ok(v) => v,
                Err(e) => return Err(e),
            },
        };
        let (ny2, n2, dy2, d2) = (i256(ny), i256(n), i256(dy), i256(d));
        let num = ny2.mul(&yn).add(&n2.mul(&yd));
        let den = dy2.mul(&yn).add(&d2.mul(&yd));
        let got = || {
            format!(
                "got coefficients {}, {}, {}, {} with {}",
                ny,
                n,
                dy,
                d,
                if some { "a rest" } else { "no rest" }
            )
        };
        if den.is_zero() {
            return Err(format!("{}, a zero denominator", got()));
        }
        // num/den == val without leaving 256 bits: reduce first
        let g = num.mag.gcd(&den.mag);
        let (num, den) = (
            I256 { neg: num.neg, mag: num.mag.div_exact(&g) },
            I256 { neg: den.neg, mag: den.mag.div_exact(&g) },
        );
        let vg = gcd(val.0.unsigned_abs(), val.1.unsigned_abs()) as i128;
        let (vn, vd) = (val.0 / vg, val.1 / vg);
        let same = num.mag == U256::from(vn.unsigned_abs())
            && den.mag == U256::from(vd.unsigned_abs())
            && (num.is_zero() || (num.neg != den.neg) == ((vn < 0) != (vd < 0)));
        if !same {
            return Err(format!("{}, which is not the number", got()));
        }
        let most = [ny, n, dy, d].iter().map(|v| v.unsigned_abs()).max().unwrap();
        if some && most < isize::MAX as usize / 16 {
            return Err(format!("{}: it stopped although neither the number ended nor a coefficient is large", got()));
        }
        Ok(some)
    });
    ctx.note(call_note(&call, &r));
    match r {
        Ok(Ok(some)) => {
            ctx.class(if some { REST } else { OK });
            Ok(())
        }
        Ok(Err(m)) => Err(format!("{}: {}", call(), m)),
        Err(Panic::Overflow(_)) if may_overflow => ctx.skip(),
        Err(p) => Err(format!("{}: got {}", call(), p.show())),
    }
}

fn call_note<'a>(call: &'a impl Fn() -> String, r: &'a Result<Result<bool, String>, Panic>) -> impl FnOnce() -> String + 'a {
    move || format!("{}: rest {:?}", call(), r)
}

fn c10(t: bool) -> Vec<Space> {
    let mut v = vec![];
    let l = pick(t, 17, 20) as u32;
    v.push(space(
        "words",
        format!("all reduction sequences of length <= {l} x primers"),
        4 * nwords(l),
        |i, ctx| {
            let mut d = Dec(i);
            let p = d.n(4) as u8;
            let w = word_at(d.0);
            let (n, q) = word_value(&w);
            let o = Word(p, w);
            consume_case(ctx, || o.make(), primed_value(p, n, q), false, || format!("consume({})", o.show()))
        },
    ));
    let rs = rats(pick(t, 60, 150));
    let nr = rs.len() as u64;
    v.push(space(
        "ratios",
        format!("{nr} ratios in all regions, including the special values"),
        nr,
        move |i, ctx| {
            let (p, q) = rs[i as usize];
            let o = Ratio(p, q);
            consume_case(ctx, || o.make(), o.value(), false, || format!("consume({})", o.show()))
        },
    ));
    let lat = lattice_u(pick(t, 1, 3));
    let n = lat.len() as u64;
    v.push(space(
        "lattice",
        format!("ratio_u over all pairs of {n} integers of all magnitudes"),
        2 * n * n,
        move |i, ctx| {
            let mut d = Dec(i);
            let s = d.n(2) == 0;
            let (p, q) = (d.of(&lat), d.of(&lat));
            if q == 0 {
                return ctx.skip();
            }
            let o = RatioU(s, p, q);
            consume_case(ctx, || o.make(), o.value(), false, || format!("consume({})", o.show()))
        },
    ));
    let rs = rats(pick(t, 9, 14));
    let nr = rs.len() as u64;
    v.push(space(
        "results",
        format!("results of 12 forms on all pairs of {nr} ratios"),
        12 * nr * nr,
        move |i, ctx| {
            let mut d = Dec(i);
            let f = d.n(12) as usize;
            let (x, y) = (d.of(&rs), d.of(&rs));
            let c = FORMS[f];
            let m = |k: usize| {
                (c[k] * x.0 * y.0 + c[k + 1] * x.0 * y.1 + c[k + 2] * y.0 * x.1 + c[k + 3] * x.1 * y.1) as i128
            };
            if m(4) == 0 {
                return ctx.skip();
            }
            consume_case(
                ctx,
                || {
                    let (a, b) = (Ratio(x.0, x.1), Ratio(y.0, y.1));
                    comb_make(a.make(), b.make(), &c)
                },
                (m(0), m(4)),
                false,
                || format!("consume(combine(ratio{x:?}, ratio{y:?}; {c:?}))"),
            )
        },
    ));
    if HOOK {
        let nu = nwords(3);
        let nv = nwords(4) - 1;
        let max = 100u64;
        v.push(space(
            "long",
            format!("u v^k of every length up to {max} (|u| <= 3, |v| <= 4) x primers: beyond the machine limit"),
            4 * nu * nv * (max + 1),
            move |i, ctx| {
                let mut d = Dec(i);
                let p = d.n(4) as u8;
                let (mut w, v) = (word_at(d.n(nu)), word_at(d.n(nv) + 1));
                let len = d.0 as usize;
                let k = w.len();
                while w.len() < len {
                    w.push(v[(w.len() - k) % v.len()]);
                }
                let (n, q) = word_value(&w);
                let o = Word(p, w);
                consume_case(ctx, || o.make(), primed_value(p, n, q), false, || format!("consume({})", o.show()))
            },
        ));
        // prefixes that bring the coefficients near the limit, then all words
        let l = pick(t, 7, 10) as u32;
        let nw = nwords(l);
        let nv = nwords(3) - 1;
        v.push(space(
            "near-limit",
            format!("v^k of every length from 52 to 75 (|v| <= 3), then all sequences of length <= {l}, x primers"),
            4 * nv * 24 * nw,
            move |i, ctx| {
                let mut d = Dec(i);
                let p = d.n(4) as u8;
                let v = word_at(d.n(nv) + 1);
                let len = 52 + d.n(24) as usize;
                let mut w: Vec<u8> = (0..len).map(|k| v[k % v.len()]).collect();
                w.extend(word_at(d.0));
                let (n, q) = word_value(&w);
                let o = Word(p, w);
                consume_case(ctx, || o.make(), primed_value(p, n, q), false, || format!("consume({})", o.show()))
            },
        ));
        let nu = nwords(4);
        let nv = nwords(6) - 1;
        v.push(space(
            "unending",
            "unending streams u v v v... (|u| <= 4, |v| <= 6) x primers: stops, with exact coefficients",
            4 * nu * nv,
            move |i, ctx| {
                let mut d = Dec(i);
                let p = d.n(4) as u8;
                let s = Stream { primer: p, head: word_at(d.n(nu)), period: word_at(d.0 + 1) };
                unending_consume(ctx, s)
            },
        ));
    }
    v
}

/// On an unending stream the rest cannot be drained; its first symbols must
/// continue the stream, and the coefficients must be the substitution of all
/// symbols before, up to a common factor.
fn unending_consume(ctx: &mut Ctx, s: Stream) -> R {
    let reads = Rc::new(Cell::new(0usize));
    let (s2, r2) = (s.clone(), Rc::clone(&reads));
    let call = || format!("consume({})", s.show());
    let r = guard(|| {
        let x = Number::Other(
            primer(s.primer),
            source(move || {
                let i = r2.get();
                if i > 5000 {
                    panic!("reads without end");
                }
                r2.set(i + 1);
                s2.at(i).map(sym)
            }),
        );
        let (y, ny, n, dy, d) = Number::consume(x);
        let k = reads.get();
        let mut y = match y {
            Some(Number::Other(None, c)) => c,
            Some(_) => return Ok(None), // any other exact answer is judged by the finite spaces
            None => return Err("got no rest".to_string()),
        };
        let mut rest = vec![];
        for _ in 0..8 {
            rest.push(y.egest().map(|s| code(&s)));
        }
        Ok(Some((k, rest, [ny, n, dy, d])))
    });
    let (k, rest, c) = match r {
        Ok(Ok(Some(v))) => v,
        Ok(Ok(None)) => return ctx.skip(),
        Ok(Err(m)) => return Err(format!("{}: {}", call(), m)),
        Err(p) => return Err(format!("{}: got {}", call(), p.show())),
    };
    ctx.class(REST);
    ctx.transitions += k as u64;
    ctx.step(mix(ta_hash(&s), k as u64));
    ctx.note(|| format!("{}: {} symbols read, coefficients {:?}", call(), k, c));
    // which position does the rest start at?  It must continue the stream there
    // and the coefficients must be the substitution up to there.
    let most = c.iter().map(|v| v.unsigned_abs()).max().unwrap();
    if most < isize::MAX as usize / 16 {
        return Err(format!("{}: stopped with small coefficients {:?}", call(), c));
    }
    for from in (0..=k).rev() {
        if !(0..8).all(|j| rest[j] == s.at(from + j)) {
            continue;
        }
        // substitution of the first `from` symbols
        let mut m = match s.primer {
            NONE => [1i128, 0, 0, 1],
            TURN => [0, 1, 1, 0],
            REFLECT => [-1, 0, 0, 1],
            _ => [0, -1, 1, 0],
        };
        for j in 0..from {
            m = match s.at(j) {
                Some(A) => [m[0], 2 * m[1], m[2], 2 * m[3]],
                _ => [m[1], m[0] + m[1], m[3], m[2] + m[3]],
            };
            if m.iter().all(|v| v % 2 == 0) {
                for v in m.iter_mut() {
                    *v /= 2;
                }
            }
            if m.iter().any(|v| v.unsigned_abs() >> 120 != 0) {
                panic!("model overflow");
            }
        }
        let b = |v: i128| I256::from(v);
        let ok = (0..4).all(|i| {
            (0..4).all(|j| {
                b(m[i]).mul(&b(c[j] as i128)).cmp(&b(m[j]).mul(&b(c[i] as i128))) == Ordering::Equal
            })
        });
        if ok {
            return Ok(());
        }
    }
    Err(format!("{}: coefficients {:?} with a rest starting {:?} are not the number", call(), c, rest))
}

// ---------------------------------------------------------------- C11

fn c11(t: bool) -> Vec<Space> {
    use Policy::FailStop;
    let mut v = vec![];
    let ex = extremes();
    let mut big: Vec<i64> = vec![0, 1, -1, 2, -2, 3];
    for k in [31u32, 32, 61, 62] {
        big.push(1 << k);
        big.push(-(1 << k));
    }
    // in quick runs the build without overflow checks gets the wider set
    if t || !cfg!(debug_assertions) {
        big.extend([(1 << 62) - 1, (1 << 62) + 1, i64::MAX - 1, i64::MAX, -i64::MAX, i64::MIN]);
    } else {
        big = vec![0, 1, -1, 2, 1 << 31, 1 << 61, -(1 << 62), i64::MAX - 1, i64::MAX, i64::MIN];
    }
    if t {
        big.extend([-3, (1 << 31) - 1, -(1 << 62) - 1, i64::MAX / 3, i64::MIN + 2]);
    }
    let mut ops: Vec<(i64, i64)> = vec![
        (0, 1),
        (1, 1),
        (-1, 1),
        (1, 2),
        (-1, 2),
        (2, 1),
        (-2, 1),
        (1, 3),
        (2, 3),
        (-3, 4),
        (7, 5),
        (-5, 1),
        (i64::MAX, 1),
        (1, i64::MAX),
        (i64::MIN, 1),
        (i64::MIN, i64::MAX),
        (i64::MAX - 1, i64::MAX),
        (1, 1 << 40),
    ];
    if t {
        ops.extend([(1 << 62, 3), (-3, 1 << 62), (123456789, 987654321), (i64::MAX, 2), (-1, 1 << 31)]);
    }
    let (nb, no) = (big.len() as u64, ops.len() as u64);
    v.push(space(
        "homographic",
        format!("all quadruples of {nb} coefficients up to the limits x {no} operands of all sizes"),
        nb.pow(4) * no,
        move |i, ctx| {
            let mut d = Dec(i);
            let c = quad(&mut d, &big);
            let (p, q) = ops[d.0 as usize];
            hom(ctx, FailStop, &Ratio(p, q), &c)
        },
    ));
    let ne = ex.len() as u64;
    let al = ints(pick(t, 2, 3));
    let na = al.len() as u64;
    let ex2 = ex.clone();
    v.push(space(
        "extreme-operands",
        format!("all quadruples up to {} x ratios of {ne} extreme integers", na / 2),
        na.pow(4) * ne * ne,
        move |i, ctx| {
            let mut d = Dec(i);
            let c = quad(&mut d, &al);
            let (p, q) = (d.of(&ex2), d.of(&ex2));
            if q == 0 {
                return ctx.skip();
            }
            hom(ctx, FailStop, &Ratio(p, q), &c)
        },
    ));
    // every power of two as the size at which something may break
    let rs = rats(4);
    let nr = rs.len() as u64;
    v.push(space(
        "homographic-scales",
        format!("coefficients s*2^k + e at every scale k for small s, e, in every two positions, x {nr} operands"),
        62 * 12 * 9 * 9 * nr * 4,
        move |i, ctx| {
            let mut d = Dec(i);
            let k = d.n(62);
            let pos = d.n(12);
            let (a, b) = (d.n(9) as i64, d.n(9) as i64);
            let rest = d.n(4);
            let (p, q) = rs[d.0 as usize];
            let f = |v: i64| -> i64 { (v / 3 - 1).wrapping_mul(1i64 << k).wrapping_add(v % 3 - 1) };
            let mut c = [[1, 2, 1, 3], [0, 1, 1, 0], [1, 0, 0, 1], [-1, 1, 2, 1]][rest as usize];
            let (i1, i2) = (pos / 3, pos % 3);
            let i2 = if i2 >= i1 { i2 + 1 } else { i2 };
            c[i1 as usize] = f(a);
            c[i2 as usize] = f(b);
            hom(ctx, FailStop, &Ratio(p, q), &c)
        },
    ));
    let al: Vec<i64> = if t { vec![0, 1, -1, i64::MAX, i64::MIN] } else { vec![0, 1, i64::MAX, i64::MIN] };
    let mut ops: Vec<(i64, i64)> = vec![(1, 2), (-2, 3), (1, 1), (-1, 1), (i64::MIN, 1)];
    if t {
        ops.push((3, 1));
    }
    let (na, no) = (al.len() as u64, ops.len() as u64);
    v.push(space(
        "combine",
        format!("all octuples of {al:?} x all pairs of {no} operands"),
        na.pow(8) * no * no,
        move |i, ctx| {
            let mut d = Dec(i);
            let c = oct(&mut d, &al);
            let (x, y) = (d.of(&ops), d.of(&ops));
            comb(ctx, FailStop, &Ratio(x.0, x.1), &Ratio(y.0, y.1), &c)
        },
    ));
    const M: i64 = i64::MAX;
    let al: Vec<i64> = vec![0, 1, -2, M / 2 + 1, -(M / 2) - 1, M, -M + 1, i64::MIN];
    let rs: Vec<(i64, i64)> = vec![(1, 2), (2, 3), (1, 3), (-3, 4), (3, 2), (-5, 2)];
    v.push(space(
        "combine-one-side-extreme",
        "all numerators and all denominators of 8 values, six of them at and near the limits, the other side one of 3 x all pairs of 6 operands".to_string(),
        4096 * 2 * 3 * 36,
        move |i, ctx| {
            let mut d = Dec(i);
            let free: [i64; 4] = std::array::from_fn(|_| d.of(&al));
            let fixed = [[0, 0, 0, 1], [0, 2, 2, 4], [2, 0, -4, 6]][d.n(3) as usize];
            let (n, m) = if d.n(2) == 0 { (free, fixed) } else { (fixed, free) };
            let c = std::array::from_fn(|k| if k < 4 { n[k] } else { m[k - 4] });
            let (x, y) = (d.of(&rs), d.of(&rs));
            comb(ctx, FailStop, &Ratio(x.0, x.1), &Ratio(y.0, y.1), &c)
        },
    ));
    let mut ops = vec![];
    for p in &ex {
        for q in [1, 2, 3, 1 << 31, i64::MAX] {
            ops.push((*p, q));
        }
    }
    let ops: Vec<(i64, i64)> = if t { ops } else { ops.into_iter().step_by(1).take(110).collect() };
    let no = ops.len() as u64;
    v.push(space(
        "combine-operands",
        format!("40 forms x all pairs of {no} operands of extreme size"),
        40 * no * no,
        move |i, ctx| {
            let mut d = Dec(i);
            let c = FORMS[d.n(40) as usize];
            let (x, y) = (d.of(&ops), d.of(&ops));
            comb(ctx, FailStop, &Ratio(x.0, x.1), &Ratio(y.0, y.1), &c)
        },
    ));
    let rs: Vec<(i64, i64)> = vec![(1, 2), (2, 3), (1, 5), (-3, 7), (9, 4), (-5, 2), (1, 1)];
    let nr = rs.len() as u64;
    v.push(space(
        "combine-scales",
        format!("40 forms with every coefficient in turn, or all, moved to every scale 2^k (and next to it), x all pairs of {nr} operands"),
        40 * 9 * 62 * 3 * 2 * nr * nr,
        move |i, ctx| {
            let mut d = Dec(i);
            let mut c = FORMS[d.n(40) as usize];
            let pos = d.n(9) as usize;
            let k = d.n(62);
            let e = d.n(3) as i64 - 1;
            let s = if d.n(2) == 0 { 1i64 } else { -1 };
            let (x, y) = (d.of(&rs), d.of(&rs));
            for j in 0..8 {
                if pos == j {
                    c[j] = (s * (1i64 << k)).wrapping_add(e);
                }
                if pos == 8 {
                    match c[j].checked_mul(s * (1i64 << k)) {
                        Some(v) => c[j] = v,
                        None => return ctx.skip(),
                    }
                }
            }
            comb(ctx, FailStop, &Ratio(x.0, x.1), &Ratio(y.0, y.1), &c)
        },
    ));
    v.push(hom_patterns(false, FailStop));
    v.push(hom_critical(FailStop, pick(t, 0, 4) as u32, 58, 2));
    let nv = nwords(3) - 1;
    v.push(space(
        "combine-long-operands",
        "12 forms x pairs v^k, w^m (|v|,|w| <= 3) of lengths 8, 16, 24, 32, 40, 48 x all primers",
        12 * 16 * nv * nv * 36,
        move |i, ctx| {
            let mut d = Dec(i);
            let c = FORMS[d.n(12) as usize];
            let (p, q) = (d.n(4) as u8, d.n(4) as u8);
            let (u, w) = (word_at(d.n(nv) + 1), word_at(d.n(nv) + 1));
            let (l, m) = (8 + 8 * d.n(6) as usize, 8 + 8 * d.0 as usize);
            let f = |v: &[u8], l: usize| (0..l).map(|k| v[k % v.len()]).collect::<Vec<u8>>();
            comb(ctx, FailStop, &Word(p, f(&u, l)), &Word(q, f(&w, m)), &c)
        },
    ));
    // construction and comparison at the limits
    let lat = lattice_u(1);
    let n = lat.len() as u64;
    v.push(space(
        "ratio",
        format!("ratio_u and ratio over all pairs of {n} integers of all magnitudes"),
        n * n * 4,
        move |i, ctx| {
            let mut d = Dec(i);
            let (s, f) = (d.n(2) == 0, d.n(2) == 0);
            let (p, q) = (d.of(&lat), d.of(&lat));
            let o = if f {
                RatioU(s, p, q)
            } else {
                Ratio(p as i64, if s { q as i64 } else { (q as i64).wrapping_neg() })
            };
            if o.value().1 == 0 {
                return ctx.skip();
            }
            let (n, d) = o.value();
            let e = expect(n, d);
            match guard(|| drain(o.make(), e, ctx)) {
                Ok(Err(m)) => Err(format!("{}: {}, expected {}", o.show(), m, e.show())),
                Err(Panic::DivZero) => Err(format!("{}: got panic 'division by zero', expected {}", o.show(), e.show())),
                _ => Ok(()),
            }
        },
    ));
    let mut vals = vec![];
    for p in &ex {
        for q in [1, 3, 1 << 32, (1 << 62) + 1, i64::MAX - 1, i64::MAX, i64::MIN] {
            vals.push((*p, q));
        }
    }
    let n = vals.len() as u64;
    v.push(space(
        "compare",
        format!("all pairs of {n} ratios of extreme integers"),
        n * n,
        move |i, ctx| {
            let mut d = Dec(i);
            let (a, b) = (d.of(&vals), d.of(&vals));
            let (a, b) = (Ratio(a.0, a.1), Ratio(b.0, b.1));
            let want = order(a.value(), b.value());
            ctx.step(mix(mix(a.value().0 as u64, a.value().1 as u64), mix(b.value().0 as u64, b.value().1 as u64)));
            match guard(|| Number::compare(a.make(), b.make())) {
                Ok(o) if o != want => Err(format!("compare({}, {}): got {:?}, expected {:?}", a.show(), b.show(), o, want)),
                Err(Panic::DivZero) => Err(format!("compare({}, {}): got panic 'division by zero'", a.show(), b.show())),
                _ => {
                    ord_class(ctx, want);
                    Ok(())
                }
            }
        },
    ));
    v
}

// ---------------------------------------------------------------- C12

const ENDLESS: u64 = 50_000;

/// Construction and full extraction must end, without failing.
fn completes(ctx: &mut Ctx, mk: impl FnOnce() -> Number, call: impl Fn() -> String) -> R {
    let r = guard(|| match mk() {
        Number::Special(_) => {
            ctx.class(SPECIAL);
            ctx.transitions += 1;
            true
        }
        Number::Other(p, mut c) => {
            let mut k = 0u64;
            let mut h = primer_code(&p) as u64;
            while let Some(s) = c.egest() {
                k += 1;
                h = mix(h, code(&s) as u64);
                if k > ENDLESS {
                    return false;
                }
            }
            ctx.state(h);
            ctx.transitions += k + 1;
            ctx.class(OK);
            true
        }
    });
    ctx.note(|| call() + " completes");
    match r {
        Ok(true) => Ok(()),
        Ok(false) => Err(format!("{}: extraction does not end after {} symbols", call(), ENDLESS)),
        Err(Panic::DivZero) => {
            ctx.class(DIVZERO);
            Ok(())
        }
        Err(p) => Err(format!("{}: got {}", call(), p.show())),
    }
}

fn c12_hom(name: &'static str, al: Vec<i64>, rs: Vec<(i64, i64)>) -> Space {
    let (na, nr) = (al.len() as u64, rs.len() as u64);
    let rule = format!(
        "all quadruples of {} coefficients up to {} x {} operands up to {}",
        na,
        al.iter().map(|v| v.abs()).max().unwrap(),
        nr,
        rs.iter().map(|v| v.0.abs().max(v.1)).max().unwrap()
    );
    space(name, rule, na.pow(4) * nr, move |i, ctx| {
        let mut d = Dec(i);
        let c = quad(&mut d, &al);
        let (p, q) = rs[d.0 as usize];
        completes(
            ctx,
            || hom_make(Number::ratio(p as isize, q as isize), &c),
            || format!("homographic(ratio({p}, {q}); {}, {}, {}, {})", c[0], c[1], c[2], c[3]),
        )
    })
}

fn c12_comb(name: &'static str, al: Vec<i64>, rs: Vec<(i64, i64)>) -> Space {
    let (na, nr) = (al.len() as u64, rs.len() as u64);
    let rule = format!(
        "all octuples of {:?} x all pairs of {} operands up to {}",
        al,
        nr,
        rs.iter().map(|v| v.0.abs().max(v.1)).max().unwrap()
    );
    space(name, rule, na.pow(8) * nr * nr, move |i, ctx| {
        let mut d = Dec(i);
        let c = oct(&mut d, &al);
        let (x, y) = (d.of(&rs), d.of(&rs));
        completes(
            ctx,
            || {
                let (a, b) = (Ratio(x.0, x.1), Ratio(y.0, y.1));
                comb_make(a.make(), b.make(), &c)
            },
            || format!("combine(ratio{x:?}, ratio{y:?}; {c:?})"),
        )
    })
}

fn c12(t: bool) -> Vec<Space> {
    let mut v = vec![];
    if t {
        v.push(c12_hom("homographic", ints(6), rats(100)));
        v.push(c12_comb("combine", ints(2), rats(5)));
        v.push(c12_comb("combine-wide", ints(1), rats(6)));
    } else {
        v.push(c12_hom("homographic", ints(6), rats(9)));
        v.push(c12_hom("homographic-operands", ints(2), rats(100)));
        v.push(c12_hom("homographic-corner", vec![0, 1, -3, 5, -6, 6], rats(80)));
        v.push(c12_comb("combine", ints(1), rats(4)));
        v.push(c12_comb("combine-coefficients", ints(2), vec![(1, 2), (-2, 3), (5, 1)]));
        v.push(c12_comb("combine-operands", vec![0, 2, -1], rats(3)));
    }
    let rs = rats(40);
    let nr = rs.len() as u64;
    v.push(space(
        "basic-operations",
        format!("sum, difference, product, quotient of all pairs of {nr} operands up to 40"),
        4 * nr * nr,
        move |i, ctx| {
            let mut d = Dec(i);
            let c = FORMS[d.n(4) as usize];
            let (x, y) = (d.of(&rs), d.of(&rs));
            completes(
                ctx,
                || {
                    let (a, b) = (Ratio(x.0, x.1), Ratio(y.0, y.1));
                    comb_make(a.make(), b.make(), &c)
                },
                || format!("combine(ratio{x:?}, ratio{y:?}; {c:?})"),
            )
        },
    ));
    v
}

// ---------------------------------------------------------------- C15

/// Coefficients of the four operations, with either overall sign.
pub const SIGNS: [([i64; 4], [u8; 4], &str); 8] = [
    ([1, 0, 0, 1], [NONE, TURN, REFLECT, GROUND], "x"),
    ([-1, 0, 0, -1], [NONE, TURN, REFLECT, GROUND], "x"),
    ([-1, 0, 0, 1], [REFLECT, GROUND, NONE, TURN], "-x"),
    ([1, 0, 0, -1], [REFLECT, GROUND, NONE, TURN], "-x"),
    ([0, 1, 1, 0], [TURN, NONE, GROUND, REFLECT], "1/x"),
    ([0, -1, -1, 0], [TURN, NONE, GROUND, REFLECT], "1/x"),
    ([0, -1, 1, 0], [GROUND, REFLECT, TURN, NONE], "-1/x"),
    ([0, 1, -1, 0], [GROUND, REFLECT, TURN, NONE], "-1/x"),
];

pub fn sign_case(ctx: &mut Ctx, k: usize, s: Stream, n: usize) -> R {
    let (c, primers, name) = SIGNS[k];
    let want = primers[s.primer as usize];
    let reads = Rc::new(Cell::new(0usize));
    let (s2, r2) = (s.clone(), Rc::clone(&reads));
    let call = || format!("{} ({:?}) of {}", name, c, s.show());
    ctx.note(|| format!("{}: primer '{}', {} symbols", call(), primer_name(want), n));
    let r = guard(|| {
        let x = Number::Other(
            primer(s.primer),
            source(move || {
                let i = r2.get();
                if i > n + 100_000 {
                    panic!("harness: reads without end");
                }
                let r = s2.at(i);
                // the end counts once
                if r.is_some() || i == s2.head.len() {
                    r2.set(i + 1);
                }
                r.map(sym)
            }),
        );
        let mut z = match hom_make(x, &c) {
            Number::Special(v) => return Err(format!("got special {:?}", v)),
            Number::Other(p, z) if primer_code(&p) == want => z,
            Number::Other(p, _) => return Err(format!("got primer {:?}", p)),
        };
        for i in 0..n {
            let got = z.egest().map(|s| code(&s));
            let sym = s.at(i);
            if got != sym {
                return Err(format!("symbol {} is {:?}, expected {:?}", i, got, sym));
            }
            if reads.get() > i + 1 {
                return Err(format!("{} symbols read for {} delivered", reads.get(), i + 1));
            }
            if got.is_none() {
                break;
            }
        }
        Ok(())
    });
    ctx.transitions += n as u64;
    ctx.step(mix(ta_hash(&s), k as u64));
    match r {
        Ok(Ok(())) => {
            ctx.class(OK);
            Ok(())
        }
        Ok(Err(m)) => Err(format!("{}: {}", call(), m)),
        Err(p) => Err(format!("{}: got {}", call(), p.show())),
    }
}

fn c15(t: bool) -> Vec<Space> {
    let mut v = vec![];
    let lat = lattice_u(pick(t, 1, 2));
    let n = lat.len() as u64;
    v.push(space(
        "ratios",
        format!("8 coefficient choices on ratios of all pairs of {n} integers of all magnitudes"),
        8 * 2 * n * n,
        move |i, ctx| {
            let mut d = Dec(i);
            let (c, _, _) = SIGNS[d.n(8) as usize];
            let s = d.n(2) == 0;
            let (p, q) = (d.of(&lat), d.of(&lat));
            if q == 0 || p == 0 {
                return ctx.skip();
            }
            hom(ctx, Policy::Strict, &RatioU(s, p, q), &c)
        },
    ));
    if !HOOK {
        return v;
    }
    let l = pick(t, 12, 15) as u32;
    v.push(space(
        "words",
        format!("8 coefficient choices on all finite streams of length <= {l} x primers"),
        8 * 4 * nwords(l),
        move |i, ctx| {
            let mut d = Dec(i);
            let k = d.n(8) as usize;
            let p = d.n(4) as u8;
            let s = Stream { primer: p, head: word_at(d.0), period: vec![] };
            sign_case(ctx, k, s, l as usize + 2)
        },
    ));
    let nu = nwords(3);
    let nv = nwords(pick(t, 7, 9) as u32) - 1;
    let n = pick(t, 300, 600) as usize;
    v.push(space(
        "unending",
        format!("8 coefficient choices on unending streams u v v v... (|u| <= 3, all v up to {} symbols) x primers, {n} symbols each", pick(t, 7, 9)),
        8 * 4 * nu * nv,
        move |i, ctx| {
            let mut d = Dec(i);
            let k = d.n(8) as usize;
            let p = d.n(4) as u8;
            let s = Stream { primer: p, head: word_at(d.n(nu)), period: word_at(d.0 + 1) };
            sign_case(ctx, k, s, n)
        },
    ));
    let n = pick(t, 100_000, 2_000_000) as usize;
    v.push(space(
        "very-long",
        format!("8 coefficient choices on 30 unending streams x primers, {n} symbols each"),
        8 * 4 * 30,
        move |i, ctx| {
            let mut d = Dec(i);
            let k = d.n(8) as usize;
            let p = d.n(4) as u8;
            let s = Stream { primer: p, head: vec![], period: word_at(d.0 + 1) };
            sign_case(ctx, k, s, n)
        },
    ));
    let n = pick(t, 200_000, 2_000_000) as usize;
    let tails: [&[u8]; 3] = [&[], &[A], &[U]];
    v.push(space(
        "very-long-compare",
        format!("comparison of streams equal in {n} symbols, 14 periods x all pairs of tails x primers"),
        14 * 9 * 4,
        move |i, ctx| {
            let mut d = Dec(i);
            let p = d.n(4) as u8;
            let (ta, tb) = (tails[d.n(3) as usize], tails[d.n(3) as usize]);
            let v = word_at(d.0 + 1);
            let head: Vec<u8> = (0..n).map(|k| v[k % v.len()]).collect();
            let mk = |t: &[u8]| {
                let mut h = head.clone();
                h.extend(t);
                Stream { primer: p, head: h, period: vec![] }
            };
            stream_compare(ctx, mk(ta), mk(tb), false, Some(format!("{}^k of {} symbols", word_str(&v), n)))
        },
    ));
    v
}

// ---------------------------------------------------------------- C17

/// Both accessors on one number.
fn unwrap_case(ctx: &mut Ctx, e: Exp, mk: impl Fn() -> Number, call: impl Fn() -> String) -> R {
    ctx.note(|| format!("{}: {}", call(), e.show()));
    let special = guard(|| mk().unwrap_special());
    let other = guard(|| mk().unwrap_other());
    match (e, special, other) {
        (Exp::Special(v), Ok(s), Err(_)) if special_code(&s) == v => {
            ctx.class(SPECIAL);
            ctx.step(mix(0x17, (v + 1) as u64));
            Ok(())
        }
        (Exp::Other(p, r), Err(_), Ok((q, c))) if primer_code(&q) == p => {
            match guard(|| drain(Number::Other(q, c), Exp::Other(p, r), ctx)) {
                Ok(r) => r.map_err(|m| format!("{}: unwrapped {}, expected {}", call(), m, e.show())),
                Err(p) => Err(format!("{}: got {}", call(), p.show())),
            }
        }
        (_, s, o) => Err(format!(
            "{}: unwrap_special {}, unwrap_other {}, expected {}",
            call(),
            s.map_or("panics".to_string(), |s| format!("gives {:?}", s)),
            o.map_or("panics".to_string(), |o| format!("gives primer {:?}", o.0)),
            e.show()
        )),
    }
}

fn c17(t: bool) -> Vec<Space> {
    let mut v = vec![];
    let b = pick(t, 300, 1500);
    let n = 2 * b as u64 + 1;
    v.push(space(
        "ratios",
        format!("both accessors on the ratios of all integers up to {b}"),
        n * b as u64,
        move |i, ctx| {
            let mut d = Dec(i);
            let (p, q) = (d.n(n) as i64 - b, d.0 as i64 + 1);
            let e = expect(p as i128, q as i128);
            unwrap_case(ctx, e, || Ratio(p, q).make(), || Ratio(p, q).show())
        },
    ));
    let rs = rats(pick(t, 7, 12));
    let nr = rs.len() as u64;
    let rs2 = rs.clone();
    v.push(space(
        "results",
        format!("both accessors on 40 forms of all pairs of {nr} operands"),
        40 * nr * nr,
        move |i, ctx| {
            let mut d = Dec(i);
            let c = FORMS[d.n(40) as usize];
            let (x, y) = (d.of(&rs2), d.of(&rs2));
            let (x, y) = (Ratio(x.0, x.1), Ratio(y.0, y.1));
            match comb_exp(x.value(), y.value(), &c) {
                None => ctx.skip(),
                Some(e) => unwrap_case(ctx, e, || comb_make(x.make(), y.make(), &c), || {
                    format!("combine({}, {}; {:?})", x.show(), y.show(), c)
                }),
            }
        },
    ));
    let al = ints(pick(t, 3, 4));
    let na = al.len() as u64;
    v.push(space(
        "transformations",
        format!("both accessors on all transformations with coefficients up to {} of {nr} operands", na / 2),
        na.pow(4) * nr,
        move |i, ctx| {
            let mut d = Dec(i);
            let c = quad(&mut d, &al);
            let x = d.of(&rs);
            let x = Ratio(x.0, x.1);
            match hom_exp(x.value(), &c) {
                None => ctx.skip(),
                Some(e) => unwrap_case(ctx, e, || hom_make(x.make(), &c), || {
                    format!("homographic({}; {:?})", x.show(), c)
                }),
            }
        },
    ));
    let lat = lattice_u(pick(t, 0, 1));
    let n = lat.len() as u64;
    v.push(space(
        "magnitudes",
        format!("both accessors on the ratios of all pairs of {n} integers of all magnitudes, both signs"),
        2 * n * n,
        move |i, ctx| {
            let mut d = Dec(i);
            let x = RatioU(d.n(2) == 0, d.of(&lat), d.of(&lat));
            let (p, q) = x.value();
            if q == 0 {
                return ctx.skip();
            }
            unwrap_case(ctx, expect(p, q), || x.make(), || x.show())
        },
    ));
    if HOOK {
        let l = pick(t, 10, 14) as u32;
        v.push(space(
            "words",
            format!("both accessors on all streams of length <= {l} x primers, a symbol at a time being extracted and the rest unwrapped again"),
            4 * nwords(l),
            move |i, ctx| {
                let mut d = Dec(i);
                let p = d.n(4) as u8;
                let w = word_at(d.0);
                let x = Word(p, w.clone());
                let (n, m) = x.value();
                unwrap_case(ctx, expect(n, m), || x.make(), || x.show())?;
                let (mut q, mut z) = x.make().unwrap_other();
                for (k, s) in w.iter().enumerate() {
                    let got = z.egest().map(|s| code(&s));
                    if got != Some(*s) || primer_code(&q) != p {
                        return Err(format!("{}: primer {:?}, symbol {} is {:?} after unwrapping again", x.show(), q, k, got));
                    }
                    (q, z) = Number::Other(q, z).unwrap_other();
                }
                match z.egest() {
                    None => Ok(()),
                    Some(s) => Err(format!("{}: symbol {:?} after the end", x.show(), s)),
                }
            },
        ));
        v.push(space(
            "long",
            "unwrapping 14 unending streams x primers, 70000 symbols each, none of them read by the accessor",
            14 * 4,
            move |i, ctx| {
                let mut d = Dec(i);
                let s = Stream { primer: d.n(4) as u8, head: vec![], period: word_at(d.0 + 1) };
                ctx.note(|| format!("{}: 70000 symbols", s.show()));
                ctx.step(ta_hash(&s));
                let s2 = s.clone();
                let mut k = 0;
                let x = source(move || {
                    k += 1;
                    if k > 70_010 {
                        panic!("too much is read");
                    }
                    s2.at(k - 1).map(sym)
                });
                let (p, mut z) = Number::Other(primer(s.primer), x).unwrap_other();
                if primer_code(&p) != s.primer {
                    return Err(format!("{}: unwrapped primer {:?}", s.show(), p));
                }
                for i in 0..70_000 {
                    let got = z.egest().map(|s| code(&s));
                    if got != s.at(i) {
                        return Err(format!("{}: symbol {} is {:?}", s.show(), i, got));
                    }
                }
                ctx.transitions += 70_000;
                ctx.class(OK);
                Ok(())
            },
        ));
    }
    let syms = [Some(A), Some(U), None];
    let prims = [NONE, TURN, REFLECT, GROUND];
    let specs = [-1i64, 0, 1];
    v.push(space(
        "equality",
        "all pairs of symbols, of primers and of special values: equal exactly to themselves, and in agreement with comparison of special values",
        9 + 16 + 9,
        move |i, ctx| {
            ctx.step(mix(0x18, i));
            ctx.class(OK);
            let (i, (same, got, what)) = match i {
                0..=8 => {
                    let (a, b) = (syms[i as usize % 3], syms[i as usize / 3]);
                    (i, (a == b, a.map(sym) == b.map(sym), "symbols"))
                }
                9..=24 => {
                    let (a, b) = (prims[(i - 9) as usize % 4], prims[(i - 9) as usize / 4]);
                    (i - 9, (a == b, primer(a) == primer(b), "primers"))
                }
                _ => {
                    let (a, b) = (specs[(i - 25) as usize % 3], specs[(i - 25) as usize / 3]);
                    let mk = |v: i64| Number::ratio(v as isize, 1);
                    let o = Number::compare(mk(a), mk(b));
                    if o != a.cmp(&b) {
                        return Err(format!("special values {a} and {b} compare as {o:?}"));
                    }
                    (i - 25, (a == b, mk(a).unwrap_special() == mk(b).unwrap_special(), "special values"))
                }
            };
            ctx.note(|| format!("{what}, pair {i}: equal is {same}"));
            if same != got {
                return Err(format!("{what}, pair {i}: equality is {got}, expected {same}"));
            }
            Ok(())
        },
    ));
    v
}
