//! Memory held by numbers (C19): counted, per thread, at the allocator.

use crate::engine::*;
use crate::model::*;
use crate::monitor::Stream;
use crate::ops::Opd::*;
use crate::ops::*;
use crate::props::*;
use clarith::Number;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

pub struct Counting;

fn count(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        PEAK.with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static ALLOCATOR: Counting = Counting;

fn live() -> i64 {
    LIVE.with(|l| l.get())
}

/// A growth of less than this is nobody's concern: it is not per symbol.
const ROOM: i64 = 2048;

/// Largest growth while running something.
fn growth<T>(f: impl FnOnce() -> T) -> (T, i64) {
    let before = live();
    PEAK.with(|p| p.set(before));
    let r = f();
    (r, PEAK.with(|p| p.get()) - before)
}

/// Make a number, extract at most `n` symbols, drop it; the memory must not
/// grow by extraction and must be back where it was afterwards.  Failures
/// (division by zero, overflow) are as good as any end.
fn life(ctx: &mut Ctx, n: usize, make: impl Fn() -> Number, name: impl Fn() -> String) -> R {
    ctx.note(|| format!("{}: {} extractions", name(), n));
    let (mut done, mut base) = (0, None);
    let before = live();
    let out = guard(|| {
        if let Number::Other(_, mut z) = make() {
            base = Some(live());
            PEAK.with(|p| p.set(live()));
            while done < n && z.egest().is_some() {
                done += 1;
            }
        }
    });
    let grown = base.map_or(0, |b| PEAK.with(|p| p.get()) - b);
    let class = match out {
        Ok(()) => OK,
        Err(Panic::DivZero) => DIVZERO,
        Err(_) => OVERFLOW,
    };
    drop(out);
    let after = live();
    ctx.class(class);
    ctx.transitions += done as u64;
    ctx.step(mix(mix(mix(0xA110C, done as u64), class as u64), (base.unwrap_or(before) - before) as u64));
    if grown > ROOM {
        return Err(format!("{}: {} bytes more are held after {} extractions", name(), grown, done));
    }
    if after != before {
        // once more: something may have been set up for good
        let before = live();
        let _ = guard(|| {
            if let Number::Other(_, mut z) = make() {
                for _ in 0..done {
                    z.egest();
                }
            }
        });
        let lost = live() - before;
        if lost > 0 {
            return Err(format!("{}: {} bytes are not released after {} extractions", name(), lost, done));
        }
    }
    Ok(())
}

/// At most 2000 symbols more than asked for are read (constants read without end).
pub fn stream(s: &Stream, n: usize) -> Number {
    let (s, mut i) = (s.clone(), 0);
    Number::Other(
        primer(s.primer),
        source(move || {
            let r = s.at(i);
            i += 1;
            if i > n + 2000 {
                panic!("enough");
            }
            r.map(sym)
        }),
    )
}

const CUTS: [usize; 4] = [0, 1, 3, 400];

pub fn c19(t: bool) -> Vec<Space> {
    let mut v = vec![];
    let rs = rats(pick(t, 12, 30));
    let nr = rs.len() as u64;
    let al = ints(2);
    v.push(space(
        "transformations",
        format!("all quadruples up to 2 x {nr} operands, dropped after 0, 1, 3 or all symbols"),
        625 * nr * 4,
        move |i, ctx| {
            let mut d = Dec(i);
            let n = CUTS[d.n(4) as usize];
            let c = quad(&mut d, &al);
            let x = rs[d.0 as usize];
            let o = Ratio(x.0, x.1);
            life(ctx, n, || hom_make(o.make(), &c), || format!("homographic({}; {:?})", o.show(), c))
        },
    ));
    let rs = rats(pick(t, 8, 16));
    let nr = rs.len() as u64;
    v.push(space(
        "combinations",
        format!("40 forms x all pairs of {nr} operands, dropped after 0, 1, 3 or all symbols"),
        40 * nr * nr * 4,
        move |i, ctx| {
            let mut d = Dec(i);
            let n = CUTS[d.n(4) as usize];
            let c = FORMS[d.n(40) as usize];
            let (x, y) = (d.of(&rs), d.of(&rs));
            let (x, y) = (Ratio(x.0, x.1), Ratio(y.0, y.1));
            life(
                ctx,
                n,
                || comb_make(x.make(), y.make(), &c),
                || format!("combine({}, {}; {:?})", x.show(), y.show(), c),
            )
        },
    ));
    let lat = lattice_u(1);
    let n = lat.len() as u64;
    v.push(space(
        "ratios",
        format!("all pairs of {n} integers of all magnitudes, dropped after 0, 1, 3 or all symbols"),
        n * n * 4,
        move |i, ctx| {
            let mut d = Dec(i);
            let k = CUTS[d.n(4) as usize];
            let o = RatioU(true, d.of(&lat), d.of(&lat));
            life(ctx, k, || o.make(), || o.show())
        },
    ));
    let rs = rats(pick(t, 20, 40));
    let nr = rs.len() as u64;
    v.push(space(
        "comparisons",
        format!("comparison of all pairs of {nr} ratios, and of each with a sum"),
        nr * nr * 2,
        move |i, ctx| {
            let mut d = Dec(i);
            let sum = d.n(2) == 0;
            let (x, y) = (d.of(&rs), d.of(&rs));
            let (x, y) = (Ratio(x.0, x.1), Ratio(y.0, y.1));
            life(
                ctx,
                0,
                || {
                    let z = if sum { comb_make(x.make(), y.make(), &FORMS[0]) } else { y.make() };
                    Number::compare(x.make(), z);
                    x.make()
                },
                || format!("compare({}, {}{})", x.show(), y.show(), if sum { " + itself" } else { "" }),
            )
        },
    ));
    let rs = rats(pick(t, 30, 60));
    v.push(space(
        "consumption",
        format!("consumption of {} ratios and of a transformation of each", rs.len()),
        2 * rs.len() as u64,
        move |i, ctx| {
            let (x, k) = (rs[i as usize / 2], i % 2);
            let o = Ratio(x.0, x.1);
            life(
                ctx,
                400,
                || {
                    let x = if k == 0 { o.make() } else { hom_make(o.make(), &[2, 1, 1, 3]) };
                    Number::consume(x).0.unwrap_or_else(|| o.make())
                },
                || format!("consume({})", o.show()),
            )
        },
    ));
    v.push(space(
        "towers",
        "towers of 1 to 200 transformations, each of 4 kinds, on 3 ratios",
        200 * 4 * 3,
        move |i, ctx| {
            let mut d = Dec(i);
            let o = [Ratio(22, 7), Ratio(-3, 5), Ratio(1, 9)][d.n(3) as usize].clone();
            let c = [[-1, 0, 0, 1], [0, 1, 1, 0], [-1, 1, 0, 1], [1, -1, 1, 1]][d.n(4) as usize];
            let depth = d.0 + 1;
            life(
                ctx,
                400,
                || (0..depth).fold(o.make(), |x, _| hom_make(x, &c)),
                || format!("{} levels of {:?} on {}", depth, c, o.show()),
            )
        },
    ));
    if !HOOK {
        return v;
    }
    let (nu, nv) = (nwords(2), nwords(pick(t, 5, 7) as u32) - 1);
    let n = pick(t, 1000, 3000) as usize;
    v.push(space(
        "unending",
        format!("sign changes and reciprocals of unending streams u v v v... (|u| <= 2, all v up to {} symbols) x primers, {n} symbols each", pick(t, 5, 7)),
        4 * 4 * nu * nv,
        move |i, ctx| {
            let mut d = Dec(i);
            let c = [[1, 0, 0, 1], [-1, 0, 0, 1], [0, 1, 1, 0], [0, -1, 1, 0]][d.n(4) as usize];
            let s = Stream { primer: d.n(4) as u8, head: word_at(d.n(nu)), period: word_at(d.0 + 1) };
            life(ctx, n, || hom_make(stream(&s, n), &c), || format!("homographic({}; {:?})", s.show(), c))
        },
    ));
    let nv = nwords(3) - 1;
    v.push(space(
        "very-long",
        "sign changes and reciprocals of unending streams v v v... (|v| <= 3) x primers, 40 000 symbols each",
        4 * 4 * nv,
        move |i, ctx| {
            let mut d = Dec(i);
            let c = [[1, 0, 0, 1], [-1, 0, 0, 1], [0, 1, 1, 0], [0, -1, 1, 0]][d.n(4) as usize];
            let s = Stream { primer: d.n(4) as u8, head: vec![], period: word_at(d.0 + 1) };
            let n = 40_000;
            life(ctx, n, || hom_make(stream(&s, n), &c), || format!("homographic({}; {:?})", s.show(), c))
        },
    ));
    let al = ints(3);
    let nv = nwords(3) - 1;
    v.push(space(
        "unending-transformations",
        "all quadruples up to 3 x unending streams v v v... (|v| <= 3) x primers, until overflow or 400 symbols",
        2401 * 4 * nv,
        move |i, ctx| {
            let mut d = Dec(i);
            let c = quad(&mut d, &al);
            let s = Stream { primer: d.n(4) as u8, head: vec![], period: word_at(d.0 + 1) };
            life(ctx, 400, || hom_make(stream(&s, 400), &c), || format!("homographic({}; {:?})", s.show(), c))
        },
    ));
    v.push(space(
        "unending-combinations",
        "40 forms x all pairs of unending streams v v v... (|v| <= 3) x primers, until overflow or 400 symbols",
        40 * 16 * nv * nv,
        move |i, ctx| {
            let mut d = Dec(i);
            let c = FORMS[d.n(40) as usize];
            let x = Stream { primer: d.n(4) as u8, head: vec![], period: word_at(d.n(nv) + 1) };
            let y = Stream { primer: d.n(4) as u8, head: vec![], period: word_at(d.n(nv) + 1) };
            life(
                ctx,
                400,
                || comb_make(stream(&x, 400), stream(&y, 400), &c),
                || format!("combine({}, {}; {:?})", x.show(), y.show(), c),
            )
        },
    ));
    let n = 40_000;
    v.push(space(
        "long-cancellations",
        format!("forms such as y/1 and xy/x that are one operand or its reciprocal, both signs, of an unending operand of 6 periods and a run of amplifies x primers, until overflow or {n} symbols"),
        crate::long::NCANCELLED,
        move |i, ctx| {
            let (c, x, y, _, _, call) = crate::long::cancelled(i);
            life(ctx, n, || comb_make(stream(&x, 2 * n), stream(&y, 2 * n), &c), || call.clone())
        },
    ));
    let nv = nwords(4) - 1;
    v.push(space(
        "long-comparisons",
        "comparison of streams v v v... (|v| <= 4) that differ first after 10 to 40 000 symbols, x primers",
        nv * 4 * 4,
        move |i, ctx| {
            let mut d = Dec(i);
            let p = d.n(4) as u8;
            let n = [10, 500, 5000, 40_000][d.n(4) as usize];
            let s = Stream { primer: p, head: vec![], period: word_at(d.0 + 1) };
            let name = format!("compare({}) equal for {} symbols", s.show(), n);
            let cut = |last: Option<u8>| {
                let (s, mut i) = (s.clone(), 0);
                Number::Other(primer(p), source(move || {
                    i += 1;
                    if i <= n { s.at(i - 1) } else if i == n + 1 { last } else { Some(A) }.map(sym)
                }))
            };
            let (x, y) = (cut(Some(A)), cut(Some(U)));
            let (_, g) = growth(|| Number::compare(x, y));
            ctx.transitions += n as u64;
            ctx.step(mix(i, n as u64));
            if g > ROOM {
                return Err(format!("{name}: {g} bytes are taken"));
            }
            Ok(())
        },
    ));
    v
}
