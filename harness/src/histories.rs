//! Properties about sequences of operations: C02, C13, C14.

use crate::engine::*;
use crate::model::*;
use crate::ops::*;
use crate::props::{consume_case, order, pick};
use clarith::{Clog, Number};

type Q = (i128, i128);

fn reduced(v: Q) -> Q {
    let g = gcd(v.0.unsigned_abs(), v.1.unsigned_abs()) as i128;
    let g = if v.1 < 0 { -g } else { g };
    (v.0 / g, v.1 / g)
}

fn hom_value(x: Q, c: &[i64; 4]) -> Option<Q> {
    let l = |a: i64, b: i64| a as i128 * x.0 + b as i128 * x.1;
    let (n, d) = (l(c[0], c[1]), l(c[2], c[3]));
    if d == 0 {
        None
    } else {
        Some(reduced((n, d)))
    }
}

fn comb_value(x: Q, y: Q, c: &[i64; 8]) -> Option<Q> {
    let l = |k: usize| {
        c[k] as i128 * x.0 * y.0
            + c[k + 1] as i128 * x.0 * y.1
            + c[k + 2] as i128 * y.0 * x.1
            + c[k + 3] as i128 * x.1 * y.1
    };
    let (n, d) = (l(0), l(4));
    if d == 0 {
        None
    } else {
        Some(reduced((n, d)))
    }
}

fn ratio(v: Q) -> Number {
    Number::ratio(v.0 as isize, v.1 as isize)
}

// ---------------------------------------------------------------- C02

#[derive(Clone, Copy)]
enum Act {
    Extract,
    Prime(u8),
    Hom([i64; 4], &'static str),
    /// x is the live number, the other operand a constant
    Left([i64; 8], (i64, i64), &'static str),
    Right([i64; 8], (i64, i64), &'static str),
}

const ACTS: [Act; 14] = [
    Act::Extract,
    Act::Prime(NONE),
    Act::Prime(TURN),
    Act::Prime(REFLECT),
    Act::Prime(GROUND),
    Act::Hom([1, 1, 0, 1], "x+1"),
    Act::Hom([0, -1, 1, 0], "-1/x"),
    Act::Hom([2, 1, 1, -3], "(2x+1)/(x-3)"),
    Act::Hom([3, 0, 0, 4], "3x/4"),
    Act::Left(FORMS[0], (1, 3), "x+1/3"),
    Act::Right(FORMS[1], (-7, 5), "-7/5-x"),
    Act::Left(FORMS[2], (3, 7), "x*3/7"),
    Act::Right(FORMS[3], (2, 5), "(2/5)/x"),
    Act::Left(FORMS[9], (5, 2), "(x+5/2)/(1-5x/2)"),
];

fn act_name(a: &Act) -> String {
    match a {
        Act::Extract => "extract".into(),
        Act::Prime(p) => format!("rewrap('{}')", primer_name(*p)),
        Act::Hom(_, s) | Act::Left(_, _, s) | Act::Right(_, _, s) => s.to_string(),
    }
}

enum Step {
    Go(Number, Q),
    Prune,
    Bad(String),
}

fn parts(x: Number, v: Q) -> Result<Option<(u8, Clog, Res)>, String> {
    match (x, expect(v.0, v.1)) {
        (Number::Special(s), Exp::Special(e)) if special_code(&s) == e => Ok(None),
        (Number::Other(p, c), Exp::Other(e, r)) if primer_code(&p) == e => Ok(Some((e, c, r))),
        (Number::Special(s), e) => Err(format!("is special {}, expected {}", special_code(&s), e.show())),
        (Number::Other(p, _), e) => Err(format!("has primer {:?}, expected {}", p, e.show())),
    }
}

fn res_value(r: Res) -> (u128, u128) {
    match r {
        Res::S(n, d) => (n as u128, d as u128),
        Res::B(n, d) => {
            let f = |v: crate::big::U256| (v.0[1] as u128) << 64 | v.0[0] as u128;
            (f(n), f(d))
        }
    }
}

fn symbols(v: Q) -> usize {
    match expect(v.0, v.1) {
        Exp::Special(_) => 0,
        Exp::Other(_, r) => r.word().len(),
    }
}

/// Whether coefficients could possibly reach the machine limit.
fn heavy(a: &Act, v: Q) -> bool {
    let l = |c: &[i64], k: (i64, i64), w: Option<Q>| {
        may_overflow(c, symbols(v) + symbols((k.0 as i128, k.1 as i128)) + w.map_or(0, symbols))
    };
    match a {
        Act::Hom(c, _) => l(c, (1, 2), hom_value(v, c)),
        Act::Left(c, k, _) => l(c, *k, comb_value(v, (k.0 as i128, k.1 as i128), c)),
        Act::Right(c, k, _) => l(c, *k, comb_value((k.0 as i128, k.1 as i128), v, c)),
        _ => false,
    }
}

fn act(ctx: &mut Ctx, a: &Act, x: Number, v: Q) -> Step {
    match a {
        Act::Extract | Act::Prime(_) => {
            let (p, mut c, mut r) = match parts(x, v) {
                Err(m) => return Step::Bad(m),
                Ok(None) => return Step::Prune,
                Ok(Some(t)) => t,
            };
            if let Act::Prime(k) = a {
                let (n, d) = res_value(r);
                return Step::Go(Number::Other(primer(*k), c), primed_value(*k, n, d));
            }
            let want = r.next();
            let got = c.egest().map(|s| code(&s));
            ctx.step(r.hash());
            if got != want {
                return Step::Bad(format!("extraction gives {:?}, expected {:?}", got, want));
            }
            if want.is_none() {
                for _ in 0..3 {
                    if c.egest().is_some() {
                        return Step::Bad("extraction after the end gives a symbol".into());
                    }
                }
            }
            let (n, d) = res_value(r);
            Step::Go(Number::Other(primer(p), c), primed_value(p, n, d))
        }
        Act::Hom(c, _) => match hom_value(v, c) {
            None => Step::Prune,
            Some(w) => Step::Go(hom_make(x, c), w),
        },
        Act::Left(c, k, _) => {
            let kq = (k.0 as i128, k.1 as i128);
            match comb_value(v, kq, c) {
                None => Step::Prune,
                Some(w) => Step::Go(comb_make(x, ratio(kq), c), w),
            }
        }
        Act::Right(c, k, _) => {
            let kq = (k.0 as i128, k.1 as i128);
            match comb_value(kq, v, c) {
                None => Step::Prune,
                Some(w) => Step::Go(comb_make(ratio(kq), x, c), w),
            }
        }
    }
}

fn history(ctx: &mut Ctx, start: Q, word: Option<(u8, Vec<u8>)>, acts: &[usize], terminal: u64) -> R {
    let call = || {
        let names: Vec<String> = acts.iter().map(|a| act_name(&ACTS[*a])).collect();
        format!(
            "start at {}/{}{}, then {}, then {}",
            start.0,
            start.1,
            if word.is_some() { " (stream)" } else { "" },
            names.join(", "),
            ["extract all", "compare", "consume"][terminal as usize]
        )
    };
    let mut outcome: Option<(Number, Q)> = None;
    let mut may = false;
    let r = guard(|| {
        let mut x = match &word {
            None => ratio(start),
            Some((p, w)) => word_number(*p, w),
        };
        let mut v = start;
        for a in acts {
            may = may || heavy(&ACTS[*a], v);
            match act(ctx, &ACTS[*a], x, v) {
                Step::Go(y, w) => {
                    x = y;
                    v = w;
                    ctx.step(mix(mix(0xC2, v.0 as u64), v.1 as u64));
                }
                Step::Prune => return Ok(()),
                Step::Bad(m) => return Err(m),
            }
        }
        outcome = Some((x, v));
        Ok(())
    });
    ctx.note(call);
    match r {
        Ok(Ok(())) => {}
        Ok(Err(m)) => return Err(format!("{}: {}", call(), m)),
        Err(Panic::Overflow(_)) if may => {
            ctx.class(OVERFLOW);
            return ctx.skip();
        }
        Err(p) => return Err(format!("{}: got {}", call(), p.show())),
    }
    let (x, v) = match outcome {
        None => return ctx.skip(),
        Some(o) => o,
    };
    match terminal {
        0 => match guard(|| drain(x, expect(v.0, v.1), ctx)) {
            Ok(Ok(())) => Ok(()),
            Ok(Err(m)) => Err(format!("{}: {}, expected {}", call(), m, expect(v.0, v.1).show())),
            Err(Panic::Overflow(_)) if may => ctx.skip(),
            Err(p) => Err(format!("{}: got {}", call(), p.show())),
        },
        1 => {
            let fits = v.0.abs() <= i64::MAX as i128 && v.1 <= i64::MAX as i128;
            let k = if acts.len() % 2 == 0 || !fits { (3, 7) } else { v };
            let want = order(v, k);
            match guard(|| Number::compare(x, ratio(k))) {
                Ok(o) if o == want => {
                    ctx.class(match o {
                        std::cmp::Ordering::Less => LESS,
                        std::cmp::Ordering::Equal => EQUAL,
                        _ => GREATER,
                    });
                    Ok(())
                }
                Ok(o) => Err(format!("{}: comparison with {:?} gives {:?}", call(), k, o)),
                Err(Panic::Overflow(_)) if may => ctx.skip(),
                Err(p) => Err(format!("{}: got {}", call(), p.show())),
            }
        }
        _ => consume_case(ctx, || x, v, may, call),
    }
}

pub fn c02(t: bool) -> Vec<Space> {
    let mut v = vec![];
    let starts: Vec<(i64, i64)> = rats(pick(t, 5, 6));
    let k = ACTS.len() as u64;
    const NAMES: [&str; 6] =
        ["histories-0", "histories-1", "histories-2", "histories-3", "histories-4", "histories-5"];
    for len in 0..=pick(t, 4, 5) as u32 {
        let starts: Vec<(i64, i64)> = if len == 5 {
            vec![(1, 2), (2, 3), (-5, 2), (1, 8), (1, 1)]
        } else if len == 4 && !t {
            rats(3)
        } else {
            starts.clone()
        };
        let ns = starts.len() as u64;
        v.push(space(
            NAMES[len as usize],
            format!("{ns} starting ratios x all sequences of {len} out of {k} operations x 3 final operations"),
            ns * k.pow(len) * 3,
            move |i, ctx| {
                let mut d = Dec(i);
                let term = d.n(3);
                let acts: Vec<usize> = (0..len).map(|_| d.n(k) as usize).collect();
                let s = starts[d.0 as usize];
                history(ctx, (s.0 as i128, s.1 as i128), None, &acts, term)
            },
        ));
    }
    // longer starting sequences, from streams, extracted a varying distance
    let l = pick(t, 7, 9) as u32;
    let nw = nwords(l);
    v.push(space(
        "partly-extracted",
        format!("all sequences of length <= {l} under all primers, extracted 0..{} times, then each operation and each final operation", l + 1),
        4 * nw * (l as u64 + 2) * k * 3,
        move |i, ctx| {
            let mut d = Dec(i);
            let term = d.n(3);
            let p = d.n(4) as u8;
            let e = d.n(l as u64 + 2) as usize;
            let a = d.n(k) as usize;
            let w = word_at(d.0);
            let (n, q) = word_value(&w);
            let mut acts = vec![0; e];
            acts.push(a);
            history(ctx, primed_value(p, n, q), Some((p, w)), &acts, term)
        },
    ));
    // numbers made by each constructor, extracted step by step past their end
    let rs = rats(pick(t, 14, 30));
    let nr = rs.len() as u64;
    v.push(space(
        "constructors-to-end",
        format!("40 forms on all pairs of {nr} operands where one is fixed to 5 values: every symbol, the end and three extractions after it"),
        40 * nr * 5 * 2,
        move |i, ctx| {
            let mut d = Dec(i);
            let c = FORMS[d.n(40) as usize];
            let sw = d.n(2) == 0;
            let y = [(1i64, 2i64), (2, 3), (-5, 2), (1, 8), (1, 1)][d.n(5) as usize];
            let x = rs[d.0 as usize];
            let (x, y) = if sw { (x, y) } else { (y, x) };
            comb(ctx, Policy::Exact, &Opd::Ratio(x.0, x.1), &Opd::Ratio(y.0, y.1), &c)
        },
    ));
    // long ratios, cut anywhere
    let long: Vec<Q> = vec![
        (123_456_789, 987_654_321),
        (-i64::MAX as i128, 2),
        (1, i64::MAX as i128),
        (i64::MAX as i128 - 1, i64::MAX as i128),
        (7_540_113_804_746_346_429, 4_660_046_610_375_530_309),
        (-3, 1 << 62),
    ];
    let cut = 96u64;
    let nl = long.len() as u64;
    v.push(space(
        "long-ratios",
        format!("{nl} ratios of long representations, extracted 0..{} times, then each operation and each final operation", cut - 1),
        nl * cut * k * 3,
        move |i, ctx| {
            let mut d = Dec(i);
            let (term, a) = (d.n(3), d.n(k) as usize);
            let s = long[d.n(nl) as usize];
            let mut acts = vec![0; d.0 as usize];
            if acts.len() > symbols(s) {
                return ctx.skip();
            }
            acts.push(a);
            history(ctx, s, None, &acts, term)
        },
    ));
    // an end is an end for ever
    let rs = rats(6);
    let nr = rs.len() as u64;
    let polls = pick(t, 70_000, 1_000_000) as u64;
    v.push(space(
        "end-for-ever",
        format!("{nr} ratios, each of 4 transformations and 5 combinations of them, extracted {polls} times after the end"),
        nr * 10,
        move |i, ctx| {
            let mut d = Dec(i);
            let a = [1, 5, 6, 7, 8, 9, 10, 11, 12, 13][d.n(10) as usize];
            let s = rs[d.0 as usize];
            let s = (s.0 as i128, s.1 as i128);
            let call = || format!("start at {}/{}, then {}, extracted to the end and {} times more", s.0, s.1, act_name(&ACTS[a]), polls);
            ctx.note(call);
            match guard(|| match act(ctx, &ACTS[a], ratio(s), s) {
                Step::Bad(m) => Err(m),
                Step::Prune | Step::Go(Number::Special(_), _) => Ok(()),
                Step::Go(Number::Other(_, mut c), v) => {
                    for _ in 0..symbols(v) {
                        if c.egest().is_none() {
                            return Err("the end comes too early".into());
                        }
                    }
                    for k in 0..polls {
                        if c.egest().is_some() {
                            return Err(format!("another symbol after {k} extractions at the end"));
                        }
                    }
                    ctx.transitions += polls;
                    ctx.class(OK);
                    Ok(())
                }
            }) {
                Ok(r) => r,
                Err(p) => Err(format!("got {}", p.show())),
            }
            .map_err(|m| format!("{}: {}", call(), m))
        },
    ));
    v
}

// ---------------------------------------------------------------- C13

const UNARY: [([i64; 4], &str); 8] = [
    ([1, 1, 0, 1], "({}+1)"),
    ([-1, 0, 0, 1], "(-{})"),
    ([0, 1, 1, 0], "(1/{})"),
    ([2, -1, 0, 1], "(2*{}-1)"),
    ([1, 0, 0, 3], "({}/3)"),
    ([1, -1, 1, 1], "(({0}-1)/({0}+1))"),
    ([3, 1, 2, -5], "((3*{0}+1)/(2*{0}-5))"),
    ([0, 2, 0, 7], "(2/7+0*{})"),
];

const BINARY: [([i64; 8], &str); 5] = [
    (FORMS[0], "+"),
    (FORMS[1], "-"),
    (FORMS[2], "*"),
    (FORMS[3], "/"),
    (FORMS[9], "tan+"),
];

const LEAVES: [(i64, i64); 11] = [
    (1, 2),
    (0, 1),
    (1, 1),
    (-1, 1),
    (2, 1),
    (-2, 3),
    (3, 5),
    (-7, 4),
    (1, 10),
    (22, 7),
    (5, 8),
];

#[derive(Clone)]
enum Expr {
    Leaf(usize),
    Un(usize, Box<Expr>),
    Bin(usize, Box<Expr>, Box<Expr>),
}

impl Expr {
    fn value(&self) -> Option<Q> {
        match self {
            Expr::Leaf(i) => Some((LEAVES[*i].0 as i128, LEAVES[*i].1 as i128)),
            Expr::Un(k, x) => hom_value(x.value()?, &UNARY[*k].0),
            Expr::Bin(k, x, y) => comb_value(x.value()?, y.value()?, &BINARY[*k].0),
        }
    }
    fn build(&self) -> Number {
        match self {
            Expr::Leaf(i) => Number::ratio(LEAVES[*i].0 as isize, LEAVES[*i].1 as isize),
            Expr::Un(k, x) => hom_make(x.build(), &UNARY[*k].0),
            Expr::Bin(k, x, y) => comb_make(x.build(), y.build(), &BINARY[*k].0),
        }
    }
    fn show(&self) -> String {
        match self {
            Expr::Leaf(i) => format!("{}/{}", LEAVES[*i].0, LEAVES[*i].1),
            Expr::Un(k, x) => {
                let s = x.show();
                UNARY[*k].1.replace("{0}", &s).replace("{}", &s)
            }
            Expr::Bin(k, x, y) => format!("({} {} {})", x.show(), BINARY[*k].1, y.show()),
        }
    }
}

fn expr_case(ctx: &mut Ctx, e: &Expr) -> R {
    let v = match e.value() {
        None => return ctx.skip(),
        Some(v) => v,
    };
    let want = expect(v.0, v.1);
    ctx.note(|| format!("{} = {}/{} = {}", e.show(), v.0, v.1, want.show()));
    match guard(|| drain(e.build(), want, ctx)) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(m)) => Err(m),
        Err(p) => Err(format!("got {}", p.show())),
    }
    .map_err(|m| format!("{}: {}, expected {}", e.show(), m, want.show()))
}

/// A tower of combinations with constants, as deep as the values stay small.
fn chain_case(ctx: &mut Ctx, leaf: usize, steps: &[usize], depth: usize) -> R {
    let apply = |k: usize, v: Q| {
        let c = &BINARY[k / 2 % 4].0;
        let y = [(1, 2), (2, 1), (-2, 3), (3, 5)][k / 8];
        if k % 2 == 0 {
            comb_value(v, y, c)
        } else {
            comb_value(y, v, c)
        }
    };
    let show = || {
        let n: Vec<String> = steps
            .iter()
            .map(|k| {
                let (o, y) = (BINARY[k / 2 % 4].1, ["1/2", "2", "-2/3", "3/5"][k / 8]);
                if k % 2 == 0 {
                    format!("x {o} {y}")
                } else {
                    format!("{y} {o} x")
                }
            })
            .collect();
        format!("[{}] repeated to depth {} on {}/{}", n.join("; "), depth, LEAVES[leaf].0, LEAVES[leaf].1)
    };
    let mut v = (LEAVES[leaf].0 as i128, LEAVES[leaf].1 as i128);
    for i in 0..depth {
        v = match apply(steps[i % steps.len()], v) {
            Some(v) if v.0.abs() <= 100 && v.1 <= 100 => v,
            _ => return ctx.skip(),
        };
    }
    let want = expect(v.0, v.1);
    ctx.note(|| format!("{} = {}", show(), want.show()));
    let r = guard(|| {
        let mut x = Number::ratio(LEAVES[leaf].0 as isize, LEAVES[leaf].1 as isize);
        for i in 0..depth {
            let k = steps[i % steps.len()];
            let c = &BINARY[k / 2 % 4].0;
            let y = [(1, 2), (2, 1), (-2, 3), (3, 5)][k / 8];
            let y = Number::ratio(y.0, y.1);
            x = if k % 2 == 0 { comb_make(x, y, c) } else { comb_make(y, x, c) };
        }
        drain(x, want, ctx)
    });
    match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(m)) => Err(m),
        Err(p) => Err(format!("got {}", p.show())),
    }
    .map_err(|m| format!("{}: {}, expected {}", show(), m, want.show()))
}

fn tower_case(ctx: &mut Ctx, leaf: usize, word: &[usize], depth: usize) -> R {
    let mut v = (LEAVES[leaf].0 as i128, LEAVES[leaf].1 as i128);
    for i in 0..depth {
        v = match hom_value(v, &UNARY[word[i % word.len()]].0) {
            Some(v) if v.0.abs() <= 100 && v.1.abs() <= 100 => reduced(v),
            _ => return ctx.skip(),
        };
    }
    let want = expect(v.0, v.1);
    let name = || {
        let w: Vec<&str> = word.iter().map(|k| UNARY[*k].1).collect();
        format!("{} levels of {} on {}/{}", depth, w.join(", "), LEAVES[leaf].0, LEAVES[leaf].1)
    };
    ctx.note(|| format!("{} = {}", name(), want.show()));
    let r = guard(|| {
        let mut x = Number::ratio(LEAVES[leaf].0 as isize, LEAVES[leaf].1 as isize);
        for i in 0..depth {
            x = hom_make(x, &UNARY[word[i % word.len()]].0);
        }
        drain(x, want, ctx)
    });
    match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(m)) => Err(m),
        Err(p) => Err(format!("got {}", p.show())),
    }
    .map_err(|m| format!("{}: {}, expected {}", name(), m, want.show()))
}

pub fn c13(t: bool) -> Vec<Space> {
    let nl = LEAVES.len();
    let leaves: Vec<Expr> = (0..nl).map(Expr::Leaf).collect();
    let mut one = leaves.clone();
    for k in 0..UNARY.len() {
        for x in &leaves {
            one.push(Expr::Un(k, Box::new(x.clone())));
        }
    }
    for k in 0..BINARY.len() {
        for x in &leaves {
            for y in &leaves {
                one.push(Expr::Bin(k, Box::new(x.clone()), Box::new(y.clone())));
            }
        }
    }
    let mut v = vec![];
    let n1 = one.len() as u64;
    let nb = BINARY.len() as u64;
    let one1 = one.clone();
    v.push(space(
        "depth-2",
        format!("all {nb} binary operations on all pairs of the {n1} expressions of depth at most 1 over 11 leaves"),
        nb * n1 * n1,
        move |i, ctx| {
            let mut d = Dec(i);
            let k = d.n(nb) as usize;
            let (x, y) = (&one1[d.n(n1) as usize], &one1[d.0 as usize]);
            expr_case(ctx, &Expr::Bin(k, Box::new(x.clone()), Box::new(y.clone())))
        },
    ));
    let one2 = one.clone();
    v.push(space(
        "unary-chains",
        format!("all pairs of 8 transformations on the {n1} expressions of depth at most 1"),
        64 * n1,
        move |i, ctx| {
            let mut d = Dec(i);
            let (k, m) = (d.n(8) as usize, d.n(8) as usize);
            let x = one2[d.0 as usize].clone();
            expr_case(ctx, &Expr::Un(k, Box::new(Expr::Un(m, Box::new(x)))))
        },
    ));
    let one3 = one.clone();
    v.push(space(
        "depth-3",
        format!("binary operation of a leaf and a transformed or combined expression of depth 1 with a leaf, both ways"),
        2 * nb * nb * n1 * 4 * 4,
        move |i, ctx| {
            let mut d = Dec(i);
            let sw = d.n(2) == 0;
            let (k, m) = (d.n(nb) as usize, d.n(nb) as usize);
            let (a, b) = (4 + d.n(4) as usize, 4 + d.n(4) as usize);
            let x = one3[d.0 as usize].clone();
            let lf = |i: usize| Box::new(Expr::Leaf(i));
            let e = if sw {
                Expr::Bin(k, lf(a), Box::new(Expr::Bin(m, Box::new(x), lf(b))))
            } else {
                Expr::Bin(k, Box::new(Expr::Bin(m, lf(b), Box::new(x))), lf(a))
            };
            expr_case(ctx, &e)
        },
    ));
    v.push(space(
        "transformation-towers",
        "all towers of 5 transformations on 11 leaves",
        8u64.pow(5) * 11,
        move |i, ctx| {
            let mut d = Dec(i);
            let ks: Vec<usize> = (0..5).map(|_| d.n(8) as usize).collect();
            let mut e = Expr::Leaf(d.0 as usize);
            for k in ks {
                e = Expr::Un(k, Box::new(e));
            }
            expr_case(ctx, &e)
        },
    ));
    let words: Vec<Vec<usize>> = (1..4u32)
        .flat_map(|l| (0..7u64.pow(l)).map(move |i| { let mut d = Dec(i); (0..l).map(|_| d.n(7) as usize).collect() }))
        .collect();
    let depths: &'static [usize] = if t { &[6, 8, 12, 16, 24, 32, 48, 64, 128, 256, 512, 1000] } else { &[8, 16, 32, 64, 128, 1000] };
    v.push(space(
        "deep-towers",
        format!("all patterns of up to 3 out of 7 transformations repeated up to a depth of {depths:?}, on 11 leaves, where no numerator or denominator exceeds 100"),
        words.len() as u64 * depths.len() as u64 * 11,
        move |i, ctx| {
            let mut d = Dec(i);
            let leaf = d.n(11) as usize;
            let depth = depths[d.n(depths.len() as u64) as usize];
            tower_case(ctx, leaf, &words[d.0 as usize], depth)
        },
    ));
    let depths: &'static [usize] = if t { &[4, 6, 8, 12, 16, 24, 48, 100, 200] } else { &[6, 12, 24, 60] };
    let nd = depths.len() as u64;
    v.push(space(
        "combination-chains",
        format!("all patterns of 1 or 2 out of 32 combinations with a constant (+ - * / with 1/2, 2, -2/3 or 3/5 on either side) repeated up to a depth of {depths:?}, on 5 leaves, where no numerator or denominator exceeds 100"),
        33 * 32 * nd * 5,
        move |i, ctx| {
            let mut d = Dec(i);
            let (a, b) = (d.n(32) as usize, d.n(33) as usize);
            let depth = depths[d.n(nd) as usize];
            let leaf = [0, 5, 6, 7, 4][d.0 as usize];
            let steps = if b == 32 { vec![a] } else { vec![a, b] };
            chain_case(ctx, leaf, &steps, depth)
        },
    ));
    let fl = 4;
    let nl = pick(t, 5, 7) as u64;
    v.push(space(
        "folds",
        format!("((a . b) . c) ... and a . (b . (c ...)) of {fl} operations out of + - * / on {nl} leaves"),
        2 * 4u64.pow(fl) * nl.pow(fl + 1),
        move |i, ctx| {
            let mut d = Dec(i);
            let left = d.n(2) == 0;
            let lf = |d: &mut Dec| Expr::Leaf([0, 5, 6, 7, 4, 1, 2][d.n(nl) as usize]);
            let mut e = lf(&mut d);
            for _ in 0..fl {
                let k = d.n(4) as usize;
                let l = lf(&mut d);
                e = if left { Expr::Bin(k, Box::new(e), Box::new(l)) } else { Expr::Bin(k, Box::new(l), Box::new(e)) };
            }
            expr_case(ctx, &e)
        },
    ));
    let rs = rats(pick(t, 14, 15));
    let nr = rs.len() as u64;
    v.push(space(
        "identities",
        format!("(x+y)-y, (x-y)+y, (x*y)/y, (x/y)*y, y-(y-x), 1/(1/x), -(-x) for all pairs of {nr} operands"),
        7 * nr * nr,
        move |i, ctx| {
            let mut d = Dec(i);
            let k = d.n(7) as usize;
            let (x, y) = (d.of(&rs), d.of(&rs));
            let mk = |v: (i64, i64)| Number::ratio(v.0 as isize, v.1 as isize);
            let (add, sub, mul, div) = (&FORMS[0], &FORMS[1], &FORMS[2], &FORMS[3]);
            if (k == 2 || k == 3) && y.0 == 0 || k == 5 && x.0 == 0 {
                return ctx.skip();
            }
            if k >= 5 && y != rs[0] {
                return ctx.skip();
            }
            let want = expect(x.0 as i128, x.1 as i128);
            let name = || {
                let n = ["(x+y)-y", "(x-y)+y", "(x*y)/y", "(x/y)*y", "y-(y-x)", "1/(1/x)", "-(-x)"][k];
                format!("{n} with x = {x:?}, y = {y:?}")
            };
            ctx.note(|| format!("{} = {}", name(), want.show()));
            let r = guard(|| {
                let z = match k {
                    0 => comb_make(comb_make(mk(x), mk(y), add), mk(y), sub),
                    1 => comb_make(comb_make(mk(x), mk(y), sub), mk(y), add),
                    2 => comb_make(comb_make(mk(x), mk(y), mul), mk(y), div),
                    3 => comb_make(comb_make(mk(x), mk(y), div), mk(y), mul),
                    4 => comb_make(mk(y), comb_make(mk(y), mk(x), sub), sub),
                    5 => hom_make(hom_make(mk(x), &[0, 1, 1, 0]), &[0, 1, 1, 0]),
                    _ => hom_make(hom_make(mk(x), &[-1, 0, 0, 1]), &[-1, 0, 0, 1]),
                };
                drain(z, want, ctx)
            });
            match r {
                Ok(Ok(())) => Ok(()),
                Ok(Err(m)) => Err(m),
                Err(p) => Err(format!("got {}", p.show())),
            }
            .map_err(|m| format!("{}: {}, expected {}", name(), m, want.show()))
        },
    ));
    v
}

// ---------------------------------------------------------------- C14

const KINDS: usize = 16;

/// A little program on one number: construction, extractions, disposal.
struct Proc {
    kind: usize,
    live: Option<Clog>,
    res: Option<Res>,
    log: Vec<u8>,
}

fn kind_name(k: usize) -> &'static str {
    [
        "ratio(2, 7)",
        "ratio(-19, 5)",
        "ratio_u(true, MAX, 3)",
        "homographic(ratio(5, 8); 2, 1, 1, -3)",
        "homographic(ratio(-7, 4); 3, 1, 2, -5)",
        "combine sum of 2/7 and 3/11",
        "combine product of -19/5 and 5/8",
        "combine quotient of sums",
        "homographic of combine",
        "same sum again",
        "homographic(ratio(2, 7); 1, 0, 0, 1)",
        "rewrapped remainder of ratio(13, 31)",
        "comparisons",
        "consumptions",
        "failing operations",
        "dropped constructions",
    ][k]
}

fn kind_value(k: usize) -> Option<Q> {
    Some(match k {
        0 => (2, 7),
        1 => (-19, 5),
        2 => (u64::MAX as i128, 3),
        3 => hom_value((5, 8), &[2, 1, 1, -3])?,
        4 => hom_value((-7, 4), &[3, 1, 2, -5])?,
        5 | 9 => comb_value((2, 7), (3, 11), &FORMS[0])?,
        6 => comb_value((-19, 5), (5, 8), &FORMS[2])?,
        7 => comb_value(
            comb_value((2, 7), (3, 11), &FORMS[0])?,
            comb_value((1, 3), (3, 5), &FORMS[1])?,
            &FORMS[3],
        )?,
        8 => hom_value(comb_value((2, 7), (3, 11), &FORMS[2])?, &[1, 2, 3, 1])?,
        10 => (2, 7),
        11 => {
            let mut r = Res::new(13, 31);
            r.next();
            let (n, d) = res_value(r);
            primed_value(TURN, n, d)
        }
        _ => return None,
    })
}

fn kind_make(k: usize) -> Number {
    let q = |n: isize, d: isize| Number::ratio(n, d);
    match k {
        0 => q(2, 7),
        1 => q(-19, 5),
        2 => Number::ratio_u(true, usize::MAX, 3),
        3 => hom_make(q(5, 8), &[2, 1, 1, -3]),
        4 => hom_make(q(-7, 4), &[3, 1, 2, -5]),
        5 | 9 => comb_make(q(2, 7), q(3, 11), &FORMS[0]),
        6 => comb_make(q(-19, 5), q(5, 8), &FORMS[2]),
        7 => comb_make(
            comb_make(q(2, 7), q(3, 11), &FORMS[0]),
            comb_make(q(1, 3), q(3, 5), &FORMS[1]),
            &FORMS[3],
        ),
        8 => hom_make(comb_make(q(2, 7), q(3, 11), &FORMS[2]), &[1, 2, 3, 1]),
        10 => hom_make(q(2, 7), &[1, 0, 0, 1]),
        _ => {
            let (_, mut c) = q(13, 31).unwrap_other();
            c.egest();
            Number::Other(primer(TURN), c)
        }
    }
}

impl Proc {
    fn new(kind: usize) -> Proc {
        Proc { kind, live: None, res: None, log: vec![] }
    }
    fn step(&mut self, first: bool, last: bool, ctx: &mut Ctx) -> R {
        ctx.transitions += 1;
        let q = |n: isize, d: isize| Number::ratio(n, d);
        let r = match kind_value(self.kind) {
            None => guard(|| match self.kind {
                12 => {
                    let l = Number::compare(q(1, 3), q(2, 3));
                    if l != std::cmp::Ordering::Less {
                        return Err("a comparison is wrong".to_string());
                    }
                    let o = Number::compare(q(2, 7), hom_make(q(5, 8), &[2, 1, 1, -3]));
                    let e = Number::compare(comb_make(q(2, 7), q(3, 11), &FORMS[0]), q(43, 77));
                    if o != std::cmp::Ordering::Greater || e != std::cmp::Ordering::Equal {
                        return Err("a comparison is wrong".to_string());
                    }
                    Ok(())
                }
                13 => {
                    let (y, a, b, c, d) = Number::consume(q(2, 7));
                    // (a/2 + b) / (c/2 + d) = 2/7
                    if y.is_some() || (a + 2 * b) * 7 != (c + 2 * d) * 2 || c + 2 * d == 0 {
                        return Err("a consumption is wrong".to_string());
                    }
                    Ok(())
                }
                14 => {
                    for k in 0..3 {
                        let r = guard(|| match k {
                            0 => hom_make(q(2, 7), &[1, 0, 7, -2]),
                            1 => comb_make(q(2, 7), q(2, 7), &[0, 1, 0, 0, 0, 1, -1, 0]),
                            _ => q(1, 0),
                        });
                        if !matches!(r, Err(Panic::DivZero)) {
                            return Err("a division by zero is not reported".to_string());
                        }
                    }
                    Ok(())
                }
                _ => {
                    for k in 0..12 {
                        drop(kind_make(k));
                    }
                    Ok(())
                }
            }),
            Some(v) => guard(|| {
                if first {
                    match (kind_make(self.kind), expect(v.0, v.1)) {
                        (Number::Other(p, c), Exp::Other(e, r)) if primer_code(&p) == e => {
                            self.live = Some(c);
                            self.res = Some(r);
                        }
                        _ => return Err("construction gives a wrong primer".into()),
                    }
                    return Ok(());
                }
                let (c, r) = (self.live.as_mut().unwrap(), self.res.as_mut().unwrap());
                let want = r.next();
                let got = c.egest().map(|s| code(&s));
                ctx.state(mix(r.hash(), self.kind as u64));
                if got != want {
                    return Err(format!("extraction gives {:?}, expected {:?}", got, want));
                }
                self.log.push(got.unwrap_or(2));
                if last {
                    self.live = None;
                }
                Ok(())
            }),
        };
        match r {
            Ok(Ok(())) => Ok(()),
            Ok(Err(m)) => Err(format!("{}: {}", kind_name(self.kind), m)),
            Err(p) => Err(format!("{}: got {}", kind_name(self.kind), p.show())),
        }
    }
}

/// All distinct orders of n1 zeros, n2 ones, n3 twos.
fn interleavings(counts: &[usize]) -> Vec<Vec<u8>> {
    fn go(c: &mut Vec<usize>, cur: &mut Vec<u8>, out: &mut Vec<Vec<u8>>) {
        if c.iter().all(|n| *n == 0) {
            out.push(cur.clone());
            return;
        }
        for i in 0..c.len() {
            if c[i] > 0 {
                c[i] -= 1;
                cur.push(i as u8);
                go(c, cur, out);
                cur.pop();
                c[i] += 1;
            }
        }
    }
    let mut out = vec![];
    go(&mut counts.to_vec(), &mut vec![], &mut out);
    out
}

fn schedule_case(ctx: &mut Ctx, kinds: &[usize], order: &[u8], steps: usize) -> R {
    let mut ps: Vec<Proc> = kinds.iter().map(|k| Proc::new(*k)).collect();
    let mut done = vec![0; kinds.len()];
    let call = || {
        let names: Vec<&str> = kinds.iter().map(|k| kind_name(*k)).collect();
        let s: String = order.iter().map(|o| (b'1' + o) as char).collect();
        format!("steps of [{}] in order {}", names.join(" | "), s)
    };
    ctx.note(call);
    for o in order {
        let o = *o as usize;
        let r = ps[o].step(done[o] == 0, done[o] + 1 == steps, ctx);
        done[o] += 1;
        r.map_err(|m| format!("{}: {}", call(), m))?;
    }
    ctx.class(OK);
    Ok(())
}

const FAILURES: usize = 9;

fn failure_name(op: usize) -> &'static str {
    [
        "a comparison with the same word",
        "a comparison with the reverse operands",
        "a consumption",
        "a transformation",
        "another transformation",
        "a combination (first operand)",
        "a combination (second operand)",
        "another combination (first operand)",
        "nested transformation and combination",
    ][op]
}

/// An operation one of whose operands fails after the word.
fn failure(op: usize, p: u8, w: &[u8]) {
    let fed = |fail: bool| {
        let w = w.to_vec();
        let mut i = 0;
        let s = source(move || {
            i += 1;
            match w.get(i - 1) {
                Some(s) => Some(sym(*s)),
                None if fail => panic!("harness: operand fails"),
                None => None,
            }
        });
        Number::Other(primer(p), s)
    };
    let run = |z: Number| {
        if let Number::Other(_, mut c) = z {
            for _ in 0..40 {
                if c.egest().is_none() {
                    break;
                }
            }
        }
    };
    let q = |n: isize, d: isize| Number::ratio(n, d);
    match op {
        0 => {
            Number::compare(fed(true), fed(false));
        }
        1 => {
            Number::compare(fed(false), fed(true));
        }
        2 => {
            let (rest, ..) = Number::consume(fed(true));
            rest.map(run);
        }
        3 => run(hom_make(fed(true), &[3, 1, 2, 5])),
        4 => run(hom_make(fed(true), &[-1, 2, 0, 3])),
        5 => run(comb_make(fed(true), q(3, 7), &FORMS[0])),
        6 => run(comb_make(q(-5, 3), fed(true), &FORMS[2])),
        7 => run(comb_make(fed(true), fed(false), &FORMS[3])),
        _ => run(hom_make(comb_make(fed(false), hom_make(fed(true), &[1, 1, 0, 1]), &FORMS[2]), &[2, 1, 1, 3])),
    }
}

extern "C" {
    fn lseek(fd: i32, off: i64, whence: i32) -> i64;
}

fn written() -> (i64, i64) {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    let _ = std::io::stderr().flush();
    unsafe { (lseek(1, 0, 1), lseek(2, 0, 1)) }
}

/// Operands of all magnitudes, small ones and ones with shared low or high bits among them.
fn magnitudes() -> Vec<(i64, i64)> {
    let mut v = vec![(1, 2), (1, 3), (2, 3), (-2, 3), (5, 7), (7, 5), (-7, 5), (3, 1), (-1, 4)];
    for k in [7u32, 8, 15, 16, 31, 32, 48, 62] {
        let b = 1i64 << k;
        v.extend([(b + 1, 2), (1, b + 2), (b + 2, 3), (2, b + 3), (b + 5, b + 7), (-1, b + 3), (-b - 1, 2)]);
    }
    v
}

fn use_name(f: usize, x: (i64, i64)) -> String {
    let x = Opd::Ratio(x.0, x.1).show();
    match f {
        0 => x,
        1 => format!("negated reciprocal of {x}"),
        2 => format!("{x} plus one third"),
        3 => format!("comparison of {x} with one third"),
        _ => format!("consumption of {x}"),
    }
}

/// An overflow is none of this property's business.
fn use_case(ctx: &mut Ctx, f: usize, x: (i64, i64)) -> R {
    let o = Opd::Ratio(x.0, x.1);
    match f {
        0 => hom(ctx, Policy::FailStop, &o, &[1, 0, 0, 1]),
        1 => hom(ctx, Policy::FailStop, &o, &[0, -1, 1, 0]),
        2 => comb(ctx, Policy::FailStop, &o, &Opd::Ratio(1, 3), &[0, 1, 1, 0, 0, 0, 0, 1]),
        3 => {
            let want = (3 * x.0 as i128).cmp(&(x.1 as i128));
            let got = Number::compare(o.make(), Number::ratio(1, 3));
            ctx.step(mix(0xCE, got as i8 as u64));
            if got != want {
                return Err(format!("got {:?}, expected {:?}", got, want));
            }
            Ok(())
        }
        _ => {
            consume_case(ctx, || o.make(), o.value(), false, || "consumed".to_string())
        }
    }
}

/// What is run once more only to see that nothing is written: rare paths of every operation.
const SILENT: [(&str, &[&str]); 6] = [
    ("C02", &["long-ratios"]),
    ("C07", &["homographic-poles", "combine-poles"]),
    ("C10", &[]),
    ("C11", &["homographic", "extreme-operands", "combine", "ratio", "compare"]),
    ("C13", &["deep-towers"]),
    ("C20", &["operand-fails-directly", "transformation-overflows"]),
];

/// The cases of another property, whose outcome does not matter here; what they write is seen
/// by the caller of this program.
fn silent(prop: &str, sp: Space) -> Space {
    let name: &'static str = Box::leak(format!("silence-{}-{}", prop, sp.name).into_boxed_str());
    let run = sp.run;
    space(name, format!("nothing is written in: {}", sp.rule), sp.len, move |i, ctx| {
        let _ = guard(|| run(i, ctx));
        Ok(())
    })
}

pub fn c14(t: bool) -> Vec<Space> {
    let mut v = vec![];
    let k = KINDS as u64;
    // first the standard streams, one operation at a time
    let al = ints(pick(t, 1, 2));
    let na = al.len() as u64;
    let rs = rats(5);
    let nr = rs.len() as u64;
    let rs2 = rs.clone();
    let mut s = space(
        "standard-streams",
        format!("all quadruples up to {} x {nr} operands, then 40 forms x 9 operands, comparison, consumption, failing operations: bytes written to the standard streams", na / 2),
        na.pow(4) * nr + 40 * 81 + k,
        move |i, ctx| {
            let before = written();
            let what;
            let n4 = na.pow(4) * nr;
            if i < n4 {
                let mut d = Dec(i);
                let c = [d.of(&al), d.of(&al), d.of(&al), d.of(&al)];
                let (p, q) = rs2[d.0 as usize];
                what = format!("homographic(ratio({p}, {q}); {c:?}), extracted, consumed, compared");
                let mk = || hom_make(Number::ratio(p as isize, q as isize), &c);
                let _ = guard(|| use_up(mk(), ctx));
                let _ = guard(|| Number::consume(mk()));
                let _ = guard(|| Number::compare(mk(), Number::ratio(p as isize, q as isize)));
            } else if i < n4 + 40 * 81 {
                let mut d = Dec(i - n4);
                let c = FORMS[d.n(40) as usize];
                let xs = [(0, 1), (1, 1), (-1, 1), (1, 2), (2, 3), (-3, 5), (7, 3), (-4, 1), (1, 9)];
                let (x, y): ((i64, i64), (i64, i64)) = (d.of(&xs), d.of(&xs));
                what = format!("combine(ratio{x:?}, ratio{y:?}; {c:?}), extracted");
                let _ = guard(|| {
                    let mk = |v: (i64, i64)| Number::ratio(v.0 as isize, v.1 as isize);
                    use_up(comb_make(mk(x), mk(y), &c), ctx)
                });
            } else {
                let kind = (i - n4 - 40 * 81) as usize;
                what = kind_name(kind).to_string();
                let mut p = Proc::new(kind);
                for j in 0..6 {
                    let _ = p.step(j == 0, j == 5, ctx);
                }
            }
            ctx.step(mix(0x5D, i));
            let after = written();
            ctx.note(|| format!("{what}: nothing written"));
            if before != after {
                return Err(format!(
                    "{}: {} bytes written to standard output, {} to standard error",
                    what,
                    after.0 - before.0,
                    after.1 - before.1
                ));
            }
            ctx.class(OK);
            Ok(())
        },
    );
    s.serial = true;
    v.push(s);
    let steps = 5;
    let orders = interleavings(&[steps, steps]);
    let no = orders.len() as u64;
    v.push(space(
        "two-numbers",
        format!("all {no} interleavings of {steps} steps each x all pairs of {k} kinds of number or activity"),
        no * k * k,
        move |i, ctx| {
            let mut d = Dec(i);
            let (a, b) = (d.n(k) as usize, d.n(k) as usize);
            schedule_case(ctx, &[a, b], &orders[d.0 as usize], steps)
        },
    ));
    let steps = 3;
    let orders = interleavings(&[steps, steps, steps]);
    let no = orders.len() as u64;
    let sub: Vec<usize> = if t { (0..KINDS).collect() } else { vec![0, 3, 5, 8, 9, 12, 14] };
    let nk = sub.len() as u64;
    v.push(space(
        "three-numbers",
        format!("all {no} interleavings of {steps} steps each x all triples of {nk} kinds"),
        no * nk * nk * nk,
        move |i, ctx| {
            let mut d = Dec(i);
            let ks = [d.of(&sub), d.of(&sub), d.of(&sub)];
            schedule_case(ctx, &ks, &orders[d.0 as usize], steps)
        },
    ));
    if t {
        let orders = interleavings(&[2, 2, 2, 2]);
        let no = orders.len() as u64;
        let sub = [0usize, 3, 5, 8, 14];
        v.push(space(
            "four-numbers",
            format!("all {no} interleavings of 2 steps each x all quadruples of 5 kinds"),
            no * 625,
            move |i, ctx| {
                let mut d = Dec(i);
                let ks = [d.of(&sub), d.of(&sub), d.of(&sub), d.of(&sub)];
                schedule_case(ctx, &ks, &orders[d.0 as usize], 2)
            },
        ));
    }
    let reps = pick(t, 70_000, 500_000) as u64;
    v.push(space(
        "repetition",
        format!("each of {k} kinds, {reps} times in a row in one thread"),
        k,
        move |i, ctx| {
            for r in 0..reps {
                let mut p = Proc::new(i as usize);
                for j in 0..6 {
                    p.step(j == 0, j == 5, ctx).map_err(|m| format!("repetition {}: {}", r + 1, m))?;
                }
            }
            ctx.note(|| format!("{} {} times", kind_name(i as usize), reps));
            ctx.class(OK);
            Ok(())
        },
    ));
    // an operation that fails half way, then another one
    if HOOK {
        let l = pick(t, 5, 8) as u32;
        let nw = nwords(l);
        v.push(space(
            "after-failure",
            format!("{FAILURES} operations x 4 primers x all words of length <= {l} after which the operand fails, then each of {k} kinds"),
            FAILURES as u64 * 4 * nw * k,
            move |i, ctx| {
                let mut d = Dec(i);
                let kind = d.n(k) as usize;
                let op = d.n(FAILURES as u64) as usize;
                let (p, w) = (d.n(4) as u8, word_at(d.0));
                let call = || format!("after {} with an operand that fails after '{}{}'", failure_name(op), primer_name(p), word_str(&w));
                ctx.note(|| format!("{}: {}", call(), kind_name(kind)));
                ctx.step(mix(mix(0xFA, op as u64), d.0 * 4 + p as u64));
                let r = guard(|| failure(op, p, &w));
                ctx.class(if r.is_err() { OVERFLOW } else { OK });
                let mut o = Proc::new(kind);
                for j in 0..6 {
                    o.step(j == 0, j == 5, ctx).map_err(|m| format!("{}: {}", call(), m))?;
                }
                Ok(())
            },
        ));
    }
    // one operation after another, on unrelated operands
    let xs = magnitudes();
    let nx = xs.len() as u64;
    v.push(space(
        "after-another",
        format!("a ratio, transformation, sum, comparison or consumption, then another one, on all ordered pairs of {nx} operands of all magnitudes"),
        25 * nx * nx,
        move |i, ctx| {
            let mut d = Dec(i);
            let (f, g) = (d.n(5) as usize, d.n(5) as usize);
            let (x, y) = (d.of(&xs), d.of(&xs));
            let call = || format!("{} after {}", use_name(g, y), use_name(f, x));
            ctx.note(call);
            use_case(ctx, f, x).map_err(|m| format!("{}: {}", use_name(f, x), m))?;
            use_case(ctx, g, y).map_err(|m| format!("{}: {}", call(), m))
        },
    ));
    // many numbers alive at the same time
    let most = pick(t, 1000, 5000) as u64;
    v.push(space(
        "many-numbers",
        format!("2, 3, 10, 100 or {most} numbers of each pair of 12 kinds alive at the same time, extracted in turn, in either direction"),
        5 * 144 * 2,
        move |i, ctx| {
            let mut d = Dec(i);
            let n = [2, 3, 10, 100, most][d.n(5) as usize];
            let (a, b) = (d.n(12) as usize, d.n(12) as usize);
            let forth = d.0 == 0;
            let call = || format!("{} numbers, in turn {} and {}", n, kind_name(a), kind_name(b));
            ctx.note(call);
            let mut ps: Vec<Proc> = (0..n).map(|k| Proc::new(if k % 2 == 0 { a } else { b })).collect();
            for j in 0..5 {
                for k in 0..ps.len() {
                    let k = if forth || j % 2 == 0 { k } else { ps.len() - 1 - k };
                    ps[k].step(j == 0, j == 4, ctx).map_err(|m| format!("{}: {}", call(), m))?;
                }
            }
            ctx.class(OK);
            Ok(())
        },
    ));
    // one long-lived number among many short-lived ones
    let n = pick(t, 400, 4000) as u64;
    v.push(space(
        "long-lived",
        format!("one number of each kind extracted once after every 1 to {n} other operations of each kind"),
        12 * k * 4,
        move |i, ctx| {
            let mut d = Dec(i);
            let (a, b) = (d.n(12) as usize, d.n(k) as usize);
            let gap = [1, 7, n / 4, n][d.0 as usize];
            let mut p = Proc::new(a);
            for j in 0..8 {
                p.step(j == 0, false, ctx).map_err(|m| format!("long-lived among {}: {}", kind_name(b), m))?;
                for _ in 0..gap {
                    let mut o = Proc::new(b);
                    for s in 0..3 {
                        o.step(s == 0, s == 2, ctx)?;
                    }
                }
            }
            ctx.note(|| format!("{} among {}", kind_name(a), kind_name(b)));
            ctx.class(OK);
            Ok(())
        },
    ));
    for (prop, names) in SILENT {
        for sp in crate::props::spaces(prop, false) {
            if names.is_empty() || names.contains(&sp.name) {
                v.push(silent(prop, sp));
            }
        }
    }
    v
}

fn use_up(x: Number, ctx: &mut Ctx) {
    if let Number::Other(_, mut c) = x {
        for _ in 0..5000 {
            ctx.transitions += 1;
            if c.egest().is_none() {
                return;
            }
        }
    }
}
