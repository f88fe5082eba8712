//! Operands close to the points where a transformation or combination cannot
//! yet be decided: near its zeros, poles and preimages of 1, -1, 1/2 and 1/3,
//! many symbols have to be read before the next one can be delivered.

use crate::engine::*;
use crate::model::*;
use crate::monitor::*;
use crate::ops::Opd::*;
use crate::ops::*;
use crate::props::*;

/// All words up to a length, then u v^k (|u| <= 1, |v| <= 3) of every greater length.
pub fn approaches(all: u32, max: usize) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = (0..nwords(all)).map(word_at).collect();
    for len in all as usize + 1..=max {
        for u in 0..3 {
            for z in 1..nwords(3) {
                let (mut w, z) = (word_at(u), word_at(z));
                let k = w.len();
                while w.len() < len {
                    w.push(z[(w.len() - k) % z.len()]);
                }
                if !v[v.len().saturating_sub(42)..].contains(&w) {
                    v.push(w);
                }
            }
        }
    }
    v
}

/// Transformations that are critical at p/q.
pub const CRITICAL: u64 = 14;
fn critical(k: u64, p: i64, q: i64) -> [i64; 4] {
    match k {
        0 => [q, -p, 0, 1],
        1 => [q, -p, 0, q],
        2 => [0, 1, q, -p],
        3 => [1, 0, q, -p],
        4 => [q, 1 - p, 0, 1],
        5 => [q, -1 - p, 0, 1],
        6 => [2 * q, 1 - 2 * p, 0, 2],
        7 => [-3 * q, 1 + 3 * p, 0, 3],
        8 => [q, -p, q, p],
        9 => [q, -p, 1, 3],
        10 => [2 * q, 3 - 2 * p, q, 1 - p],
        11 => [0, q, 1, 0],
        12 => [q, 0, 0, p],
        _ => [-p, 0, q, -2 * p],
    }
}

fn point(p: u8, w: &[u8]) -> (i64, i64) {
    let (n, d) = word_value(w);
    let (n, d) = primed_value(p, n, d);
    (n as i64, d as i64)
}

fn join(w: &[u8], v: &[u8]) -> Vec<u8> {
    w.iter().chain(v).copied().collect()
}

fn describe(all: u32, max: usize, n: usize) -> String {
    format!("{n} reduction sequences (all of length <= {all}, periodic ones up to length {max})")
}

/// Results of transformations with operands approaching their critical points.
pub fn hom_critical(pol: Policy, all: u32, max: usize, tail: u32) -> Space {
    let ws = approaches(all, max);
    let (nw, nt) = (ws.len() as u64, nwords(tail));
    space(
        "near-critical",
        format!(
            "{CRITICAL} transformations with a zero, pole or other decision point at each of {} x primers, on all continuations of length <= {tail}",
            describe(all, max, ws.len())
        ),
        CRITICAL * 4 * nw * nt,
        move |i, ctx| {
            let mut d = Dec(i);
            let k = d.n(CRITICAL);
            let p = d.n(4) as u8;
            let v = word_at(d.n(nt));
            let w = &ws[d.0 as usize];
            let (n, m) = point(p, w);
            hom(ctx, pol, &Word(p, join(w, &v)), &critical(k, n, m))
        },
    )
}

/// Poles, and operands that miss them far from the beginning.
pub fn hom_critical_pole(all: u32, max: usize, tail: u32) -> Space {
    let ws = approaches(all, max);
    let (nw, nt) = (ws.len() as u64, nwords(tail));
    space(
        "homographic-deep-poles",
        format!(
            "6 transformations with a pole at each of {} x primers, there and on all continuations of length <= {tail}",
            describe(all, max, ws.len())
        ),
        6 * 4 * nw * nt,
        move |i, ctx| {
            let mut d = Dec(i);
            let k = d.n(6) as usize;
            let p = d.n(4) as u8;
            let v = word_at(d.n(nt));
            let w = &ws[d.0 as usize];
            let (n, m) = point(p, w);
            let c = [
                [0, 1, m, -n],
                [1, 0, m, -n],
                [1, -1, -m, n],
                [m, -n, m, -n],
                [n, m, 2 * m, -2 * n],
                [0, 0, m, -n],
            ][k];
            hom_pole(ctx, &Word(p, join(w, &v)), &c)
        },
    )
}

/// The same under the exact monitor.
pub fn hom_critical_monitored(what: What, all: u32, max: usize, tail: u32) -> Space {
    let ws = approaches(all, max);
    let (nw, nt) = (ws.len() as u64, nwords(tail));
    space(
        "homographic-near-critical",
        format!(
            "{CRITICAL} transformations with a zero, pole or other decision point at each of {} x primers, on all continuations of length <= {tail}, ended or unending",
            describe(all, max, ws.len())
        ),
        CRITICAL * 4 * nw * nt * 3,
        move |i, ctx| {
            let mut d = Dec(i);
            let k = d.n(CRITICAL);
            let p = d.n(4) as u8;
            let period = [vec![], vec![A], vec![A, U]][d.n(3) as usize].clone();
            let v = word_at(d.n(nt));
            let w = &ws[d.0 as usize];
            let (n, m) = point(p, w);
            let c = critical(k, n, m);
            let c = [0, c[0], 0, c[1], 0, c[2], 0, c[3]];
            let s = Stream { primer: p, head: join(w, &v), period };
            monitored(ctx, what, &s, None, &c, 12)
        },
    )
}

/// Combinations that are critical where both operands are equal (first ten),
/// or each other's reciprocals.
pub const NEAR: [[i64; 8]; 16] = [
    [0, 1, -1, 0, 0, 0, 0, 1],
    [0, 0, 0, 1, 0, 1, -1, 0],
    [0, 1, 0, 0, 0, 0, 1, 0],
    [0, -2, 2, 1, 0, 0, 0, 2],
    [0, 1, -1, 1, 0, 0, 0, 1],
    [0, 1, -1, 0, 0, 1, 1, 0],
    [0, 1, 1, 0, 0, 1, -1, 0],
    [0, 1, -1, 0, 1, 0, 0, 1],
    [1, 0, 0, 1, 0, 1, -1, 0],
    [0, 1, 0, 0, 0, 2, -1, 0],
    [1, 0, 0, 0, 0, 0, 0, 1],
    [1, 0, 0, -1, 0, 0, 0, 1],
    [0, 0, 0, 1, 1, 0, 0, -1],
    [1, 0, 0, 1, 1, 0, 0, -1],
    [1, 0, 0, -1, 0, 1, 1, 0],
    [2, 0, 0, -1, 0, 0, 0, 2],
];

fn partners(k: u64, p: u8) -> u8 {
    if k < 10 {
        p
    } else {
        [TURN, NONE, GROUND, REFLECT][p as usize]
    }
}

/// Results of combinations of operands that long agree.
pub fn comb_critical(pol: Policy, all: u32, max: usize, tail: u32, pole: bool) -> Space {
    let ws = approaches(all, max);
    let (nw, nt) = (ws.len() as u64, nwords(tail));
    space(
        if pole { "combine-deep-poles" } else { "near-critical" },
        format!(
            "{} combinations critical at equal or reciprocal operands x all pairs of continuations of length <= {tail} of each of {} x primers",
            NEAR.len(),
            describe(all, max, ws.len())
        ),
        NEAR.len() as u64 * 4 * nw * nt * nt,
        move |i, ctx| {
            let mut d = Dec(i);
            let k = d.n(NEAR.len() as u64);
            let p = d.n(4) as u8;
            let (a, b) = (word_at(d.n(nt)), word_at(d.n(nt)));
            let w = &ws[d.0 as usize];
            let (x, y) = (Word(p, join(w, &a)), Word(partners(k, p), join(w, &b)));
            if pole {
                comb_pole(ctx, &x, &y, &NEAR[k as usize])
            } else {
                comb(ctx, pol, &x, &y, &NEAR[k as usize])
            }
        },
    )
}

/// The same under the exact monitor.
pub fn comb_critical_monitored(what: What, all: u32, max: usize, tail: u32) -> Space {
    let ws = approaches(all, max);
    let (nw, nt) = (ws.len() as u64, nwords(tail));
    space(
        "combine-near-critical",
        format!(
            "{} combinations critical at equal or reciprocal operands x all pairs of continuations of length <= {tail} of each of {} x primers, ended or unending",
            NEAR.len(),
            describe(all, max, ws.len())
        ),
        NEAR.len() as u64 * 4 * nw * nt * nt * 2,
        move |i, ctx| {
            let mut d = Dec(i);
            let k = d.n(NEAR.len() as u64);
            let p = d.n(4) as u8;
            let periods = [[vec![], vec![]], [vec![A, U], vec![A]]][d.n(2) as usize].clone();
            let (a, b) = (word_at(d.n(nt)), word_at(d.n(nt)));
            let w = &ws[d.0 as usize];
            let [e, f] = periods;
            let x = Stream { primer: p, head: join(w, &a), period: e };
            let y = Stream { primer: partners(k, p), head: join(w, &b), period: f };
            monitored(ctx, what, &x, Some(&y), &NEAR[k as usize], 12)
        },
    )
}
