//! Exact monitor of a running transformation or combination.
//!
//! The monitored object is the function from the unread remainders of the
//! operands (anything in the open interval (0,1)) to the not yet delivered
//! remainder of the result.  It is a quotient of two polynomials
//! a*x*y + b*x + c*y + d with exact integer coefficients; reading a symbol
//! substitutes, delivering a symbol transforms.  A homographic transformation
//! is a combination that does not depend on y.

use crate::engine::*;
use crate::model::*;
use crate::ops::*;
use clarith::Number;
use std::cell::RefCell;
use std::rc::Rc;

pub type Poly = [i128; 4];

fn corners(p: &Poly) -> [i128; 4] {
    [p[3], p[1] + p[3], p[2] + p[3], p[0] + p[1] + p[2] + p[3]]
}

fn middle(p: &Poly) -> i128 {
    p[0] + 2 * p[1] + 2 * p[2] + 4 * p[3]
}

/// All polynomials have the same strict sign on the open unit square.
/// (A polynomial linear in each variable takes its extremes at the corners,
/// and is zero throughout if it is zero at an inner extreme.)
fn same_sign(ps: &[Poly]) -> bool {
    let s = middle(&ps[0]).signum();
    s != 0 && ps.iter().all(|p| middle(p).signum() == s && corners(p).iter().all(|c| *c * s >= 0))
}

/// Likewise on the closed unit square.
fn same_sign_closed(ps: &[Poly]) -> bool {
    let s = middle(&ps[0]).signum();
    s != 0 && ps.iter().all(|p| corners(p).iter().all(|c| c.signum() == s))
}

fn sub(p: &Poly, q: &Poly) -> Poly {
    [p[0] - q[0], p[1] - q[1], p[2] - q[2], p[3] - q[3]]
}
fn neg(p: &Poly) -> Poly {
    [-p[0], -p[1], -p[2], -p[3]]
}
fn dbl(p: &Poly) -> Poly {
    [2 * p[0], 2 * p[1], 2 * p[2], 2 * p[3]]
}
fn zero(p: &Poly) -> bool {
    p.iter().all(|c| *c == 0)
}

#[derive(Clone, Copy)]
pub struct Frac(pub Poly, pub Poly);

impl Frac {
    fn reduce(&mut self) {
        let mut t = 0;
        for v in self.0.iter().chain(self.1.iter()) {
            t |= *v;
        }
        let k = t.trailing_zeros();
        if t != 0 && k > 0 {
            for v in self.0.iter_mut().chain(self.1.iter_mut()) {
                *v >>= k;
            }
        }
    }
    /// The value lies in the open interval (0,1) for all remainders.
    fn unit(&self) -> bool {
        same_sign(&[self.1, self.0, sub(&self.1, &self.0)])
    }
    fn unit_closed(&self) -> bool {
        same_sign_closed(&[self.1, self.0, sub(&self.1, &self.0)])
    }
    fn prime(&self, p: u8) -> Frac {
        match p {
            NONE => *self,
            TURN => Frac(self.1, self.0),
            REFLECT => Frac(neg(&self.0), self.1),
            _ => Frac(neg(&self.1), self.0),
        }
    }
    fn emit(&self, s: u8) -> Frac {
        if s == A {
            Frac(dbl(&self.0), self.1)
        } else {
            Frac(sub(&self.1, &self.0), self.0)
        }
    }
    fn is_half(&self) -> bool {
        zero(&sub(&dbl(&self.0), &self.1)) && !zero(&self.1)
    }
    fn is_special(&self, v: i8) -> bool {
        !zero(&self.1)
            && match v {
                0 => zero(&self.0),
                1 => zero(&sub(&self.0, &self.1)),
                _ => zero(&sub(&self.0, &neg(&self.1))),
            }
    }
    fn read(&mut self, operand: usize, s: Option<u8>) {
        for p in [&mut self.0, &mut self.1] {
            let [a, b, c, d] = *p;
            *p = match (operand, s) {
                (0, Some(A)) => [a, b, 2 * c, 2 * d],
                (0, Some(_)) => [c, d, a + c, b + d],
                (0, None) => [0, 0, a + 2 * c, b + 2 * d],
                (_, Some(A)) => [a, 2 * b, c, 2 * d],
                (_, Some(_)) => [b, a + b, d, c + d],
                (_, None) => [0, a + 2 * b, 0, c + 2 * d],
            };
        }
        self.reduce();
    }
    /// Constant, possibly only apparently depending on a remainder.
    fn degenerate(&self) -> bool {
        let (n, d) = (&self.0, &self.1);
        for i in 0..4 {
            for j in 0..i {
                if n[i] * d[j] != n[j] * d[i] {
                    return false;
                }
            }
        }
        true
    }
    /// Does not depend on this operand at all: the derivative is zero throughout.
    fn independent_of(&self, operand: usize) -> bool {
        let flip = |p: Poly| if operand == 1 { p } else { [p[0], p[2], p[1], p[3]] };
        let (n, d) = (flip(self.0), flip(self.1));
        n[0] * d[1] == n[1] * d[0]
            && n[0] * d[3] + n[2] * d[1] == n[1] * d[2] + n[3] * d[0]
            && n[2] * d[3] == n[3] * d[2]
    }
    fn big(&self) -> bool {
        self.0.iter().chain(self.1.iter()).any(|v| v.unsigned_abs() >> 100 != 0)
    }
    fn hash(&self) -> u64 {
        let mut h = 0x0F;
        for v in self.0.iter().chain(self.1.iter()) {
            h = mix(h, *v as u64);
        }
        h
    }
}

pub struct Mon {
    f: Frac,
    primed: bool,
    reads: [u32; 2],
    ended: [bool; 2],
    late: u32,
    /// Symbols that may be read although the next output is determined.
    slack: u32,
    bilinear: bool,
    demand: bool,
    /// Of the function of the remainders; reading and delivering do not change these.
    constant: bool,
    independent: [bool; 2],
    viol: Option<String>,
    log: Vec<u8>,
    steps: Vec<u64>,
}

impl Mon {
    fn determined(&self) -> bool {
        let fits = |g: Frac| if self.bilinear { g.unit_closed() } else { g.unit() };
        if !self.primed {
            (0..4).any(|p| fits(self.f.prime(p)))
        } else {
            fits(self.f.emit(A)) || fits(self.f.emit(U)) || (!self.bilinear && self.f.is_half())
        }
    }
    fn read(&mut self, k: usize, s: Option<u8>) {
        if self.f.big() || self.ended[k] {
            return;
        }
        if self.demand && self.viol.is_none() && (self.bilinear || !self.constant) {
            if self.determined() {
                self.late += 1;
                if self.late > self.slack {
                    self.viol = Some(format!(
                        "after {}, operand {} is read although the next output is determined",
                        self.trail(),
                        ["x", "y"][k]
                    ));
                }
            }
        }
        self.f.read(k, s);
        self.steps.push(self.f.hash());
        match s {
            None => self.ended[k] = true,
            Some(s) => {
                self.reads[k] += 1;
                self.log.push([[b'a', b'u'], [b'f', b'v']][k][s as usize]);
            }
        }
        if self.demand
            && self.bilinear
            && !self.ended[0]
            && !self.ended[1]
            && self.reads[0].abs_diff(self.reads[1]) > 2
            && !self.independent[(self.reads[0] > self.reads[1]) as usize]
            && self.viol.is_none()
        {
            self.viol = Some(format!("after {}, operands are not drawn on evenly", self.trail()));
        }
    }
    fn trail(&self) -> String {
        format!(
            "reading {} x and {} y symbols (trace: {})",
            self.reads[0],
            self.reads[1],
            String::from_utf8_lossy(&self.log)
        )
    }
}

/// A stream of symbols: a word, then nothing or a period for ever.
#[derive(Clone, Debug)]
pub struct Stream {
    pub primer: u8,
    pub head: Vec<u8>,
    pub period: Vec<u8>,
}

impl Stream {
    pub fn at(&self, i: usize) -> Option<u8> {
        if i < self.head.len() {
            Some(self.head[i])
        } else if self.period.is_empty() {
            None
        } else {
            Some(self.period[(i - self.head.len()) % self.period.len()])
        }
    }
    pub fn show(&self) -> String {
        if self.period.is_empty() {
            format!("'{}{}'", primer_name(self.primer), word_str(&self.head))
        } else {
            format!(
                "'{}{}({})...'",
                primer_name(self.primer),
                word_str(&self.head),
                word_str(&self.period)
            )
        }
    }
}

const MAX_READS: usize = 400;

fn feed(mon: &Rc<RefCell<Mon>>, k: usize, s: &Stream) -> Number {
    let (mon, s) = (Rc::clone(mon), s.clone());
    let mut i = 0;
    Number::Other(
        primer(s.primer),
        source(move || {
            let r = s.at(i);
            if i > MAX_READS {
                panic!("harness: reads without end");
            }
            i += 1;
            mon.borrow_mut().read(k, r);
            r.map(sym)
        }),
    )
}

/// The function of the remainders before anything is read.
fn initial(px: u8, py: u8, c: &[i64; 8]) -> Frac {
    let turn_x = |p: Poly| [p[2], p[3], p[0], p[1]];
    let refl_x = |p: Poly| [-p[0], -p[1], p[2], p[3]];
    let turn_y = |p: Poly| [p[1], p[0], p[3], p[2]];
    let refl_y = |p: Poly| [-p[0], p[1], -p[2], p[3]];
    let f = |mut p: Poly| {
        // x = -1/r: substitute -x, then 1/r (all times r)
        if px == REFLECT || px == GROUND {
            p = refl_x(p);
        }
        if px == TURN || px == GROUND {
            p = turn_x(p);
        }
        if py == REFLECT || py == GROUND {
            p = refl_y(p);
        }
        if py == TURN || py == GROUND {
            p = turn_y(p);
        }
        p
    };
    let l = |k: usize| [c[k] as i128, c[k + 1] as i128, c[k + 2] as i128, c[k + 3] as i128];
    let mut r = Frac(f(l(0)), f(l(4)));
    r.reduce();
    r
}

#[derive(Clone, Copy, PartialEq)]
pub enum What {
    Soundness,
    Demand,
}

fn watch(what: What, x: &Stream, y: Option<&Stream>, c: &[i64; 8]) -> Rc<RefCell<Mon>> {
    let f = initial(x.primer, y.map_or(NONE, |y| y.primer), c);
    Rc::new(RefCell::new(Mon {
        f,
        constant: f.degenerate(),
        independent: [f.independent_of(0), f.independent_of(1)],
        primed: false,
        reads: [0; 2],
        ended: [false; 2],
        late: 0,
        slack: if y.is_some() { 1 } else { 0 },
        bilinear: y.is_some(),
        demand: what == What::Demand,
        viol: None,
        log: vec![],
        steps: vec![],
    }))
}

/// Run a transformation (y None) or combination under the monitor.
pub fn monitored(
    ctx: &mut Ctx,
    what: What,
    x: &Stream,
    y: Option<&Stream>,
    c: &[i64; 8],
    max_out: usize,
) -> R {
    let mon = watch(what, x, y, c);
    let call = || match y {
        None => format!(
            "homographic({}; {}, {}, {}, {})",
            x.show(),
            c[1],
            c[3],
            c[5],
            c[7]
        ),
        Some(y) => format!("combine({}, {}; {:?})", x.show(), y.show(), c),
    };
    let sound = what == What::Soundness;
    let mut err: Option<String> = None;
    let h0 = mon.borrow().f.hash();
    ctx.state(h0);
    let r = guard(|| {
        let z = match y {
            None => hom_make(feed(&mon, 0, x), &[c[1], c[3], c[5], c[7]]),
            Some(y) => comb_make(feed(&mon, 0, x), feed(&mon, 1, y), c),
        };
        let mut g = match z {
            Number::Special(s) => {
                let m = mon.borrow();
                if sound && !m.f.big() && !m.f.is_special(special_code(&s)) {
                    err = Some(format!(
                        "special {} delivered after {}, but not valid for all continuations",
                        special_code(&s),
                        m.trail()
                    ));
                }
                ctx.class(SPECIAL);
                return;
            }
            Number::Other(p, g) => {
                let mut m = mon.borrow_mut();
                m.f = m.f.prime(primer_code(&p));
                m.primed = true;
                m.late = 0;
                m.log.push([b'|', b'T', b'R', b'G'][primer_code(&p) as usize]);
                if sound && !m.f.big() && !m.f.unit() {
                    err = Some(format!(
                        "primer {:?} delivered after {}, but not valid for all continuations",
                        p,
                        m.trail()
                    ));
                    return;
                }
                g
            }
        };
        for _ in 0..max_out {
            let s = g.egest().map(|s| code(&s));
            let mut m = mon.borrow_mut();
            if m.viol.is_some() || m.f.big() {
                return;
            }
            match s {
                None => {
                    if sound && !m.f.is_half() {
                        err = Some(format!(
                            "end delivered after {}, but not valid for all continuations",
                            m.trail()
                        ));
                    }
                    ctx.class(OK);
                    return;
                }
                Some(s) => {
                    m.f = m.f.emit(s);
                    m.f.reduce();
                    m.late = 0;
                    m.log.push([b'A', b'U'][s as usize]);
                    let h = m.f.hash();
                    m.steps.push(h);
                    if sound && !m.f.unit() {
                        err = Some(format!(
                            "symbol {} delivered after {}, but not valid for all continuations",
                            ['A', 'U'][s as usize],
                            m.trail()
                        ));
                        return;
                    }
                }
            }
        }
        ctx.class(OK);
    });
    let m = mon.borrow();
    for h in &m.steps {
        ctx.step(*h);
    }
    match r {
        Err(Panic::DivZero) => ctx.class(DIVZERO),
        Err(_) => ctx.class(OVERFLOW),
        _ => {}
    }
    ctx.note(|| format!("{}: {}", call(), m.trail()));
    if let Some(v) = err.or_else(|| m.viol.clone()) {
        return Err(format!("{}: {}", call(), v));
    }
    Ok(())
}

/// Several combinations alive at the same time, each under its own monitor,
/// extracted in turns: `order` names the combination to extract next, and is repeated.
pub fn together(ctx: &mut Ctx, what: What, all: &[(Stream, Stream, [i64; 8])], order: &[usize], max_out: usize) -> R {
    let sound = what == What::Soundness;
    let call = |k: usize| {
        let (x, y, c) = &all[k];
        format!("combine({}, {}; {:?})", x.show(), y.show(), c)
    };
    let mons: Vec<_> = all.iter().map(|(x, y, c)| watch(what, x, Some(y), c)).collect();
    let mut err: Option<(usize, String)> = None;
    let r = guard(|| {
        let mut gs = vec![];
        for (k, (x, y, c)) in all.iter().enumerate() {
            match comb_make(feed(&mons[k], 0, x), feed(&mons[k], 1, y), c) {
                Number::Special(_) => return,
                Number::Other(p, g) => {
                    let mut m = mons[k].borrow_mut();
                    m.f = m.f.prime(primer_code(&p));
                    m.primed = true;
                    m.late = 0;
                    m.log.push([b'|', b'T', b'R', b'G'][primer_code(&p) as usize]);
                    if sound && !m.f.unit() {
                        err = Some((k, format!("primer {:?} delivered after {}, but not valid for all continuations", p, m.trail())));
                        return;
                    }
                    gs.push(g);
                }
            }
        }
        for k in order.iter().cycle().take(max_out) {
            let s = gs[*k].egest().map(|s| code(&s));
            let mut m = mons[*k].borrow_mut();
            if m.viol.is_some() || m.f.big() {
                return;
            }
            let valid = match s {
                None => m.f.is_half(),
                Some(s) => {
                    m.f = m.f.emit(s);
                    m.f.reduce();
                    m.late = 0;
                    m.log.push([b'A', b'U'][s as usize]);
                    let h = m.f.hash();
                    m.steps.push(h);
                    m.f.unit()
                }
            };
            if sound && !valid {
                err = Some((*k, format!("{:?} delivered after {}, but not valid for all continuations", s.map(|s| ['A', 'U'][s as usize]), m.trail())));
            }
            if err.is_some() || s.is_none() {
                return;
            }
        }
    });
    for m in &mons {
        for h in &m.borrow().steps {
            ctx.step(*h);
        }
    }
    match r {
        Err(Panic::DivZero) => ctx.class(DIVZERO),
        Err(_) => ctx.class(OVERFLOW),
        _ => ctx.class(OK),
    }
    ctx.note(|| {
        let s: Vec<String> = (0..all.len()).map(|k| format!("{}: {}", call(k), mons[k].borrow().trail())).collect();
        format!("extracted in turns: {}", s.join(" | "))
    });
    for k in 0..all.len() {
        let v = match &err {
            Some((i, v)) if *i == k => Some(v.clone()),
            _ => mons[k].borrow().viol.clone(),
        };
        if let Some(v) = v {
            let others: Vec<String> = (0..all.len()).filter(|i| *i != k).map(call).collect();
            return Err(format!("{}, extracted in turns with {}: {}", call(k), others.join(" and "), v));
        }
    }
    Ok(())
}
