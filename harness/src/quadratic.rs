//! C18: operands with unending periodic representations.
//!
//! Such an operand is a quadratic irrational, so results in the same field can
//! be computed exactly: the reference here is arithmetic in Q(sqrt(D)).

use crate::big::I256;
use crate::engine::*;
use crate::model::*;
use crate::monitor::Stream;
use crate::ops::*;
use crate::props::{pick, quad};
use clarith::Number;
use std::cmp::Ordering;

/// (a + b*sqrt(D)) / c with c > 0; D is kept by the user.
#[derive(Clone, Copy, Debug)]
struct Quad(i128, i128, i128);

fn mul(a: i128, b: i128) -> i128 {
    a.checked_mul(b).expect("harness: model overflow")
}

fn add(a: i128, b: i128) -> i128 {
    a.checked_add(b).expect("harness: model overflow")
}

impl Quad {
    fn new(a: i128, b: i128, c: i128) -> Quad {
        let g = gcd(gcd(a.unsigned_abs(), b.unsigned_abs()), c.unsigned_abs()) as i128;
        let g = if c < 0 { -g } else { g };
        Quad(a / g, b / g, c / g)
    }
    fn int(v: i64) -> Quad {
        Quad(v as i128, 0, 1)
    }
    fn rational(&self) -> bool {
        self.1 == 0
    }
    fn sign(&self, d: i128) -> i32 {
        let sq = |v: i128| I256::from(v).mul(&I256::from(v));
        let (sa, sb) = (self.0.signum() as i32, self.1.signum() as i32);
        if sa == sb || sb == 0 {
            return sa;
        }
        if sa == 0 {
            return sb;
        }
        match sq(self.0).cmp(&sq(self.1).mul(&I256::from(d))) {
            Ordering::Greater => sa,
            Ordering::Less => sb,
            Ordering::Equal => panic!("harness: square discriminant"),
        }
    }
    fn plus(&self, o: &Quad) -> Quad {
        Quad::new(
            add(mul(self.0, o.2), mul(o.0, self.2)),
            add(mul(self.1, o.2), mul(o.1, self.2)),
            mul(self.2, o.2),
        )
    }
    fn minus(&self, o: &Quad) -> Quad {
        self.plus(&Quad(-o.0, -o.1, o.2))
    }
    fn times(&self, o: &Quad, d: i128) -> Quad {
        Quad::new(
            add(mul(self.0, o.0), mul(mul(self.1, o.1), d)),
            add(mul(self.0, o.1), mul(self.1, o.0)),
            mul(self.2, o.2),
        )
    }
    fn inverse(&self, d: i128) -> Quad {
        let norm = add(mul(self.0, self.0), -mul(mul(self.1, self.1), d));
        Quad::new(mul(self.2, self.0), -mul(self.2, self.1), norm)
    }
    fn less(&self, o: &Quad, d: i128) -> bool {
        self.minus(o).sign(d) < 0
    }
    /// One more symbol in front of the representation.
    fn before(&self, s: u8, d: i128) -> Quad {
        if s == A {
            Quad::new(self.0, self.1, 2 * self.2)
        } else {
            self.plus(&Quad::int(1)).inverse(d)
        }
    }
    fn primed(&self, p: u8, d: i128) -> Quad {
        let m = |v: Quad| Quad(-v.0, -v.1, v.2);
        match p {
            NONE => *self,
            TURN => self.inverse(d),
            REFLECT => m(*self),
            _ => m(self.inverse(d)),
        }
    }
    /// Primer and first symbols of an irrational value.
    fn representation(&self, d: i128, n: usize) -> (u8, Vec<u8>) {
        let (one, half) = (Quad::int(1), Quad(1, 0, 2));
        let neg = self.sign(d) < 0;
        let v = if neg { Quad(-self.0, -self.1, self.2) } else { *self };
        let big = !v.less(&one, d);
        let mut v = if big { v.inverse(d) } else { v };
        let p = match (neg, big) {
            (false, false) => NONE,
            (false, true) => TURN,
            (true, false) => REFLECT,
            _ => GROUND,
        };
        let mut w = vec![];
        let _ = guard(|| {
            // as far as the model itself does not overflow
            for _ in 0..n {
                if v.less(&half, d) {
                    v = Quad::new(mul(2, v.0), mul(2, v.1), v.2);
                    w.push(A);
                } else {
                    v = v.inverse(d).minus(&one);
                    w.push(U);
                }
            }
        });
        (p, w)
    }
}

/// The value of a period repeated for ever, and its discriminant.
fn periodic(v: &[u8]) -> (Quad, i128) {
    // y = (a*y + b) / (c*y + e)
    let (mut a, mut b, mut c, mut e) = (1i128, 0i128, 0i128, 1i128);
    for s in v {
        let (p, q, r, t) = if *s == A { (1, 0, 0, 2) } else { (0, 1, 1, 1) };
        (a, b, c, e) = (a * p + b * r, a * q + b * t, c * p + e * r, c * q + e * t);
    }
    let d = (e - a) * (e - a) + 4 * b * c;
    let y = Quad::new(a - e, 1, 2 * c);
    if y.sign(d) > 0 && y.less(&Quad::int(1), d) {
        (y, d)
    } else {
        (Quad::new(a - e, -1, 2 * c), d)
    }
}

fn value(s: &Stream) -> (Quad, i128) {
    let (mut y, d) = periodic(&s.period);
    for k in s.head.iter().rev() {
        y = y.before(*k, d);
    }
    (y.primed(s.primer, d), d)
}

fn feed(s: &Stream) -> Number {
    let s = s.clone();
    let mut i = 0;
    Number::Other(
        primer(s.primer),
        source(move || {
            if i > 500_000 {
                panic!("harness: reads without end");
            }
            i += 1;
            s.at(i - 1).map(sym)
        }),
    )
}

/// The first symbols must be those of the value, and at least so many must come; if none, a
/// failure is accepted from the beginning.
fn judge(ctx: &mut Ctx, z: Quad, d: i128, n: usize, least: usize, mk: impl FnOnce() -> Number, call: impl Fn() -> String) -> R {
    if z.rational() {
        return ctx.skip();
    }
    let (p, w) = z.representation(d, n);
    if w.len() < least {
        panic!("harness: model overflow");
    }
    let n = w.len();
    let show = || format!("'{}{}...'", primer_name(p), word_str(&w[..n.min(200)]));
    ctx.note(|| format!("{} = {}", call(), show()));
    let mut got = 0;
    let mut primed = false;
    let mut h = mix(mix(z.0 as u64, z.1 as u64), mix(z.2 as u64, d as u64));
    ctx.state(h);
    let r = guard(|| {
        let mut c = match mk() {
            Number::Special(s) => return Err(format!("got special {}", special_code(&s))),
            Number::Other(q, _) if primer_code(&q) != p => return Err(format!("got primer {:?}", q)),
            Number::Other(_, c) => c,
        };
        primed = true;
        for k in 0..n {
            let s = c.egest().map(|s| code(&s));
            if s != Some(w[k]) {
                return Err(format!("symbol {} is {:?}", k, s));
            }
            got += 1;
            h = mix(h, w[k] as u64);
            ctx.step(h);
        }
        Ok(())
    });
    match r {
        Ok(Ok(())) => {
            ctx.class(OK);
            Ok(())
        }
        Ok(Err(m)) => Err(format!("{}: {}, expected {}", call(), m, show())),
        Err(Panic::Overflow(_)) if (primed || least == 0) && got >= least => {
            ctx.class(OVERFLOW);
            Ok(())
        }
        Err(p) => Err(format!("{}: got {} after {} symbols, expected {}", call(), p.show(), got, show())),
    }
}

fn linear(n: &[i64], x: &Quad, y: Option<&Quad>, d: i128) -> Quad {
    let k = Quad::int;
    match y {
        None => k(n[0]).times(x, d).plus(&k(n[1])),
        Some(y) => k(n[0])
            .times(&x.times(y, d), d)
            .plus(&k(n[1]).times(x, d))
            .plus(&k(n[2]).times(y, d))
            .plus(&k(n[3])),
    }
}

/// Periods without proper repetition that are not all amplify.
fn periods(l: u32) -> Vec<Vec<u8>> {
    (1..nwords(l))
        .map(word_at)
        .filter(|v| v.contains(&U))
        .filter(|v| !(1..v.len()).any(|k| v.len() % k == 0 && (0..v.len()).all(|i| v[i] == v[i % k])))
        .collect()
}

pub fn c18(t: bool) -> Vec<Space> {
    let mut v = vec![];
    if !HOOK {
        // without supplied streams there are only rational operands
        return crate::props::spaces("C06", false);
    }
    let vs = periods(pick(t, 5, 7) as u32);
    let np = vs.len() as u64;
    let lu = pick(t, 2, 3) as u32;
    let nu = nwords(lu);
    let al = ints(pick(t, 3, 4));
    let na = al.len() as u64;
    let (vs1, al1) = (vs.clone(), al.clone());
    v.push(space(
        "transformations",
        format!("all quadruples up to {} x {np} periods after all heads of length <= {lu} x primers", na / 2),
        na.pow(4) * np * nu * 4,
        move |i, ctx| {
            let mut d = Dec(i);
            let c = quad(&mut d, &al1);
            let p = d.n(4) as u8;
            let head = word_at(d.n(nu));
            let x = Stream { primer: p, head, period: vs1[d.0 as usize].clone() };
            let (q, disc) = value(&x);
            let den = linear(&c[2..], &q, None, disc);
            if den.sign(disc) == 0 {
                return ctx.skip();
            }
            let z = linear(&c[..2], &q, None, disc).times(&den.inverse(disc), disc);
            judge(ctx, z, disc, 48, 24, || hom_make(feed(&x), &c), || format!("homographic({}; {c:?})", x.show()))
        },
    ));
    let vl = periods(pick(t, 3, 4) as u32);
    let np = vl.len() as u64;
    v.push(space(
        "scales",
        format!("coefficients s*2^k + e at every scale k up to 20 for small s, e, in every two positions, x {np} periods x primers, until overflow"),
        20 * 12 * 81 * np * 4,
        move |i, ctx| {
            let mut d = Dec(i);
            let k = d.n(20);
            let pos = d.n(12);
            let (a, b) = (d.n(9) as i64, d.n(9) as i64);
            let f = |v: i64| (v / 3 - 1) * (1i64 << k) + v % 3 - 1;
            let mut c = [1, 2, 1, 3];
            let (i1, i2) = (pos / 3, pos % 3);
            let i2 = if i2 >= i1 { i2 + 1 } else { i2 };
            c[i1 as usize] = f(a);
            c[i2 as usize] = f(b);
            let p = d.n(4) as u8;
            let x = Stream { primer: p, head: vec![], period: vl[d.0 as usize].clone() };
            let (q, disc) = value(&x);
            let den = linear(&c[2..], &q, None, disc);
            if den.sign(disc) == 0 {
                return ctx.skip();
            }
            let z = linear(&c[..2], &q, None, disc).times(&den.inverse(disc), disc);
            judge(ctx, z, disc, 48, 0, || hom_make(feed(&x), &c), || format!("homographic({}; {c:?})", x.show()))
        },
    ));
    // runs so long that any counter of symbols would be noticed
    let vl = periods(3);
    let np = vl.len() as u64;
    let al = ints(pick(t, 1, 2));
    let na = al.len() as u64;
    let run = 70_000;
    v.push(space(
        "long-runs",
        format!("all quadruples up to {} x {np} periods, {run} symbols unless coefficients overflow", na / 2),
        na.pow(4) * np,
        move |i, ctx| {
            let mut d = Dec(i);
            let c = quad(&mut d, &al);
            let x = Stream { primer: NONE, head: vec![], period: vl[d.0 as usize].clone() };
            let (q, disc) = value(&x);
            let den = linear(&c[2..], &q, None, disc);
            if den.sign(disc) == 0 {
                return ctx.skip();
            }
            let z = linear(&c[..2], &q, None, disc).times(&den.inverse(disc), disc);
            judge(ctx, z, disc, run, 24, || hom_make(feed(&x), &c), || format!("homographic({}; {c:?})", x.show()))
        },
    ));
    v.push(crate::long::cancellations());
    let vs2 = periods(4);
    let np = vs2.len() as u64;
    let lu = 2;
    let nu = nwords(lu);
    v.push(space(
        "same-field",
        format!("40 forms x pairs of numbers with the same period ({np} periods), all heads of length <= {lu} and all primers"),
        40 * 16 * np * nu * nu,
        move |i, ctx| {
            let mut d = Dec(i);
            let c = FORMS[d.n(40) as usize];
            let (p, q) = (d.n(4) as u8, d.n(4) as u8);
            let (u1, u2) = (word_at(d.n(nu)), word_at(d.n(nu)));
            let per = &vs2[d.0 as usize];
            let x = Stream { primer: p, head: u1, period: per.clone() };
            let y = Stream { primer: q, head: u2, period: per.clone() };
            comb_case(ctx, &c, x, y)
        },
    ));
    let vs3 = periods(pick(t, 4, 6) as u32);
    let np = vs3.len() as u64;
    let lw = pick(t, 4, 5) as u32;
    let nw = nwords(lw);
    v.push(space(
        "with-rationals",
        format!("40 forms x numbers with {np} periods with all rationals of representations of length <= {lw}, both ways, all primers"),
        40 * 16 * np * nw * 2,
        move |i, ctx| {
            let mut d = Dec(i);
            let c = FORMS[d.n(40) as usize];
            let (p, q) = (d.n(4) as u8, d.n(4) as u8);
            let sw = d.n(2) == 0;
            let w = word_at(d.n(nw));
            let x = Stream { primer: p, head: vec![], period: vs3[d.0 as usize].clone() };
            let y = Stream { primer: q, head: w, period: vec![] };
            if sw {
                comb_case(ctx, &c, x, y)
            } else {
                comb_case(ctx, &c, y, x)
            }
        },
    ));
    v
}

fn comb_case(ctx: &mut Ctx, c: &[i64; 8], x: Stream, y: Stream) -> R {
    let disc = periodic(if x.period.is_empty() { &y.period } else { &x.period }).1;
    let val = |s: &Stream| {
        if s.period.is_empty() {
            let (n, m) = word_value(&s.head);
            let (n, m) = primed_value(s.primer, n, m);
            Quad::new(n, 0, m)
        } else {
            value(s).0
        }
    };
    let (a, b) = (val(&x), val(&y));
    let den = linear(&c[4..], &a, Some(&b), disc);
    if den.sign(disc) == 0 {
        return ctx.skip();
    }
    let z = linear(&c[..4], &a, Some(&b), disc).times(&den.inverse(disc), disc);
    judge(ctx, z, disc, 20, 6, || comb_make(feed(&x), feed(&y), c), || {
        format!("combine({}, {}; {c:?})", x.show(), y.show())
    })
}
