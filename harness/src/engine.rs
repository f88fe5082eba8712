//! Exhaustive enumeration of indexed spaces of cases.

use crate::model::*;
use clarith::{Clog, Number};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::Mutex;

pub type R = Result<(), String>;

/// A finite space of cases; `run` executes one of them on the implementation.
pub struct Space {
    pub name: &'static str,
    pub rule: String,
    pub len: u64,
    pub serial: bool,
    pub run: Box<dyn Fn(u64, &mut Ctx) -> R + Sync + Send>,
}

pub fn space(
    name: &'static str,
    rule: impl Into<String>,
    len: u64,
    run: impl Fn(u64, &mut Ctx) -> R + Sync + Send + 'static,
) -> Space {
    Space { name, rule: rule.into(), len, serial: false, run: Box::new(run) }
}

/// Mixed radix decoding of a case index.
pub struct Dec(pub u64);

impl Dec {
    pub fn n(&mut self, radix: u64) -> u64 {
        let r = self.0 % radix;
        self.0 /= radix;
        r
    }
    pub fn of<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.n(v.len() as u64) as usize]
    }
}

const BITS: u64 = 1 << 30;

/// Distinct states, by hash; collisions can only make the count too small.
pub struct States(Vec<AtomicU64>);

impl States {
    pub fn new() -> States {
        States((0..BITS / 64).map(|_| AtomicU64::new(0)).collect())
    }
    fn add(&self, h: u64) -> bool {
        let b = h % BITS;
        let (w, m) = (&self.0[(b / 64) as usize], 1u64 << (b % 64));
        w.load(Relaxed) & m == 0 && w.fetch_or(m, Relaxed) & m == 0
    }
}

pub struct Ctx<'a> {
    states: &'a States,
    pub distinct: u64,
    pub transitions: u64,
    pub traces: u64,
    pub skipped: u64,
    pub counts: [u64; 16],
    pub sample: Option<String>,
    pub sampling: bool,
}

/// Outcome classes of executions.
pub const OK: usize = 0;
pub const DIVZERO: usize = 1;
pub const OVERFLOW: usize = 2;
pub const SPECIAL: usize = 3;
pub const REST: usize = 4;
pub const LESS: usize = 5;
pub const EQUAL: usize = 6;
pub const GREATER: usize = 7;
pub const CLASSES: [&str; 8] = [
    "delivered_representation",
    "reported_division_by_zero",
    "stopped_on_overflow",
    "special_result",
    "consumed_with_rest",
    "less",
    "equal",
    "greater",
];

impl<'a> Ctx<'a> {
    pub fn new(states: &'a States) -> Ctx<'a> {
        Ctx {
            states,
            distinct: 0,
            transitions: 0,
            traces: 0,
            skipped: 0,
            counts: [0; 16],
            sample: None,
            sampling: false,
        }
    }
    #[inline]
    pub fn state(&mut self, h: u64) {
        if self.states.add(h) {
            self.distinct += 1;
        }
    }
    #[inline]
    pub fn step(&mut self, h: u64) {
        self.transitions += 1;
        self.state(h);
    }
    /// The case is outside the property's scope.
    pub fn skip(&mut self) -> R {
        self.skipped += 1;
        Ok(())
    }
    pub fn class(&mut self, c: usize) {
        self.counts[c] += 1;
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.sampling {
            self.sample = Some(f());
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Panic {
    DivZero,
    /// Refused to go on; only acceptable where coefficients may be too big.
    Overflow(String),
    Other(String),
}

impl Panic {
    pub fn show(&self) -> String {
        match self {
            Panic::DivZero => "panic 'division by zero'".into(),
            Panic::Overflow(s) | Panic::Other(s) => format!("panic '{}'", s),
        }
    }
}

/// Run library code, telling apart how it fails.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Panic> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let s = if let Some(s) = e.downcast_ref::<String>() {
            s.as_str()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s
        } else {
            "?"
        };
        if s.contains("division by zero") || s.contains("divide by zero") {
            Panic::DivZero
        } else if ["logic error", "unreachable", "out of bounds", "not implemented", "harness:"]
            .iter()
            .any(|m| s.contains(m))
        {
            Panic::Other(s.into())
        } else {
            // whatever wording the refused arithmetic has
            Panic::Overflow(s.into())
        }
    })
}

/// Check a number, symbol by symbol, against the representation it must have.
pub fn drain(x: Number, exp: Exp, ctx: &mut Ctx) -> R {
    match (x, exp) {
        (Number::Special(s), Exp::Special(e)) => {
            ctx.step(mix(0x5C, (e + 1) as u64));
            if special_code(&s) != e {
                return Err(format!("got special {}", special_code(&s)));
            }
            ctx.class(SPECIAL);
            Ok(())
        }
        (Number::Special(s), _) => Err(format!("got special {}", special_code(&s))),
        (Number::Other(p, c), Exp::Other(e, r)) if primer_code(&p) == e => {
            drain_clog(c, r, primer_name(e), ctx)
        }
        (Number::Other(p, mut c), _) => {
            let p = primer_code(&p);
            let w = peek(&mut c, 80);
            Err(format!("got '{}{}'", primer_name(p), w))
        }
    }
}

fn peek(c: &mut Clog, n: usize) -> String {
    let mut w = String::new();
    for _ in 0..n {
        match guard(|| c.egest()) {
            Ok(Some(r)) => w.push(if code(&r) == A { 'A' } else { 'U' }),
            Ok(None) => return w,
            Err(p) => return w + "<" + &p.show() + ">",
        }
    }
    w + "..."
}

pub fn drain_clog(mut c: Clog, mut r: Res, prefix: &str, ctx: &mut Ctx) -> R {
    let orig = r;
    let mut k = 0u64;
    ctx.state(r.hash());
    loop {
        let want = r.next();
        let got = c.egest().map(|s| code(&s));
        ctx.step(r.hash());
        if got != want {
            let mut w = prefix.to_string();
            let mut o = orig;
            for _ in 0..k {
                w.push(if o.next() == Some(A) { 'A' } else { 'U' });
            }
            w.push_str(match got {
                None => "",
                Some(A) => "A...",
                _ => "U...",
            });
            return Err(format!("got '{}' (wrong from symbol {})", w, k));
        }
        if want.is_none() {
            break;
        }
        k += 1;
    }
    for _ in 0..2 {
        if let Some(s) = c.egest() {
            return Err(format!("got another symbol {:?} after the end", s));
        }
    }
    ctx.class(OK);
    Ok(())
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// As much as a program usually has for its main thread.
pub const STACK: usize = 8 << 20;

/// Run one case; a failure of the library where the case does not expect any is a violation.
pub fn attempt(sp: &Space, i: u64, ctx: &mut Ctx) -> R {
    match guard(|| (sp.run)(i, ctx)) {
        Ok(r) => r,
        Err(Panic::Other(s)) if s.contains("harness:") => panic!("{}", s),
        Err(p) => Err(format!("case {} of {}: got {}", i, sp.name, p.show())),
    }
}

/// Explore all spaces completely; stop at the first (lowest) failure.
pub fn explore(spaces: &[Space], threads: usize, slots: &'static [AtomicU64]) -> String {
    let states = States::new();
    let mut out = String::from("{\"spaces\":[");
    let mut tot = [0u64; 5];
    let mut classes = [0u64; 16];
    for (si, sp) in spaces.iter().enumerate() {
        let begun = std::time::Instant::now();
        let next = AtomicU64::new(0);
        let worst = AtomicU64::new(u64::MAX);
        let fail: Mutex<Option<(u64, String)>> = Mutex::new(None);
        let agg: Mutex<([u64; 5], [u64; 16])> = Mutex::new(([0; 5], [0; 16]));
        let nt = if sp.serial { 1 } else { threads };
        let chunk = std::cmp::max(1, std::cmp::min(4096, sp.len / (nt as u64 * 16)));
        std::thread::scope(|sc| {
            let hs: Vec<_> = (0..nt).map(|t| {
                let (next, worst, fail, agg, states) = (&next, &worst, &fail, &agg, &states);
                std::thread::Builder::new().stack_size(STACK).spawn_scoped(sc, move || {
                    let mut ctx = Ctx::new(states);
                    loop {
                        let a = next.fetch_add(chunk, Relaxed);
                        if a >= sp.len || a > worst.load(Relaxed) {
                            break;
                        }
                        let b = std::cmp::min(a + chunk, sp.len);
                        for i in a..b {
                            if i > worst.load(Relaxed) {
                                break;
                            }
                            slots[2 * t].store(si as u64 + 1, Relaxed);
                            slots[2 * t + 1].store(i, Relaxed);
                            let r = attempt(sp, i, &mut ctx);
                            ctx.traces += 1;
                            if let Err(m) = r {
                                let mut f = fail.lock().unwrap();
                                if f.as_ref().map_or(true, |(j, _)| i < *j) {
                                    *f = Some((i, m));
                                    worst.fetch_min(i, Relaxed);
                                }
                            }
                        }
                    }
                    slots[2 * t].store(0, Relaxed);
                    let mut g = agg.lock().unwrap();
                    g.0[0] += ctx.distinct;
                    g.0[1] += ctx.transitions;
                    g.0[2] += ctx.traces;
                    g.0[3] += ctx.skipped;
                    for k in 0..16 {
                        g.1[k] += ctx.counts[k];
                    }
                }).unwrap()
            }).collect();
            for h in hs {
                if h.join().is_err() {
                    eprintln!("harness failure in space {}", sp.name);
                    std::process::exit(70);
                }
            }
        });
        let (c, k) = *agg.lock().unwrap();
        // one sample, from the middle of the space
        let mut sample = String::new();
        if fail.lock().unwrap().is_none() {
            for i in [7, 5, 8, 6, 4, 9, 3].map(|k| sp.len / 13 * k + sp.len % 13 * k / 13) {
                slots[0].store(si as u64 + 1, Relaxed);
                slots[1].store(i, Relaxed);
                let states = &states;
                let s = std::thread::scope(|sc| {
                    let f = move || {
                        let mut ctx = Ctx::new(states);
                        ctx.sampling = true;
                        let _ = (sp.run)(i, &mut ctx);
                        ctx.sample
                    };
                    std::thread::Builder::new().stack_size(STACK).spawn_scoped(sc, f).unwrap().join()
                });
                slots[0].store(0, Relaxed);
                if let Ok(Some(s)) = s {
                    sample = s;
                    break;
                }
            }
        }
        if si > 0 {
            out.push(',');
        }
        let f = fail.lock().unwrap();
        out.push_str(&format!(
            "{{\"name\":{},\"rule\":{},\"cases\":{},\"executed\":{},\"out_of_scope\":{},\"new_states\":{},\"transitions\":{},\"ms\":{},\"sample\":{},\"failure\":{}}}",
            esc(sp.name),
            esc(&sp.rule),
            sp.len,
            c[2],
            c[3],
            c[0],
            c[1],
            begun.elapsed().as_millis(),
            esc(&sample),
            match &*f {
                None => "null".to_string(),
                Some((i, m)) => format!("{{\"index\":{},\"message\":{}}}", i, esc(m)),
            }
        ));
        for k in 0..5 {
            tot[k] += c[k];
        }
        for j in 0..16 {
            classes[j] += k[j];
        }
        if f.is_some() {
            break;
        }
    }
    out.push_str(&format!(
        "],\"states\":{},\"transitions\":{},\"executed\":{},\"out_of_scope\":{},\"outcomes\":{{",
        tot[0], tot[1], tot[2], tot[3]
    ));
    let mut first = true;
    for (i, n) in CLASSES.iter().enumerate() {
        if classes[i] > 0 {
            if !first {
                out.push(',');
            }
            first = false;
            out.push_str(&format!("\"{}\":{}", n, classes[i]));
        }
    }
    out.push_str("}}");
    out
}
