mod big;
mod critical;
mod engine;
mod faults;
mod histories;
mod long;
mod memory;
mod model;
mod monitor;
mod ops;
mod props;
mod quadratic;

use engine::*;
use std::sync::atomic::AtomicU64;

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

/// Progress slots in a file, readable by the supervisor if this process dies.
fn slots(path: &str, n: usize) -> &'static [AtomicU64] {
    use std::os::unix::io::IntoRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(path).unwrap();
    f.set_len(8 * n as u64).unwrap();
    unsafe {
        let p = mmap(std::ptr::null_mut(), 8 * n, 3, 1, f.into_raw_fd(), 0);
        assert!(p as isize != -1);
        std::slice::from_raw_parts(p as *const AtomicU64, n)
    }
}

/// mc explore <property> <tier> <result file> <slots file> <threads>
/// mc one <property> <tier> <space> <index>
/// mc list <property> <tier>
/// The tiers are quick, thorough and long, the spaces for a build without optimisation.
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    std::panic::set_hook(Box::new(|_| {}));
    let spaces = match arg(3) {
        "long" => long::spaces(arg(2)),
        tier => props::spaces(arg(2), tier == "thorough"),
    };
    if spaces.is_empty() {
        eprintln!("no such property");
        std::process::exit(64);
    }
    match arg(1) {
        "explore" => {
            let threads: usize = arg(6).parse().unwrap();
            let s = slots(arg(5), 2 * threads);
            let json = explore(&spaces, threads, s);
            std::fs::write(arg(4), json).unwrap();
        }
        "list" => {
            for s in &spaces {
                println!("{} {} {}", s.name, s.len, s.rule);
            }
        }
        "one" => {
            let st = States::new();
            let sp = spaces.iter().find(|s| s.name == arg(4)).expect("no such space");
            let i: u64 = arg(5).parse().unwrap();
            let r = std::thread::scope(|sc| {
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(sc, || {
                        let mut ctx = Ctx::new(&st);
                        ctx.sampling = true;
                        let r = attempt(sp, i, &mut ctx);
                        (r, ctx.sample)
                    })
                    .unwrap()
                    .join()
            });
            match r {
                Ok((Ok(()), s)) => println!("HOLDS {}", s.unwrap_or_default()),
                Ok((Err(m), _)) => println!("FAILS {}", m),
                Err(_) => std::process::exit(70),
            }
        }
        _ => std::process::exit(64),
    }
}
