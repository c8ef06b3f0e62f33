//! Conformance driver: executes scripts of public-API calls against the real clarith crate
//! and records every call's arguments and observable result as one ndjson line per case.
//!
//! usage: driver SCRIPT OUT STDOUT_FILE START
//!   SCRIPT       text, one case per line: `id|op|op|...` (see `step`)
//!   OUT          appended to, one line per finished case
//!   STDOUT_FILE  the file this process' stdout and stderr are redirected to; its growth is
//!                what the library printed during a call
//!   START        index of the first case (line) to run
//! DRIVER_COMPANY=k in the environment lets k more threads run the same cases meanwhile, unrecorded;
//! DRIVER_CROWD=n keeps n more Numbers alive beside those of the cases, half of them until the end
//! DRIVER_MEM=1 adds to every event what the library held on the heap: `mem` after the call,
//! `peak` the most during it; and to every case a last event `end`, when everything was dropped
//! exit: 0 finished, 3 a call did not come back in time (a `HANG` line has been written),
//! 4 a panic outside of a recorded call, 5 a script that makes no sense

use clarith::protocol::{Primer, Reduction, Special};
use clarith::Number;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::fs::{File, OpenOptions};
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering as AO};
use std::sync::Arc;
use std::time::Duration;

thread_local! { static MSG: RefCell<String> = RefCell::new(String::new()); }

// bytes that calls of the library on this thread have taken and not given back, the most of it
// since the last event, and whether a call is running
thread_local! {
    static HELD: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static INSIDE: Cell<bool> = const { Cell::new(false) };
}

struct Counting;

impl Counting {
    fn count(n: i64) {
        let _ = INSIDE.try_with(|c| {
            if c.get() {
                HELD.with(|h| {
                    h.set(h.get() + n);
                    PEAK.with(|p| p.set(p.get().max(h.get())));
                });
            }
        });
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        Counting::count(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        Counting::count(-(l.size() as i64));
        System.dealloc(p, l)
    }
}

#[global_allocator]
static ALLOCATOR: Counting = Counting;

fn held() -> i64 {
    HELD.with(|h| h.get())
}

/// Base 10^4 little-endian limbs behind a sign: the integers of the specification.
fn big(v: i128) -> String {
    let mut s = String::from("[");
    s += if v > 0 { "1" } else if v < 0 { "-1" } else { "0" };
    let mut m = v.unsigned_abs();
    while m > 0 {
        s += &format!(",{}", m % 10000);
        m /= 10000;
    }
    s + "]"
}

fn bigs(vs: &[isize]) -> String {
    let v: Vec<String> = vs.iter().map(|x| big(*x as i128)).collect();
    format!("[{}]", v.join(","))
}

fn head(n: &Number) -> &'static str {
    match n {
        Number::Special(Special::Zero) => "Z",
        Number::Special(Special::PosOne) => "P",
        Number::Special(Special::NegOne) => "N",
        Number::Other(None, _) => "-",
        Number::Other(Some(Primer::Turn), _) => "T",
        Number::Other(Some(Primer::Reflect), _) => "R",
        Number::Other(Some(Primer::Ground), _) => "G",
    }
}

fn primer(s: &str) -> Option<Primer> {
    match s {
        "T" => Some(Primer::Turn),
        "R" => Some(Primer::Reflect),
        "G" => Some(Primer::Ground),
        _ => None,
    }
}

/// 1 Amplify, 2 Uncover, 0 end of sequence
fn symbol(r: Option<Reduction>) -> u8 {
    match r {
        None => 0,
        Some(Reduction::Amplify) => 1,
        Some(Reduction::Uncover) => 2,
    }
}

type Regs = BTreeMap<usize, Number>;

enum Out {
    Ev(String),
    Skip,
}

fn us(s: &str) -> usize {
    s.parse().expect("bad script: register")
}
fn is(s: &str) -> isize {
    s.parse().expect("bad script: integer")
}

/// Stores a Number; the one that was there goes.
fn put(regs: &mut Regs, r: usize, n: Number) {
    let old = regs.insert(r, n);
    let _ = guarded(move || drop(old));
}

/// Runs one call. Everything that touches the library happens inside `catch_unwind`.
/// Returns (json of the arguments, closure result).
fn step(op: &str, regs: &mut Regs, cap: usize) -> Out {
    let f: Vec<&str> = op.split_whitespace().collect();
    macro_rules! take {
        ($r:expr) => {
            match regs.remove(&us($r)) {
                Some(n) => n,
                None => return Out::Skip,
            }
        };
    }
    // built: a call that makes a Number and stores it
    macro_rules! build {
        ($args:expr, $dst:expr, $call:expr) => {{
            let args: String = $args;
            match guarded(move || $call) {
                Ok(n) => {
                    let h = head(&n);
                    put(regs, us($dst), n);
                    Out::Ev(format!("{},\"res\":\"{}\"", args, h))
                }
                Err(k) => Out::Ev(format!("{},\"res\":\"{}\"", args, k)),
            }
        }};
    }
    match f[0] {
        "R" => {
            let (n, d) = (is(f[2]), is(f[3]));
            build!(
                format!("\"op\":\"ratio\",\"dst\":{},\"c\":{}", f[1], bigs(&[n, d])),
                f[1],
                Number::ratio(n, d)
            )
        }
        "V" => {
            let pos = f[2] == "1";
            let (n, d): (usize, usize) = (f[3].parse().unwrap(), f[4].parse().unwrap());
            build!(
                format!(
                    "\"op\":\"ratio_u\",\"dst\":{},\"pos\":{},\"c\":[{},{}]",
                    f[1],
                    pos,
                    big(n as i128),
                    big(d as i128)
                ),
                f[1],
                Number::ratio_u(pos, n, d)
            )
        }
        "S" => {
            let s = match f[2] {
                "Z" => Special::Zero,
                "P" => Special::PosOne,
                _ => Special::NegOne,
            };
            build!(
                format!("\"op\":\"special\",\"dst\":{},\"v\":\"{}\"", f[1], f[2]),
                f[1],
                Number::Special(s)
            )
        }
        "H" => {
            let x = take!(f[2]);
            let c: [isize; 4] = std::array::from_fn(|i| is(f[3 + i]));
            build!(
                format!(
                    "\"op\":\"homographic\",\"dst\":{},\"x\":{},\"c\":{}",
                    f[1],
                    f[2],
                    bigs(&c)
                ),
                f[1],
                Number::homographic(x, c[0], c[1], c[2], c[3])
            )
        }
        "B" => {
            if !regs.contains_key(&us(f[2])) || !regs.contains_key(&us(f[3])) || f[2] == f[3] {
                return Out::Skip;
            }
            let x = take!(f[2]);
            let y = take!(f[3]);
            let c: [isize; 8] = std::array::from_fn(|i| is(f[4 + i]));
            build!(
                format!(
                    "\"op\":\"combine\",\"dst\":{},\"x\":{},\"y\":{},\"c\":{}",
                    f[1],
                    f[2],
                    f[3],
                    bigs(&c)
                ),
                f[1],
                Number::combine(x, y, c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7])
            )
        }
        "C" => {
            if !regs.contains_key(&us(f[1])) || !regs.contains_key(&us(f[2])) || f[1] == f[2] {
                return Out::Skip;
            }
            let x = take!(f[1]);
            let y = take!(f[2]);
            let r = match guarded(move || Number::compare(x, y)) {
                Ok(Ordering::Less) => "lt",
                Ok(Ordering::Equal) => "eq",
                Ok(Ordering::Greater) => "gt",
                Err(k) => k,
            };
            Out::Ev(format!(
                "\"op\":\"compare\",\"x\":{},\"y\":{},\"res\":\"{}\"",
                f[1], f[2], r
            ))
        }
        "K" => {
            let x = take!(f[2]);
            let args = format!("\"op\":\"consume\",\"dst\":{},\"x\":{}", f[1], f[2]);
            match guarded(move || Number::consume(x)) {
                Ok((y, a, b, c, d)) => {
                    let h = y.as_ref().map_or("none", head);
                    if let Some(n) = y {
                        put(regs, us(f[1]), n);
                    }
                    Out::Ev(format!(
                        "{},\"res\":\"{}\",\"c\":{}",
                        args,
                        h,
                        bigs(&[a, b, c, d])
                    ))
                }
                Err(k) => Out::Ev(format!("{},\"res\":\"{}\",\"c\":[]", args, k)),
            }
        }
        // E x k: k extractions whatever comes; D x k: extract to the end, then k more
        "E" | "D" => {
            let drain = f[0] == "D";
            let k = us(f[2]);
            let mut n = take!(f[1]);
            let mut syms: Vec<u8> = Vec::new();
            let mut res = "ok";
            if let Number::Other(_, ref mut clog) = n {
                let mut left = k;
                let mut ended = false;
                loop {
                    if (!drain || ended) && left == 0 {
                        break;
                    }
                    if syms.len() >= cap {
                        res = "endless";
                        break;
                    }
                    match guarded(AssertUnwindSafe(|| symbol(clog.egest()))) {
                        Ok(s) => {
                            if !drain || ended {
                                left -= 1;
                            }
                            ended = ended || s == 0;
                            syms.push(s);
                        }
                        Err(p) => {
                            res = p;
                            break;
                        }
                    }
                }
            } else {
                put(regs, us(f[1]), n);
                return Out::Skip;
            }
            if res == "ok" {
                put(regs, us(f[1]), n);
            } else {
                let _ = guarded(move || drop(n));
            }
            let s: Vec<String> = syms.iter().map(|b| b.to_string()).collect();
            Out::Ev(format!(
                "\"op\":\"egest\",\"x\":{},\"res\":\"{}\",\"syms\":[{}]",
                f[1],
                res,
                s.join(",")
            ))
        }
        // W dst x p: re-wrap the Clog of x under another primer
        "W" => {
            let n = take!(f[2]);
            match n {
                Number::Other(_, clog) => {
                    let m = Number::Other(primer(f[3]), clog);
                    let h = head(&m);
                    put(regs, us(f[1]), m);
                    Out::Ev(format!(
                        "\"op\":\"wrap\",\"dst\":{},\"x\":{},\"p\":\"{}\",\"res\":\"{}\"",
                        f[1], f[2], f[3], h
                    ))
                }
                s => {
                    put(regs, us(f[2]), s);
                    Out::Skip
                }
            }
        }
        // Q s|o x: unwrap_special / unwrap_other; what the latter returns is put together again into x
        "Q" => {
            let n = take!(f[2]);
            let args = format!("\"op\":\"unwrap\",\"as\":\"{}\",\"x\":{}", f[1], f[2]);
            let r = if f[1] == "s" {
                guarded(move || Number::Special(n.unwrap_special()))
            } else {
                guarded(move || {
                    let (p, c) = n.unwrap_other();
                    Number::Other(p, c)
                })
            };
            match r {
                Ok(m) => {
                    let h = head(&m);
                    if f[1] == "o" {
                        put(regs, us(f[2]), m);
                    }
                    Out::Ev(format!("{},\"res\":\"{}\"", args, h))
                }
                Err(k) => Out::Ev(format!("{},\"res\":\"{}\"", args, k)),
            }
        }
        // M dst src: move (no library call)
        "M" => {
            let n = take!(f[2]);
            let h = head(&n);
            put(regs, us(f[1]), n);
            Out::Ev(format!(
                "\"op\":\"move\",\"dst\":{},\"x\":{},\"res\":\"{}\"",
                f[1], f[2], h
            ))
        }
        // X x: drop
        "X" => {
            let n = take!(f[1]);
            let r = match guarded(move || drop(n)) {
                Ok(()) => "ok",
                Err(k) => k,
            };
            Out::Ev(format!("\"op\":\"drop\",\"x\":{},\"res\":\"{}\"", f[1], r))
        }
        _ => panic!("bad script op {}", op),
    }
}

/// Panics that an overflow of machine integers cannot explain.
const INTERNAL: [&str; 6] = [
    "logic error",
    "unreachable",
    "assertion",
    "out of bounds",
    "not implemented",
    "internal error",
];

/// Panics of the code under test are data: "div0", "logic" or "panic".
fn guarded<T, F: FnOnce() -> T>(f: F) -> Result<T, &'static str> {
    INSIDE.with(|c| c.set(true));
    let r = catch_unwind(AssertUnwindSafe(f)).map_err(drop);
    INSIDE.with(|c| c.set(false));
    match r {
        Ok(v) => Ok(v),
        Err(()) => MSG.with(|m| {
            let m = m.borrow();
            let m = m.to_lowercase();
            if m.contains("division by zero") {
                Err("div0")
            } else if INTERNAL.iter().any(|t| m.contains(t)) {
                Err("logic")
            } else {
                Err("panic")
            }
        }),
    }
}

// n Numbers of all kinds, some of them partially extracted
fn crowd(n: usize) -> Vec<Number> {
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        let (p, q) = ((i % 97) as isize - 48, (i % 89) as isize + 1);
        let made = guarded(|| {
            let x = Number::ratio(p, q);
            let mut z = match i % 4 {
                0 | 1 => x,
                2 => Number::homographic(x, 2, 3, 0, 5),
                _ => Number::combine(x, Number::ratio(q, 97), 0, 1, 1, 0, 0, 0, 0, 1),
            };
            if let Number::Other(_, c) = &mut z {
                for _ in 0..i % 3 {
                    c.egest();
                }
            }
            z
        });
        if let Ok(z) = made {
            v.push(z);
        }
    }
    v
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (script, out, outfile) = (a[1].clone(), a[2].clone(), a[3].clone());
    let start: usize = a[4].parse().unwrap();
    let limit_ms: u64 = std::env::var("DRIVER_LIMIT_MS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(30000);
    let cap: usize = 20000;
    let mem = std::env::var("DRIVER_MEM").map_or(false, |s| s == "1");
    std::panic::set_hook(Box::new(|i| {
        let inside = INSIDE.with(|c| c.replace(false));
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        MSG.with(|c| *c.borrow_mut() = m);
        INSIDE.with(|c| c.set(inside));
    }));
    let case_no = Arc::new(AtomicUsize::new(usize::MAX));
    let ticks = Arc::new(AtomicU64::new(0));
    // watchdog: the same case for longer than the limit is a hang
    {
        let case_no = case_no.clone();
        let ticks = ticks.clone();
        let out = out.clone();
        std::thread::spawn(move || {
            let mut last = usize::MAX;
            loop {
                std::thread::sleep(Duration::from_millis(100));
                let c = case_no.load(AO::SeqCst);
                if c != last {
                    last = c;
                    ticks.store(0, AO::SeqCst);
                } else if c != usize::MAX && ticks.fetch_add(1, AO::SeqCst) * 100 > limit_ms {
                    let mut f = OpenOptions::new().append(true).create(true).open(&out).unwrap();
                    let _ = writeln!(f, "HANG {}", c);
                    std::process::exit(3);
                }
            }
        });
    }
    let company: usize = std::env::var("DRIVER_COMPANY")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(0);
    for k in 1..=company {
        let lines: Vec<String> = BufReader::new(File::open(&script).unwrap())
            .lines()
            .map(|l| l.unwrap())
            .collect();
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || {
                let mut i = k * lines.len() / (company + 1);
                loop {
                    let mut regs = Regs::new();
                    for op in lines[i].split('|').skip(1) {
                        step(op, &mut regs, cap);
                    }
                    while let Some((_, n)) = regs.pop_first() {
                        let _ = guarded(move || drop(n));
                    }
                    i = (i + 1) % lines.len();
                }
            })
            .unwrap();
    }
    let others: usize = std::env::var("DRIVER_CROWD")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(0);
    let worker = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let mut o = OpenOptions::new().append(true).create(true).open(&out).unwrap();
            let rd = BufReader::new(File::open(&script).unwrap());
            let written = || -> u64 {
                let _ = std::io::stdout().flush();
                std::fs::metadata(&outfile).map(|m| m.len()).unwrap_or(0)
            };
            // what the first panics of a thread allocate for good is not the library's
            let _ = guarded(|| panic!("warm"));
            let _ = guarded(|| panic!("{}", i32::MIN.to_string()));
            case_no.store(start, AO::SeqCst);
            let mut crowd = if start == 0 { crowd(others) } else { Vec::new() };
            for (i, line) in rd.lines().enumerate() {
                let line = line.unwrap();
                if i < start {
                    continue;
                }
                if i % 64 == 0 && crowd.len() > others / 2 {
                    let n = crowd.pop();
                    let _ = guarded(move || drop(n));
                }
                case_no.store(i, AO::SeqCst);
                let mut it = line.split('|');
                let id = it.next().unwrap();
                let mut regs = Regs::new();
                let mut evs: Vec<String> = Vec::new();
                HELD.with(|h| h.set(0));
                let memory = || {
                    if mem {
                        format!(",\"mem\":{},\"peak\":{}", held(), PEAK.with(|p| p.get()))
                    } else {
                        String::new()
                    }
                };
                for op in it {
                    let before = written();
                    PEAK.with(|p| p.set(held()));
                    match step(op, &mut regs, cap) {
                        Out::Skip => {}
                        Out::Ev(e) => {
                            evs.push(format!("{{{},\"out\":{}{}}}", e, written() - before, memory()));
                        }
                    }
                }
                PEAK.with(|p| p.set(held()));
                let mut r = Ok(());
                while let Some((_, n)) = regs.pop_first() {
                    r = r.and(guarded(move || drop(n)));
                }
                if mem {
                    let r = r.err().unwrap_or("ok");
                    evs.push(format!("{{\"op\":\"end\",\"res\":\"{}\",\"out\":0{}}}", r, memory()));
                } else if let Err(k) = r {
                    evs.push(format!("{{\"op\":\"drop\",\"x\":0,\"res\":\"{}\",\"out\":0}}", k));
                }
                case_no.store(usize::MAX, AO::SeqCst);
                writeln!(o, "{{\"id\":{},\"ev\":[{}]}}", id, evs.join(",")).unwrap();
            }
            o.flush().unwrap();
            while let Some(n) = crowd.pop() {
                let _ = guarded(move || drop(n));
            }
        })
        .unwrap();
    if let Err(p) = worker.join() {
        let m = p.downcast_ref::<String>().map_or("", |s| s.as_str());
        std::process::exit(if m.contains("bad script") { 5 } else { 4 });
    }
}
