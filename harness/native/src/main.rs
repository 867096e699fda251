//! Runs harness entries natively on recorded inputs.
//!
//! Input: lines "entry<TAB>hex".  Output: lines "status<TAB>loghash<TAB>reach<TAB>info".
#[path = "../../src/lib.rs"]
mod harness;

use std::cell::RefCell;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

#[derive(Default)]
struct Run {
    data: Vec<u8>,
    pos: usize,
    hash: u64,
    reach: u64,
    short: bool,
    verbose: bool,
}

thread_local! {
    static RUN: RefCell<Run> = RefCell::new(Run::default());
    static LOC: RefCell<String> = RefCell::new(String::new());
}

struct Failed(String);
struct Discarded;

fn take(n: usize) -> Vec<u8> {
    RUN.with(|r| {
        let mut r = r.borrow_mut();
        let mut v = vec![0; n];
        for c in v.iter_mut() {
            if r.pos < r.data.len() {
                *c = r.data[r.pos];
            } else {
                r.short = true;
            }
            r.pos += 1;
        }
        v
    })
}

#[no_mangle]
pub extern "C" fn sym_bytes(p: *mut u8, n: usize) {
    let v = take(n);
    unsafe { std::ptr::copy_nonoverlapping(v.as_ptr(), p, n) }
}
#[no_mangle]
pub extern "C" fn sym_set(p: *mut u8, n: usize, _s: *const u8, _m: usize) {
    sym_bytes(p, n)
}
#[no_mangle]
pub extern "C" fn sym_int(_bits: u32) -> u64 {
    u64::from_le_bytes(take(8).try_into().unwrap())
}
#[no_mangle]
pub extern "C" fn sym_digit(_lo: u32, _hi: u32) -> u64 {
    take(1)[0] as u64
}
#[no_mangle]
pub extern "C" fn sym_choice(_n: u32) -> u32 {
    take(1)[0] as u32
}
#[no_mangle]
pub extern "C-unwind" fn sym_assume(c: u32) {
    if c == 0 {
        resume_unwind(Box::new(Discarded));
    }
}
#[no_mangle]
pub extern "C-unwind" fn sym_fail(p: *const u8, n: usize) -> ! {
    let s = unsafe { std::slice::from_raw_parts(p, n) };
    resume_unwind(Box::new(Failed(String::from_utf8_lossy(s).into_owned())))
}
#[no_mangle]
pub extern "C" fn sym_log(p: *const u8, n: usize) {
    let s = unsafe { std::slice::from_raw_parts(p, n) };
    RUN.with(|r| {
        let mut r = r.borrow_mut();
        if r.verbose {
            eprintln!("log: {:?}", String::from_utf8_lossy(s));
        }
        for c in s.iter().copied().chain(std::iter::once(0xff)) {
            r.hash ^= c as u64;
            r.hash = r.hash.wrapping_mul(0x100000001b3);
        }
    })
}
#[no_mangle]
pub extern "C" fn sym_reach(id: u32) {
    RUN.with(|r| r.borrow_mut().reach |= 1 << (id & 63))
}
#[no_mangle]
pub extern "C" fn sym_tier() -> u32 {
    static T: std::sync::OnceLock<u32> = std::sync::OnceLock::new();
    *T.get_or_init(|| std::env::var("SYM_TIER").ok().and_then(|s| s.parse().ok()).unwrap_or(0))
}
#[no_mangle]
pub extern "C" fn sym_part() -> u32 {
    0
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let s = format!("{}", i).replace(['\n', '\t'], " ");
        LOC.with(|l| *l.borrow_mut() = s);
    }));
    let mut entries = std::collections::HashMap::new();
    for t in harness::tables() {
        for (n, f) in t {
            entries.insert(*n, *f);
        }
    }
    let verbose = std::env::var("SYM_VERBOSE").is_ok();
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut out = std::io::BufWriter::new(stdout.lock());
    let batch = std::env::args().any(|a| a == "--batch");
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let (name, data) = line.split_once('\t').unwrap_or((line.as_str(), ""));
        let f = entries[name];
        RUN.with(|r| {
            *r.borrow_mut() = Run { data: unhex(data), hash: 0xcbf29ce484222325, verbose, ..Run::default() };
        });
        let res = catch_unwind(AssertUnwindSafe(f));
        let (code, info) = match res {
            Ok(()) => ("D", String::from("-")),
            Err(e) => {
                if let Some(f) = e.downcast_ref::<Failed>() {
                    ("F", f.0.clone())
                } else if e.downcast_ref::<Discarded>().is_some() {
                    ("A", String::from("-"))
                } else {
                    ("P", LOC.with(|l| l.borrow().clone()))
                }
            }
        };
        let (h, rch, short, used, n) = RUN.with(|r| {
            let r = r.borrow();
            (r.hash, r.reach, r.short, r.pos, r.data.len())
        });
        let mark = if short || (used != n && code == "D") { "!" } else { "" };
        writeln!(out, "{}{}\t{:x}\t{:x}\t{}", code, mark, h, rch, info.replace(['\n', '\t'], " ")).unwrap();
        if !batch {
            out.flush().unwrap();
        }
    }
}
