mod exec;
mod expr;
mod ir;
mod mem;
mod pc;
mod z3;

use exec::*;
use mem::*;
use std::fmt::Write as _;
use std::io::Write;
use std::sync::atomic::{AtomicI64, Ordering};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn _exit(c: i32) -> !;
    fn getpid() -> i32;
    fn alarm(s: u32) -> u32;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}

struct Shared {
    live: AtomicI64,
    spawned: AtomicI64,
    finished: AtomicI64,
    bad: AtomicI64,
    stop: AtomicI64,
}

struct Args {
    ir: String,
    entries: Vec<String>,
    out: String,
    jobs: i64,
    budget: f64,
    z3: Vec<String>,
    z3b: Vec<String>,
    certify: bool,
    max_steps: u64,
    max_depth: u32,
    max_bad: i64,
    max_paths: u64,
    trace: bool,
    prof: bool,
    tier: u32,
}

fn args() -> Args {
    let mut a = Args {
        ir: String::new(),
        entries: vec![],
        out: String::new(),
        jobs: 8,
        budget: 300.0,
        z3: vec![],
        z3b: vec![],
        certify: true,
        max_steps: 60_000_000,
        max_depth: 4000,
        max_bad: 40,
        max_paths: u64::MAX,
        trace: false,
        prof: false,
        tier: 0,
    };
    let v: Vec<String> = std::env::args().collect();
    let mut i = 1;
    while i < v.len() {
        let k = v[i].as_str();
        let val = || v.get(i + 1).cloned().unwrap_or_default();
        let mut used = 2;
        match k {
            "--ir" => a.ir = val(),
            "--entry" => a.entries.push(val()),
            "--out" => a.out = val(),
            "--jobs" => a.jobs = val().parse().unwrap(),
            "--budget" => a.budget = val().parse().unwrap(),
            "--z3" => a.z3.push(val()),
            "--z3b" => a.z3b.push(val()),
            "--no-certify" => {
                a.certify = false;
                used = 1
            }
            "--max-steps" => a.max_steps = val().parse().unwrap(),
            "--tier" => a.tier = val().parse().unwrap(),
            "--max-bad" => a.max_bad = val().parse().unwrap(),
            "--max-paths" => a.max_paths = val().parse().unwrap(),
            "--trace" => {
                a.trace = true;
                used = 1
            }
            "--prof" => {
                a.prof = true;
                used = 1
            }
            _ => panic!("unknown argument {}", k),
        }
        i += used;
    }
    a
}

fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for c in b {
        write!(s, "{:02x}", c).unwrap();
    }
    s
}

struct Worker {
    e: Engine,
    a: &'static Args,
    sh: &'static Shared,
    out: std::fs::File,
    buf: String,
    paths: u64,
    unexplored: Vec<u64>,
    last_split: Instant,
    start: Instant,
}

impl Worker {
    fn inputs(&mut self, st: &State) -> Vec<u8> {
        let mut o = vec![];
        for d in &st.draws {
            match d {
                Draw::Bytes(f, n) => {
                    for i in 0..*n {
                        o.push(st.pc.model[(*f + i) as usize] as u8);
                    }
                }
                Draw::Int(v) => o.extend_from_slice(&st.pc.model[*v as usize].to_le_bytes()),
                Draw::Choice(v) => o.push(st.pc.model[*v as usize] as u8),
            }
        }
        o
    }

    fn loghash(&mut self, st: &State) -> u64 {
        let mut h: u64 = 0xcbf29ce484222325;
        for v in &st.log {
            let b = match v {
                ir::Val::C(c) => *c,
                ir::Val::S(e) => self.e.sol.val(&mut self.e.x, &st.pc, *e) as u64,
                _ => 0,
            };
            h ^= b;
            h = h.wrapping_mul(0x100000001b3);
        }
        h
    }

    fn consistent(&mut self, st: &State) -> bool {
        for c in st.pc.cons.clone() {
            if self.e.sol.val(&mut self.e.x, &st.pc, c) != 1 {
                return false;
            }
        }
        for (v, d) in st.pc.doms.iter().enumerate() {
            if st.pc.widths[v] <= 8 {
                let m = st.pc.model[v];
                if d[(m >> 6) as usize] >> (m & 63) & 1 == 0 {
                    return false;
                }
            }
        }
        true
    }

    fn record(&mut self, st: &State, stop: Stop) {
        self.paths += 1;
        self.e.sol.certify_lins(&mut self.e.x);
        if !st.pc.unsure && !self.consistent(st) {
            self.line(st, "E", "inconsistent model");
            return;
        }
        match stop {
            Stop::Done => self.line(st, "D", "-"),
            Stop::Assume => self.line(st, "A", "-"),
            Stop::Fail(i) => {
                self.sh.bad.fetch_add(1, Ordering::SeqCst);
                self.line(st, "F", &i)
            }
            Stop::Panic(s) => {
                self.sh.bad.fetch_add(1, Ordering::SeqCst);
                self.line(st, "P", &s)
            }
            Stop::Limit(s) => {
                self.sh.bad.fetch_add(1, Ordering::SeqCst);
                let bt = self.e.backtrace(st, None);
                self.line(st, "L", &format!("{} at {}", s, bt))
            }
            Stop::Error(s) => {
                self.sh.bad.fetch_add(1, Ordering::SeqCst);
                let bt = self.e.backtrace(st, None);
                self.line(st, "E", &format!("{} at {}", s, bt))
            }
            Stop::Preempt => {}
        }
    }

    fn line(&mut self, st: &State, code: &str, info: &str) {
        let inp = self.inputs(st);
        let lh = self.loghash(st);
        let u = if st.pc.unsure { "U" } else { "" };
        writeln!(
            self.buf,
            "{}{}\t{}\t{}\t{}\t{:x}\t{:x}\t{}\t{}",
            code,
            u,
            st.entry,
            st.steps,
            st.depth,
            lh,
            st.reach,
            hex(&inp),
            info.replace(['\t', '\n'], " ")
        )
        .unwrap();
        if self.buf.len() > 1 << 16 || code != "D" {
            self.flush();
        }
    }
    fn flush(&mut self) {
        self.out.write_all(self.buf.as_bytes()).unwrap();
        self.buf.clear();
    }

    fn work(&mut self, mut stack: Vec<State>) {
        loop {
            let Some(mut st) = stack.pop() else { break };
            if self.e.expired
                || self.sh.stop.load(Ordering::Relaxed) != 0
                || Instant::now() > self.e.deadline
                || self.sh.bad.load(Ordering::Relaxed) >= self.a.max_bad
                || self.paths >= self.a.max_paths
            {
                self.unexplored[st.entry as usize] += 1;
                for s in &stack {
                    self.unexplored[s.entry as usize] += 1;
                }
                break;
            }
            let r = self.e.run(&mut st);
            if let Stop::Preempt = r {
                self.unexplored[st.entry as usize] += 1;
                stack.append(&mut self.e.pending);
                continue;
            }
            if self.a.trace {
                eprintln!("path {:?} depth {} steps {} inputs {:?} cons {}", r, st.depth, st.steps, String::from_utf8_lossy(&self.inputs(&st)), st.pc.cons.len());
            }
            self.record(&st, r);
            stack.append(&mut self.e.pending);
            if stack.len() >= 2
                && self.sh.live.load(Ordering::Relaxed) < self.a.jobs
                && self.last_split.elapsed() > Duration::from_millis(15)
            {
                let l = self.sh.live.fetch_add(1, Ordering::SeqCst);
                if l >= self.a.jobs {
                    self.sh.live.fetch_sub(1, Ordering::SeqCst);
                } else {
                    self.flush();
                    self.last_split = Instant::now();
                    self.sh.spawned.fetch_add(1, Ordering::SeqCst);
                    let half = (stack.len() / 2).max(1);
                    let pid = unsafe { fork() };
                    if pid < 0 {
                        self.sh.live.fetch_sub(1, Ordering::SeqCst);
                        self.sh.spawned.fetch_sub(1, Ordering::SeqCst);
                    } else if pid == 0 {
                        stack.truncate(half);
                        self.reset();
                    } else {
                        let _ = stack.drain(..half);
                        // give the child a moment to produce its own work
                    }
                }
            }
        }
    }

    /// A worker that is stuck in one step past the deadline ends itself (and is counted as ended early).
    fn watchdog(&self) {
        let left = self.e.deadline.saturating_duration_since(Instant::now()).as_secs();
        unsafe {
            alarm(left as u32 + 45);
        }
    }

    fn reset(&mut self) {
        self.watchdog();
        let pid = unsafe { getpid() };
        self.out = std::fs::File::create(format!("{}/res.{}.txt", self.a.out, pid)).unwrap();
        self.buf.clear();
        self.paths = 0;
        self.unexplored.iter_mut().for_each(|u| *u = 0);
        self.e.forks = 0;
        self.e.total_steps = 0;
        self.e.sol.st = Default::default();
        self.e.executed.iter_mut().for_each(|b| *b = false);
        self.start = Instant::now();
        self.last_split = Instant::now();
        if let Some(p) = &mut self.e.prof {
            p.clear()
        }
    }

    fn finish(&mut self) {
        self.flush();
        let pid = unsafe { getpid() };
        let mut s = String::new();
        let t = &self.e.sol.st;
        writeln!(s, "paths {}", self.paths).unwrap();
        writeln!(s, "forks {}", self.e.forks).unwrap();
        writeln!(s, "insts {}", self.e.total_steps).unwrap();
        writeln!(s, "decisions {}", t.decisions).unwrap();
        writeln!(s, "by_domain {}", t.by_domain).unwrap();
        writeln!(s, "by_candidate {}", t.by_candidate).unwrap();
        writeln!(s, "by_known {}", t.by_known).unwrap();
        writeln!(s, "z3_queries {}", t.z3_queries).unwrap();
        writeln!(s, "z3_sat {}", t.z3_sat).unwrap();
        writeln!(s, "z3_unsat {}", t.z3_unsat).unwrap();
        writeln!(s, "z3_unknown {}", t.z3_unknown).unwrap();
        writeln!(s, "z3_cached {}", t.z3_cached).unwrap();
        writeln!(s, "certs {}", t.certs).unwrap();
        writeln!(s, "cert_cached {}", t.cert_cached).unwrap();
        writeln!(s, "cert_fail {}", t.cert_fail).unwrap();
        writeln!(s, "cert_unknown {}", t.cert_unknown).unwrap();
        writeln!(s, "z3_time {:.4}", t.z3_time).unwrap();
        writeln!(s, "cpu {:.3}", self.start.elapsed().as_secs_f64()).unwrap();
        writeln!(s, "nodes {}", self.e.x.nodes.len()).unwrap();
        for (i, u) in self.unexplored.iter().enumerate() {
            if *u > 0 {
                writeln!(s, "unexplored {} {}", i, u).unwrap();
            }
        }
        for (i, b) in self.e.executed.iter().enumerate() {
            if *b {
                writeln!(s, "fn {}", self.e.m.fnames[i]).unwrap();
            }
        }
        if let Some(p) = &self.e.prof {
            let mut v: Vec<_> = p.iter().collect();
            v.sort_by_key(|(_, n)| std::cmp::Reverse(**n));
            for ((f, b, i), n) in v.iter().take(25) {
                eprintln!("fork {} {} block {} ip {}", n, self.e.m.fnames[*f as usize], b, i);
            }
        }
        if let Some(p) = &self.e.fprof {
            let mut v: Vec<_> = p.iter().enumerate().filter(|(_, n)| **n > 0).collect();
            v.sort_by_key(|(_, n)| std::cmp::Reverse(**n));
            for (f, n) in v.iter().take(25) {
                eprintln!("insts {} {}", n, self.e.m.fnames[*f]);
            }
        }
        std::fs::write(format!("{}/stat.{}.txt", self.a.out, pid), s).unwrap();
        self.sh.finished.fetch_add(1, Ordering::SeqCst);
        self.sh.live.fetch_sub(1, Ordering::SeqCst);
    }
}

fn run() {
    let a: &'static Args = Box::leak(Box::new(args()));
    std::fs::create_dir_all(&a.out).unwrap();
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs_f64(a.budget);
    let sh: &'static Shared = unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        &*(p as *const Shared)
    };
    unsafe {
        prctl(36, 1, 0, 0, 0);
    }
    let z = z3::Z3::open(&a.z3, 20_000_000).expect("cannot load libz3");
    let zb = if a.z3b.is_empty() { None } else { z3::Z3::open(&a.z3b, 20_000_000) };
    println!("z3 {}", z.version);
    if let Some(b) = &zb {
        println!("z3b {}", b.version);
    }
    let m = ir::Module::load(&a.ir);
    println!("ir_functions {}", m.fnames.len());
    let sol = pc::Solver::new(z, zb, a.certify);
    let cfg = Cfg { max_steps: a.max_steps, max_depth: a.max_depth, tier: a.tier };
    let mut e = Engine::new(m, sol, cfg, deadline);
    e.trace = a.trace;
    if a.prof {
        e.prof = Some(Default::default());
        e.fprof = Some(vec![0; e.m.fnames.len()]);
    }
    let mut init = vec![];
    for (i, n) in a.entries.iter().enumerate() {
        init.push(e.initial(i as u32, n));
    }
    init.reverse();
    sh.live.store(1, Ordering::SeqCst);
    sh.spawned.store(1, Ordering::SeqCst);
    std::io::stdout().flush().unwrap();
    let pid = unsafe { fork() };
    if pid == 0 {
        let n = a.entries.len();
        let out = std::fs::File::create(format!("{}/res.{}.txt", a.out, unsafe { getpid() })).unwrap();
        let mut w = Worker {
            e,
            a,
            sh,
            out,
            buf: String::new(),
            paths: 0,
            unexplored: vec![0; n],
            last_split: Instant::now(),
            start: Instant::now(),
        };
        w.watchdog();
        w.work(init);
        w.finish();
        unsafe { _exit(0) }
    }
    let mut crashed = 0;
    loop {
        let mut st = 0;
        let p = unsafe { waitpid(-1, &mut st, 0) };
        if p < 0 {
            break;
        }
        if st != 0 {
            crashed += 1;
            // a worker died: its slot is free again
            sh.live.fetch_sub(1, Ordering::SeqCst);
            eprintln!("worker {} ended with status {:#x}", p, st);
        }
    }
    println!("spawned {}", sh.spawned.load(Ordering::SeqCst));
    println!("finished {}", sh.finished.load(Ordering::SeqCst));
    println!("crashed {}", crashed);
    println!("wall {:.3}", t0.elapsed().as_secs_f64());
}

fn main() {
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(run).unwrap();
    if h.join().is_err() {
        std::process::exit(3);
    }
}
