//! Path conditions and the decision procedure in front of z3.
use crate::expr::*;
use crate::z3::{Verdict, Z3};
use std::collections::HashMap;
use std::time::Instant;

pub const FULL: Bits = [u64::MAX; 4];

fn full(w: u32) -> Bits {
    match w {
        8 => FULL,
        7 => [u64::MAX, u64::MAX, 0, 0],
        6 => [u64::MAX, 0, 0, 0],
        w if w < 6 => [(1u64 << (1 << w)) - 1, 0, 0, 0],
        _ => [0; 4],
    }
}
fn band(a: &Bits, b: &Bits) -> Bits {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
pub fn count(a: &Bits) -> u32 {
    a.iter().map(|x| x.count_ones()).sum()
}
fn has(a: &Bits, v: u64) -> bool {
    v < 256 && a[(v >> 6) as usize] >> (v & 63) & 1 == 1
}
fn first(a: &Bits) -> u64 {
    for i in 0..4 {
        if a[i] != 0 {
            return i as u64 * 64 + a[i].trailing_zeros() as u64;
        }
    }
    0
}
fn list(a: &Bits) -> impl Iterator<Item = u64> + '_ {
    (0..256u64).filter(move |v| has(a, *v))
}

#[derive(Clone, Default)]
pub struct Pc {
    pub widths: Vec<u32>,
    pub doms: Vec<Bits>,
    pub ent: Vec<bool>,
    pub cons: Vec<E>,
    pub model: Vec<u64>,
    pub mid: u64,
    pub unsure: bool,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub decisions: u64,
    pub by_domain: u64,
    pub by_candidate: u64,
    pub by_known: u64,
    pub z3_queries: u64,
    pub z3_sat: u64,
    pub z3_unsat: u64,
    pub z3_unknown: u64,
    pub z3_cached: u64,
    pub certs: u64,
    pub cert_cached: u64,
    pub cert_fail: u64,
    pub cert_unknown: u64,
    pub z3_time: f64,
}

pub struct Solver {
    pub z3: Z3,
    pub z3b: Option<Z3>,
    pub cache: HashMap<(Vec<E>, Vec<(u32, u32, Bits)>), Verdict>,
    certs: HashMap<(E, u32, Bits), bool>,
    lin_certs: std::collections::HashSet<String>,
    pub certify: bool,
    debug: bool,
    pub st: Stats,
    mids: u64,
    ev_mid: u64,
}

impl Pc {
    pub fn add_var(&mut self, w: u32) -> u32 {
        let i = self.widths.len() as u32;
        self.widths.push(w);
        self.doms.push(full(w));
        self.ent.push(false);
        self.model.push(0);
        i
    }
    fn small(&self, v: u32) -> bool {
        self.widths[v as usize] <= 8
    }
}

impl Solver {
    pub fn new(z3: Z3, z3b: Option<Z3>, certify: bool) -> Solver {
        Solver { z3, z3b, cache: HashMap::new(), certs: HashMap::new(), lin_certs: Default::default(), certify, debug: std::env::var("SYM_QUERIES").is_ok(), st: Stats::default(), mids: 1, ev_mid: 0 }
    }

    pub fn touch(&mut self, pc: &mut Pc) {
        self.mids += 1;
        pc.mid = self.mids;
    }

    /// Value under the path's current model.
    pub fn val(&mut self, x: &mut Ctx, pc: &Pc, e: E) -> u128 {
        if self.ev_mid != pc.mid {
            x.new_gen();
            self.ev_mid = pc.mid;
        }
        x.ev(e, &pc.model)
    }

    /// Add a constraint the current model satisfies.
    pub fn add(&mut self, x: &mut Ctx, pc: &mut Pc, c: E) {
        let n = *x.node(c);
        if n.op == Op::Const {
            debug_assert!(n.k == 1);
            return;
        }
        if n.op == Op::And {
            self.add(x, pc, n.a);
            self.add(x, pc, n.b);
            return;
        }
        if n.op == Op::Not {
            let m = *x.node(n.a);
            if m.op == Op::Or {
                let p = x.not(m.a);
                let q = x.not(m.b);
                self.add(x, pc, p);
                self.add(x, pc, q);
                return;
            }
        }
        let vars = x.vars(c);
        if vars.len() == 1 && pc.small(vars[0]) {
            let v = vars[0];
            let t = x.truth(c, v, pc.widths[v as usize]);
            self.ev_mid = 0;
            pc.doms[v as usize] = band(&pc.doms[v as usize], &t);
            return;
        }
        let vs = vars.to_vec();
        if !pc.cons.contains(&c) {
            pc.cons.push(c);
            for v in vs {
                pc.ent[v as usize] = true;
            }
        }
    }

    /// Is there an extension of the path satisfying `c`, which its current
    /// model does not?  Some(model) if so.
    pub fn may(&mut self, x: &mut Ctx, pc: &Pc, c: E) -> Option<(Vec<u64>, bool)> {
        self.st.decisions += 1;
        if let Some(k) = x.cst(c) {
            return if k == 1 { Some((pc.model.clone(), false)) } else { None };
        }
        let r = self.may_(x, pc, c);
        if let Some((m, _)) = &r {
            debug_assert!(x.eval(c, m) == 1);
            self.ev_mid = 0;
            let _ = m;
        }
        r
    }

    fn may_(&mut self, x: &mut Ctx, pc: &Pc, c: E) -> Option<(Vec<u64>, bool)> {
        // disjunction: either side will do; conjunction of independent parts
        let n = *x.node(c);
        let vars: Vec<u32> = x.vars(c).to_vec();
        if vars.len() == 1 && pc.small(vars[0]) {
            let v = vars[0];
            let t = x.truth(c, v, pc.widths[v as usize]);
            self.ev_mid = 0;
            let d = band(&pc.doms[v as usize], &t);
            if d == [0; 4] {
                self.st.by_domain += 1;
                self.certify_unary(x, c, v, pc.widths[v as usize], &pc.doms[v as usize]);
                return None;
            }
            if !pc.ent[v as usize] {
                self.st.by_domain += 1;
                let mut m = pc.model.clone();
                m[v as usize] = first(&d);
                return Some((m, false));
            }
        }
        let nc = x.not(c);
        if pc.cons.contains(&nc) {
            self.st.by_known += 1;
            return None;
        }
        if n.op == Op::And {
            // a part that is already refuted settles it
            for p in [n.a, n.b] {
                let q = x.not(p);
                if pc.cons.contains(&q) {
                    self.st.by_known += 1;
                    return None;
                }
                let pv = x.vars(p).to_vec();
                if pv.len() == 1 && pc.small(pv[0]) {
                    let v = pv[0];
                    let t = x.truth(p, v, pc.widths[v as usize]);
                    self.ev_mid = 0;
                    if band(&pc.doms[v as usize], &t) == [0; 4] {
                        self.st.by_domain += 1;
                        self.certify_unary(x, p, v, pc.widths[v as usize], &pc.doms[v as usize]);
                        return None;
                    }
                }
            }
        }
        // candidates: change one or all variables of the condition
        if let Some(m) = self.candidates(x, pc, c, &vars) {
            self.st.by_candidate += 1;
            return Some((m, false));
        }
        // slice
        let mut vs = vars.clone();
        let mut cons: Vec<E> = vec![];
        let mut used = vec![false; pc.cons.len()];
        let mut seen: Vec<bool> = vec![false; pc.widths.len()];
        for v in &vs {
            seen[*v as usize] = true;
        }
        loop {
            let mut ch = false;
            for (i, k) in pc.cons.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let kv = x.vars(*k);
                if kv.iter().any(|v| seen[*v as usize]) {
                    used[i] = true;
                    ch = true;
                    cons.push(*k);
                    for v in kv {
                        if !seen[*v as usize] {
                            seen[*v as usize] = true;
                            vs.push(*v);
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        cons.push(c);
        cons.sort_unstable();
        vs.sort_unstable();
        let doms: Vec<(u32, u32, Bits)> = vs
            .iter()
            .filter(|v| pc.small(**v) && pc.doms[**v as usize] != full(pc.widths[**v as usize]))
            .map(|v| (*v, pc.widths[*v as usize], pc.doms[*v as usize]))
            .collect();
        let want: Vec<(u32, u32)> = vs.iter().map(|v| (*v, pc.widths[*v as usize])).collect();
        let key = (cons, doms);
        let verdict = if let Some(v) = self.cache.get(&key) {
            self.st.z3_cached += 1;
            v.clone()
        } else {
            let t = Instant::now();
            if self.debug {
                eprintln!("query {}", x.show(c, 12));
            }
            let v = self.z3.check(x, &key.0, &key.1, &want);
            self.st.z3_queries += 1;
            match &v {
                Verdict::Sat(_) => self.st.z3_sat += 1,
                Verdict::Unsat => self.st.z3_unsat += 1,
                Verdict::Unknown => self.st.z3_unknown += 1,
            }
            if let (Some(b), Verdict::Unsat) = (&mut self.z3b, &v) {
                let v2 = b.check(x, &key.0, &key.1, &want);
                self.st.certs += 1;
                if let Verdict::Sat(_) = v2 {
                    self.st.cert_fail += 1;
                }
            }
            self.st.z3_time += t.elapsed().as_secs_f64();
            self.cache.insert(key, v.clone());
            v
        };
        match verdict {
            Verdict::Sat(vals) => {
                let mut m = pc.model.clone();
                for (v, k) in vals {
                    m[v as usize] = k;
                }
                Some((m, false))
            }
            Verdict::Unsat => None,
            Verdict::Unknown => Some((pc.model.clone(), true)),
        }
    }

    fn candidates(&mut self, x: &mut Ctx, pc: &Pc, c: E, vars: &[u32]) -> Option<Vec<u64>> {
        if vars.len() > 24 {
            return None;
        }
        // one variable at a time
        let mut m = pc.model.clone();
        let mut budget = 600;
        for v in vars {
            if !pc.small(*v) {
                continue;
            }
            let rel: Vec<E> =
                if pc.ent[*v as usize] { pc.cons.iter().copied().filter(|k| x.vars(*k).contains(v)).collect() } else { vec![] };
            let old = m[*v as usize];
            for k in list(&pc.doms[*v as usize]) {
                budget -= 1;
                if budget == 0 {
                    return None;
                }
                m[*v as usize] = k;
                x.new_gen();
                self.ev_mid = 0;
                if x.ev(c, &m) == 1 && rel.iter().all(|r| x.ev(*r, &m) == 1) {
                    return Some(m);
                }
            }
            m[*v as usize] = old;
        }
        None
    }

    /// Re-discharge what range reasoning settled.
    pub fn certify_lins(&mut self, x: &mut Ctx) {
        let os = std::mem::take(&mut x.oblig);
        if !self.certify {
            return;
        }
        let t = Instant::now();
        for o in os {
            let mut key = String::new();
            x.canon(o, &mut vec![], &mut key);
            if !self.lin_certs.insert(key) {
                self.st.cert_cached += 1;
                continue;
            }
            let mut doms = vec![];
            for (v, lo, hi) in x.ranges_in(o) {
                let mut d = [0u64; 4];
                for c in lo..=hi {
                    d[(c >> 6) as usize] |= 1 << (c & 63);
                }
                doms.push((v, 8, d));
            }
            let r = self.z3.check(x, &[o], &doms, &[]);
            self.st.certs += 1;
            match r {
                Verdict::Unsat => {}
                Verdict::Unknown => self.st.cert_unknown += 1,
                Verdict::Sat(_) => {
                    self.st.cert_fail += 1;
                    eprintln!("certificate refuted: {}", x.show(o, 10));
                }
            }
        }
        self.st.z3_time += t.elapsed().as_secs_f64();
    }

    /// Re-discharge a domain refutation with z3.
    fn certify_unary(&mut self, x: &mut Ctx, c: E, v: u32, w: u32, d: &Bits) {
        if !self.certify {
            return;
        }
        if self.certs.contains_key(&(c, v, *d)) {
            self.st.cert_cached += 1;
            return;
        }
        let t = Instant::now();
        let r = self.z3.check(x, &[c], &[(v, w, *d)], &[]);
        self.st.certs += 1;
        match r {
            Verdict::Unsat => {}
            Verdict::Unknown => self.st.cert_unknown += 1,
            Verdict::Sat(_) => {
                self.st.cert_fail += 1;
                eprintln!("certificate refuted: {}", x.show(c, 10));
            }
        }
        self.st.z3_time += t.elapsed().as_secs_f64();
        self.certs.insert((c, v, *d), r == Verdict::Unsat);
    }
}
