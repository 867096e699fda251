//! Hash-consed bit-vector expressions with simplifying constructors.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Not,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Concat,
    Extract,
    Zext,
    Sext,
    Ite,
    Lut,
    /// Integer combination of small variables, modulo 2^w.
    Lin,
}

/// c0 + sum(k * var), with its exact range.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct LinForm {
    pub c0: i128,
    pub t: Vec<(E, i128)>,
    pub lo: i128,
    pub hi: i128,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: E,
    pub b: E,
    pub c: E,
    /// Const: value; Var: index; Extract: low bit; Lut: table.
    pub k: u128,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else if v >> (w - 1) & 1 == 1 {
        (v | !mask(w)) as i128
    } else {
        v as i128
    }
}

fn run_at(t: &[(u64, u64)], i: u64) -> u64 {
    let p = t.partition_point(|r| r.0 <= i);
    t[p - 1].1
}

pub type Bits = [u64; 4];

pub struct Ctx {
    pub nodes: Vec<Node>,
    map: HashMap<Node, E>,
    vs: Vec<u32>,
    pub vsets: Vec<Vec<u32>>,
    vsmap: HashMap<Vec<u32>, u32>,
    vsunion: HashMap<(u32, u32), u32>,
    /// Tables as runs (first index, value), the first at index 0.
    pub luts: Vec<Vec<(u64, u64)>>,
    lutmap: HashMap<Vec<(u64, u64)>, u32>,
    pub lins: Vec<LinForm>,
    linmap: HashMap<LinForm, u32>,
    /// Conditions settled or rewritten by range reasoning over linear forms:
    /// each must be unsatisfiable.
    pub oblig: Vec<E>,
    oblig_seen: HashMap<E, ()>,
    memo: Vec<u128>,
    memo_gen: Vec<u32>,
    gen: u32,
    tts: HashMap<E, Bits>,
    /// Results of `extract` on operations it descends into.
    extracted: HashMap<(E, u32, u32), E>,
}

impl Ctx {
    pub fn new() -> Ctx {
        let mut c = Ctx {
            nodes: vec![],
            map: HashMap::new(),
            vs: vec![],
            vsets: vec![vec![]],
            vsmap: HashMap::new(),
            vsunion: HashMap::new(),
            luts: vec![],
            lutmap: HashMap::new(),
            lins: vec![],
            linmap: HashMap::new(),
            oblig: vec![],
            oblig_seen: HashMap::new(),
            memo: vec![],
            memo_gen: vec![],
            gen: 1,
            tts: HashMap::new(),
            extracted: HashMap::new(),
        };
        c.vsmap.insert(vec![], 0);
        c
    }

    fn mk(&mut self, n: Node) -> E {
        if let Some(e) = self.map.get(&n) {
            return *e;
        }
        let e = self.nodes.len() as E;
        let vs = match n.op {
            Op::Const => 0,
            Op::Var => {
                let v = vec![n.k as u32];
                self.intern_vs(v)
            }
            Op::Add | Op::Sub | Op::Mul | Op::UDiv | Op::SDiv | Op::URem | Op::SRem | Op::And | Op::Or | Op::Xor | Op::Shl
            | Op::LShr | Op::AShr | Op::Eq | Op::Ult | Op::Slt | Op::Concat => self.union(self.vs[n.a as usize], self.vs[n.b as usize]),
            Op::Not | Op::Extract | Op::Zext | Op::Sext | Op::Lut => self.vs[n.a as usize],
            Op::Ite => {
                let x = self.union(self.vs[n.a as usize], self.vs[n.b as usize]);
                self.union(x, self.vs[n.c as usize])
            }
            Op::Lin => {
                let t: Vec<E> = self.lins[n.k as usize].t.iter().map(|x| x.0).collect();
                t.iter().fold(0, |s, v| self.union(s, self.vs[*v as usize]))
            }
        };
        self.nodes.push(n);
        self.vs.push(vs);
        self.memo.push(0);
        self.memo_gen.push(0);
        self.map.insert(n, e);
        e
    }

    fn intern_vs(&mut self, v: Vec<u32>) -> u32 {
        if let Some(i) = self.vsmap.get(&v) {
            return *i;
        }
        let i = self.vsets.len() as u32;
        self.vsets.push(v.clone());
        self.vsmap.insert(v, i);
        i
    }

    fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let key = (a.min(b), a.max(b));
        if let Some(i) = self.vsunion.get(&key) {
            return *i;
        }
        let mut v: Vec<u32> = self.vsets[a as usize].iter().chain(self.vsets[b as usize].iter()).copied().collect();
        v.sort_unstable();
        v.dedup();
        let i = self.intern_vs(v);
        self.vsunion.insert(key, i);
        i
    }

    pub fn vars(&self, e: E) -> &[u32] {
        &self.vsets[self.vs[e as usize] as usize]
    }

    pub fn node(&self, e: E) -> &Node {
        &self.nodes[e as usize]
    }
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w
    }
    pub fn cst(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }

    pub fn k(&mut self, v: u128, w: u32) -> E {
        self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v & mask(w) })
    }
    pub fn var(&mut self, idx: u32, w: u32) -> E {
        self.mk(Node { op: Op::Var, w, a: 0, b: 0, c: 0, k: idx as u128 })
    }
    pub fn tru(&mut self) -> E {
        self.k(1, 1)
    }
    pub fn fls(&mut self) -> E {
        self.k(0, 1)
    }

    fn bin(&mut self, op: Op, w: u32, a: E, b: E) -> E {
        self.mk(Node { op, w, a, b, c: 0, k: 0 })
    }

    /// A variable known to lie in lo..=hi.
    pub fn rvar(&mut self, idx: u32, w: u32, lo: u32, hi: u32) -> E {
        self.mk(Node { op: Op::Var, w, a: 0, b: lo, c: hi, k: idx as u128 })
    }
    /// The linear form of a constant or linear node.
    fn as_lin(&self, e: E) -> Option<LinForm> {
        let n = self.node(e);
        match n.op {
            Op::Const => {
                let v = if n.w >= 127 { n.k as i128 } else { sx(n.k, n.w) };
                Some(LinForm { c0: v, t: vec![], lo: v, hi: v })
            }
            Op::Lin => Some(self.lins[n.k as usize].clone()),
            _ => None,
        }
    }
    /// The raw 1-bit node `op(a, b)` was found to equal the constant v.
    fn settled(&mut self, op: Op, a: E, b: E, v: u128) -> E {
        let raw = self.bin(op, 1, a, b);
        let o = if v == 1 { self.mk(Node { op: Op::Not, w: 1, a: raw, b: 0, c: 0, k: 0 }) } else { raw };
        if self.oblig_seen.insert(o, ()).is_none() {
            self.oblig.push(o);
        }
        self.k(v, 1)
    }
    fn rewritten(&mut self, raw: E, new: E) {
        let q = self.bin(Op::Eq, 1, raw, new);
        let o = self.mk(Node { op: Op::Not, w: 1, a: q, b: 0, c: 0, k: 0 });
        if self.oblig_seen.insert(o, ()).is_none() {
            self.oblig.push(o);
        }
    }
    fn is_lin(&self, e: E) -> bool {
        self.node(e).op == Op::Lin
    }
    fn lin_pair(&self, a: E, b: E) -> Option<(LinForm, LinForm)> {
        if (self.is_lin(a) || self.is_lin(b)) && self.w(a) <= 120 {
            Some((self.as_lin(a)?, self.as_lin(b)?))
        } else {
            None
        }
    }
    fn lin_comb(&self, a: &LinForm, ka: i128, b: &LinForm, kb: i128) -> Option<LinForm> {
        let mut t: Vec<(E, i128)> = vec![];
        let (mut i, mut j) = (0, 0);
        while i < a.t.len() || j < b.t.len() {
            let (v, k) = if j >= b.t.len() || (i < a.t.len() && a.t[i].0 < b.t[j].0) {
                i += 1;
                (a.t[i - 1].0, a.t[i - 1].1.checked_mul(ka)?)
            } else if i >= a.t.len() || b.t[j].0 < a.t[i].0 {
                j += 1;
                (b.t[j - 1].0, b.t[j - 1].1.checked_mul(kb)?)
            } else {
                i += 1;
                j += 1;
                (a.t[i - 1].0, a.t[i - 1].1.checked_mul(ka)?.checked_add(b.t[j - 1].1.checked_mul(kb)?)?)
            };
            if k != 0 {
                t.push((v, k));
            }
        }
        let c0 = a.c0.checked_mul(ka)?.checked_add(b.c0.checked_mul(kb)?)?;
        self.lin_form(c0, t)
    }
    fn lin_form(&self, c0: i128, t: Vec<(E, i128)>) -> Option<LinForm> {
        let (mut lo, mut hi) = (c0, c0);
        for (v, k) in &t {
            let n = self.node(*v);
            let (x, y) = (k.checked_mul(n.b as i128)?, k.checked_mul(n.c as i128)?);
            lo = lo.checked_add(x.min(y))?;
            hi = hi.checked_add(x.max(y))?;
        }
        let lim = 1i128 << 125;
        if lo < -lim || hi > lim {
            return None;
        }
        Some(LinForm { c0, t, lo, hi })
    }
    /// Shift by a multiple of 2^w so that the range starts in [base, base + 2^w).
    fn lin_block(&self, mut f: LinForm, w: u32, signed: bool) -> LinForm {
        let m = 1i128 << w;
        let base = if signed { -(m >> 1) } else { 0 };
        let d = (f.lo - base).div_euclid(m) * m;
        f.c0 -= d;
        f.lo -= d;
        f.hi -= d;
        f
    }
    fn fits(f: &LinForm, w: u32, signed: bool) -> bool {
        let m = 1i128 << w;
        if signed {
            f.lo >= -(m >> 1) && f.hi < (m >> 1)
        } else {
            f.lo >= 0 && f.hi < m
        }
    }
    pub fn lin_node(&mut self, f: LinForm, w: u32) -> E {
        if f.t.is_empty() {
            return self.k(f.c0 as u128, w);
        }
        // canonical representative
        let u = self.lin_block(f, w, false);
        let f = if Self::fits(&u, w, false) { u } else { self.lin_block(u, w, true) };
        let id = match self.linmap.get(&f) {
            Some(i) => *i,
            None => {
                let i = self.lins.len() as u32;
                self.lins.push(f.clone());
                self.linmap.insert(f, i);
                i
            }
        };
        self.mk(Node { op: Op::Lin, w, a: 0, b: 0, c: 0, k: id as u128 })
    }
    /// A fresh decimal digit.
    pub fn digit(&mut self, idx: u32, lo: u32, hi: u32, w: u32) -> E {
        let v = self.rvar(idx, 8, lo, hi);
        let f = self.lin_form(0, vec![(v, 1)]).unwrap();
        if lo == hi {
            return self.k(lo as u128, w);
        }
        self.lin_node(f, w)
    }
    /// Quotient and remainder by c of a form with values in [0, 2^w).
    fn lin_split(&self, f: &LinForm, c: i128) -> Option<(LinForm, LinForm)> {
        let (mut q, mut r) = (vec![], vec![]);
        for (v, k) in &f.t {
            if k % c == 0 {
                q.push((*v, k / c));
            } else {
                r.push((*v, *k));
            }
        }
        let rf = self.lin_form(0, r)?;
        // choose the part of c0 that keeps the remainder in [0, c)
        let mut c0r = f.c0.rem_euclid(c);
        if rf.hi + c0r >= c {
            c0r -= c;
        }
        if rf.lo + c0r < 0 || rf.hi + c0r >= c {
            return None;
        }
        let rf = self.lin_form(c0r, rf.t)?;
        let qf = self.lin_form((f.c0 - c0r) / c, q)?;
        Some((qf, rf))
    }
    fn lin_divrem(&mut self, a: E, c: u128) -> Option<(E, E)> {
        if !self.is_lin(a) || c == 0 || c >= 1 << 120 {
            return None;
        }
        let w = self.w(a);
        if w > 120 {
            return None;
        }
        let f = self.as_lin(a)?;
        let f = self.lin_block(f, w, false);
        if !Self::fits(&f, w, false) {
            return None;
        }
        let (q, r) = self.lin_split(&f, c as i128)?;
        Some((self.lin_node(q, w), self.lin_node(r, w)))
    }

    fn lin_extract(&mut self, a: E, lo: u32, w: u32) -> Option<E> {
        let aw = self.w(a);
        if aw > 120 {
            return None;
        }
        let f = self.as_lin(a)?;
        let u = self.lin_block(f.clone(), aw, false);
        let (f, sign) = if Self::fits(&u, aw, false) {
            (u, false)
        } else {
            let s = self.lin_block(f.clone(), aw, true);
            if Self::fits(&s, aw, true) {
                (s, true)
            } else if lo == 0 {
                return Some(self.lin_node(f, w));
            } else {
                return None;
            }
        };
        if lo == 0 && (Self::fits(&f, w, false) || Self::fits(&f, w, true)) {
            return Some(self.lin_node(f, w));
        }
        if lo == 0 && f.lo >> w == f.hi >> w {
            let d = f.lo >> w << w;
            return Some(self.lin_node(LinForm { c0: f.c0 - d, t: f.t, lo: f.lo - d, hi: f.hi - d }, w));
        }
        if f.lo >> lo == f.hi >> lo {
            return Some(self.k((f.lo >> lo) as u128, w));
        }
        if lo > 0 {
            if let Some((q, _)) = self.lin_split(&f, 1i128 << lo) {
                let q = self.lin_node(q, aw - lo);
                return Some(self.extract(q, 0, w));
            }
        }
        for iw in [8, 16, 32, 64] {
            if iw < aw && Self::fits(&f, iw, sign) {
                if lo + w > iw {
                    if sign || lo >= iw {
                        return None;
                    }
                    let inner = self.lin_node(f, iw);
                    let x = self.extract(inner, lo, iw - lo);
                    return Some(self.zext(x, w));
                }
                let inner = self.lin_node(f, iw);
                return Some(self.extract(inner, lo, w));
            }
        }
        None
    }

    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some((x, y)) = self.lin_pair(a, b) {
            if let Some(f) = self.lin_comb(&x, 1, &y, 1) {
                return self.lin_node(f, w);
            }
        }
        match (self.cst(a), self.cst(b)) {
            (Some(x), Some(y)) => return self.k(x.wrapping_add(y), w),
            (Some(_), None) => return self.add(b, a),
            (None, Some(y)) => {
                if y == 0 {
                    return a;
                }
                let n = *self.node(a);
                if n.op == Op::Add {
                    if let Some(z) = self.cst(n.b) {
                        let k = self.k(y.wrapping_add(z), w);
                        return self.add(n.a, k);
                    }
                }
                return self.bin(Op::Add, w, a, b);
            }
            _ => {}
        }
        let (na, nb) = (*self.node(a), *self.node(b));
        if na.op == Op::Add {
            if let Some(z) = self.cst(na.b) {
                let s = self.add(na.a, b);
                let k = self.k(z, w);
                return self.add(s, k);
            }
        }
        if nb.op == Op::Add {
            if let Some(z) = self.cst(nb.b) {
                let s = self.add(a, nb.a);
                let k = self.k(z, w);
                return self.add(s, k);
            }
        }
        let (a, b) = (a.min(b), a.max(b));
        self.bin(Op::Add, w, a, b)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some((x, y)) = self.lin_pair(a, b) {
            if let Some(f) = self.lin_comb(&x, 1, &y, -1) {
                return self.lin_node(f, w);
            }
        }
        if a == b {
            return self.k(0, w);
        }
        if let Some(y) = self.cst(b) {
            let k = self.k(0u128.wrapping_sub(y), w);
            return self.add(a, k);
        }
        let (na, nb) = (*self.node(a), *self.node(b));
        if na.op == Op::Add && na.a == b {
            return na.b;
        }
        if na.op == Op::Add && na.b == b {
            return na.a;
        }
        if nb.op == Op::Add && nb.a == a {
            let z = self.k(0, w);
            return self.sub(z, nb.b);
        }
        if nb.op == Op::Add {
            if let Some(z) = self.cst(nb.b) {
                let s = self.sub(a, nb.a);
                let k = self.k(0u128.wrapping_sub(z), w);
                return self.add(s, k);
            }
        }
        if na.op == Op::Add {
            if let Some(z) = self.cst(na.b) {
                let s = self.sub(na.a, b);
                let k = self.k(z, w);
                return self.add(s, k);
            }
        }
        self.bin(Op::Sub, w, a, b)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some((x, y)) = self.lin_pair(a, b) {
            let z = LinForm { c0: 0, t: vec![], lo: 0, hi: 0 };
            let f = if y.t.is_empty() {
                self.lin_comb(&x, y.c0, &z, 0)
            } else if x.t.is_empty() {
                self.lin_comb(&y, x.c0, &z, 0)
            } else {
                None
            };
            if let Some(f) = f {
                return self.lin_node(f, w);
            }
        }
        match (self.cst(a), self.cst(b)) {
            (Some(x), Some(y)) => return self.k(x.wrapping_mul(y), w),
            (Some(_), None) => return self.mul(b, a),
            (None, Some(y)) => {
                if y == 0 {
                    return b;
                }
                if y == 1 {
                    return a;
                }
                if y.is_power_of_two() {
                    let k = self.k(y.trailing_zeros() as u128, w);
                    return self.shl(a, k);
                }
            }
            _ => {}
        }
        self.bin(Op::Mul, w, a, b)
    }
    pub fn udiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(c) = self.cst(b) {
            if let Some((q, _)) = self.lin_divrem(a, c) {
                let raw = self.bin(Op::UDiv, w, a, b);
                self.rewritten(raw, q);
                return q;
            }
        }
        match (self.cst(a), self.cst(b)) {
            (Some(x), Some(y)) if y != 0 => return self.k(x / y, w),
            (_, Some(y)) if y.is_power_of_two() => {
                let k = self.k(y.trailing_zeros() as u128, w);
                return self.lshr(a, k);
            }
            _ => {}
        }
        self.bin(Op::UDiv, w, a, b)
    }
    pub fn urem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(c) = self.cst(b) {
            if let Some((_, r)) = self.lin_divrem(a, c) {
                let raw = self.bin(Op::URem, w, a, b);
                self.rewritten(raw, r);
                return r;
            }
        }
        match (self.cst(a), self.cst(b)) {
            (Some(x), Some(y)) if y != 0 => return self.k(x % y, w),
            (_, Some(y)) if y.is_power_of_two() => {
                let k = self.k(y - 1, w);
                return self.and(a, k);
            }
            _ => {}
        }
        self.bin(Op::URem, w, a, b)
    }
    pub fn sdiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cst(a), self.cst(b)) {
            if y != 0 {
                return self.k(sx(x, w).wrapping_div(sx(y, w)) as u128, w);
            }
        }
        self.bin(Op::SDiv, w, a, b)
    }
    pub fn srem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cst(a), self.cst(b)) {
            if y != 0 {
                return self.k(sx(x, w).wrapping_rem(sx(y, w)) as u128, w);
            }
        }
        self.bin(Op::SRem, w, a, b)
    }
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        if self.is_lin(a) && w <= 120 {
            let m = self.k(mask(w), w);
            return self.sub(m, a);
        }
        if let Some(x) = self.cst(a) {
            return self.k(!x, w);
        }
        let n = *self.node(a);
        if n.op == Op::Not {
            return n.a;
        }
        self.mk(Node { op: Op::Not, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return a;
        }
        match (self.cst(a), self.cst(b)) {
            (Some(x), Some(y)) => return self.k(x & y, w),
            (Some(_), None) => return self.and(b, a),
            (None, Some(y)) => {
                if y == 0 {
                    return b;
                }
                if y == mask(w) {
                    return a;
                }
                if self.is_lin(a) && w <= 120 {
                    let f = self.as_lin(a).unwrap();
                    let f = self.lin_block(f, w, false);
                    if Self::fits(&f, w, false) {
                        let bits = 128 - (f.hi as u128).leading_zeros();
                        let tz = f.t.iter().fold(f.c0, |g, t| g | t.1).trailing_zeros();
                        let poss = mask(bits) & !mask(tz.min(120));
                        if y & poss == poss {
                            return a;
                        }
                    }
                }
                // low mask
                if (y + 1).is_power_of_two() {
                    let k = (y + 1).trailing_zeros();
                    let x = self.extract(a, 0, k);
                    return self.zext(x, w);
                }
                let n = *self.node(a);
                if n.op == Op::Zext {
                    let iw = self.w(n.a);
                    let kk = self.k(y, iw);
                    let x = self.and(n.a, kk);
                    return self.zext(x, w);
                }
                if n.op == Op::And {
                    if let Some(z) = self.cst(n.b) {
                        let kk = self.k(y & z, w);
                        return self.and(n.a, kk);
                    }
                }
                return self.bin(Op::And, w, a, b);
            }
            _ => {}
        }
        if w == 1 && (self.is_not(a, b) || self.is_not(b, a)) {
            return self.k(0, 1);
        }
        let (na, nb) = (*self.node(a), *self.node(b));
        if na.op == Op::Zext && nb.op == Op::Zext {
            let (wa, wb) = (self.w(na.a), self.w(nb.a));
            let m = wa.min(wb);
            let x = self.extract(na.a, 0, m);
            let y = self.extract(nb.a, 0, m);
            let z = self.and(x, y);
            return self.zext(z, w);
        }
        let (a, b) = (a.min(b), a.max(b));
        self.bin(Op::And, w, a, b)
    }
    fn is_not(&self, a: E, b: E) -> bool {
        let n = self.node(a);
        n.op == Op::Not && n.a == b
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return a;
        }
        match (self.cst(a), self.cst(b)) {
            (Some(x), Some(y)) => return self.k(x | y, w),
            (Some(_), None) => return self.or(b, a),
            (None, Some(y)) => {
                if y == 0 {
                    return a;
                }
                if y == mask(w) {
                    return b;
                }
                // no common bits: a sum
                if self.is_lin(a) && w <= 120 {
                    if let Some(f) = self.as_lin(a) {
                        let f = self.lin_block(f, w, false);
                        if Self::fits(&f, w, false) && y & (((f.hi as u128) + 1).next_power_of_two() - 1) == 0 {
                            let raw = self.bin(Op::Or, w, a, b);
                            let s = self.add(a, b);
                            self.rewritten(raw, s);
                            return s;
                        }
                    }
                }
            }
            _ => {}
        }
        if w == 1 && (self.is_not(a, b) || self.is_not(b, a)) {
            return self.k(1, 1);
        }
        let (na, nb) = (*self.node(a), *self.node(b));
        for (x, y) in [(na, nb), (nb, na)] {
            if x.op == Op::Concat && y.op == Op::Zext && self.cst(x.b) == Some(0) {
                let lw = self.w(x.b);
                let iw = self.w(y.a);
                if iw <= lw {
                    let lo = self.zext(y.a, lw);
                    return self.concat(x.a, lo);
                }
            }
            // zext(concat(h, 0)) | zext(y)
            if x.op == Op::Zext && y.op == Op::Zext {
                let xi = *self.node(x.a);
                if xi.op == Op::Concat && self.cst(xi.b) == Some(0) {
                    let lw = self.w(xi.b);
                    let iw = self.w(y.a);
                    if iw <= lw {
                        let lo = self.zext(y.a, lw);
                        let cc = self.concat(xi.a, lo);
                        return self.zext(cc, w);
                    }
                }
            }
        }
        if na.op == Op::Zext && nb.op == Op::Zext {
            let (wa, wb) = (self.w(na.a), self.w(nb.a));
            let m = wa.max(wb);
            if m < w {
                let x = self.zext(na.a, m);
                let y = self.zext(nb.a, m);
                let z = self.or(x, y);
                return self.zext(z, w);
            }
        }
        let (a, b) = (a.min(b), a.max(b));
        self.bin(Op::Or, w, a, b)
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.k(0, w);
        }
        match (self.cst(a), self.cst(b)) {
            (Some(x), Some(y)) => return self.k(x ^ y, w),
            (Some(_), None) => return self.xor(b, a),
            (None, Some(y)) => {
                if y == 0 {
                    return a;
                }
                if y == mask(w) {
                    return self.not(a);
                }
                let n = *self.node(a);
                if n.op == Op::Xor {
                    if let Some(z) = self.cst(n.b) {
                        let kk = self.k(y ^ z, w);
                        return self.xor(n.a, kk);
                    }
                }
                return self.bin(Op::Xor, w, a, b);
            }
            _ => {}
        }
        let (a, b) = (a.min(b), a.max(b));
        self.bin(Op::Xor, w, a, b)
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (true, Some(y)) = (self.is_lin(a), self.cst(b)) {
            if y < 8 {
                let k = self.k(1 << y, w);
                let f = self.as_lin(a).unwrap();
                let z = LinForm { c0: 0, t: vec![], lo: 0, hi: 0 };
                if let Some(f) = self.lin_comb(&f, 1i128 << y, &z, 0) {
                    let _ = k;
                    return self.lin_node(f, w);
                }
            }
        }
        if let Some(y) = self.cst(b) {
            if y == 0 {
                return a;
            }
            if y >= w as u128 {
                return self.k(0, w);
            }
            let y = y as u32;
            let hi = self.extract(a, 0, w - y);
            let lo = self.k(0, y);
            return self.concat(hi, lo);
        }
        self.bin(Op::Shl, w, a, b)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.cst(b) {
            if y == 0 {
                return a;
            }
            if y >= w as u128 {
                return self.k(0, w);
            }
            let y = y as u32;
            let hi = self.extract(a, y, w - y);
            return self.zext(hi, w);
        }
        self.bin(Op::LShr, w, a, b)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.cst(b) {
            if y == 0 {
                return a;
            }
            let y = (y.min(w as u128 - 1)) as u32;
            let hi = self.extract(a, y, w - y);
            return self.sext(hi, w);
        }
        self.bin(Op::AShr, w, a, b)
    }

    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw, "extract {} {} of {}", lo, w, aw);
        if lo == 0 && w == aw {
            return a;
        }
        match self.node(a).op {
            Op::And | Op::Or | Op::Xor | Op::Add | Op::Sub | Op::Mul | Op::Not | Op::Ite | Op::Concat => {
                // operands may be shared: descend into each once
                if let Some(e) = self.extracted.get(&(a, lo, w)) {
                    return *e;
                }
                let e = self.extract_(a, lo, w);
                self.extracted.insert((a, lo, w), e);
                e
            }
            _ => self.extract_(a, lo, w),
        }
    }
    fn extract_(&mut self, a: E, lo: u32, w: u32) -> E {
        let n = *self.node(a);
        match n.op {
            Op::Const => return self.k(n.k >> lo, w),
            Op::Extract => return self.extract(n.a, lo + n.k as u32, w),
            Op::Lin => {
                if let Some(e) = self.lin_extract(a, lo, w) {
                    return e;
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, w - (lw - lo));
                return self.concat(h, l);
            }
            Op::Zext => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo >= iw {
                    return self.k(0, w);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::Sext => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo < iw {
                    let x = self.extract(n.a, lo, iw - lo);
                    return self.sext(x, w);
                }
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return match n.op {
                    Op::Add => self.add(x, y),
                    Op::Sub => self.sub(x, y),
                    _ => self.mul(x, y),
                };
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return match n.op {
                    Op::And => self.and(x, y),
                    Op::Or => self.or(x, y),
                    _ => self.xor(x, y),
                };
            }
            Op::Not => {
                let x = self.extract(n.a, lo, w);
                return self.not(x);
            }
            Op::Ite => {
                if self.cst(n.b).is_some() || self.cst(n.c).is_some() {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::Lut => {
                let t = self.luts[n.k as usize].iter().map(|v| (v.0, ((v.1 as u128 >> lo) & mask(w)) as u64)).collect();
                return self.lut_runs(t, n.a, w);
            }
            _ => {}
        }
        self.mk(Node { op: Op::Extract, w, a, b: 0, c: 0, k: lo as u128 })
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (wh, wl) = (self.w(hi), self.w(lo));
        let w = wh + wl;
        match (self.cst(hi), self.cst(lo)) {
            (Some(x), Some(y)) => return self.k((x << wl) | y, w),
            (Some(0), None) => return self.zext(lo, w),
            (Some(x), None) if w <= 64 && self.is_lin(lo) => {
                let f = self.as_lin(lo).unwrap();
                let f = self.lin_block(f, wl, false);
                if Self::fits(&f, wl, false) {
                    let d = (x << wl) as i128;
                    return self.lin_node(LinForm { c0: f.c0 + d, t: f.t, lo: f.lo + d, hi: f.hi + d }, w);
                }
            }
            _ => {}
        }
        let (nh, nl) = (*self.node(hi), *self.node(lo));
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k == nl.k + wl as u128 {
            return self.extract(nh.a, nl.k as u32, w);
        }
        if nl.op == Op::Concat {
            // keep right nested, merging neighbours
            let m = *self.node(nl.a);
            if (nh.op == Op::Extract && m.op == Op::Extract && nh.a == m.a && nh.k == m.k + m.w as u128)
                || (nh.op == Op::Const && m.op == Op::Const)
            {
                let x = self.concat(hi, nl.a);
                return self.concat(x, nl.b);
            }
        }
        if nl.op == Op::Zext && nh.op == Op::Const {
            // concat(k, concat(0, x))
            let iw = self.w(nl.a);
            let k2 = self.k(nh.k << (wl - iw), w - iw);
            return self.concat(k2, nl.a);
        }
        if nh.op == Op::Zext {
            let x = self.concat(nh.a, lo);
            return self.zext(x, w);
        }
        if nh.op == Op::Concat {
            let l = self.concat(nh.b, lo);
            return self.concat(nh.a, l);
        }
        self.bin(Op::Concat, w, hi, lo)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        debug_assert!(aw < w);
        let n = *self.node(a);
        match n.op {
            Op::Const => return self.k(n.k, w),
            Op::Zext => return self.zext(n.a, w),
            Op::Lin if aw <= 120 => {
                let f = self.lins[n.k as usize].clone();
                let f = self.lin_block(f, aw, false);
                if Self::fits(&f, aw, false) {
                    return self.lin_node(f, w);
                }
            }
            Op::Lut => {
                let t = self.luts[n.k as usize].clone();
                if w <= 64 {
                    return self.lut_runs(t, n.a, w);
                }
            }
            _ => {}
        }
        self.mk(Node { op: Op::Zext, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        let n = *self.node(a);
        match n.op {
            Op::Const => return self.k(sx(n.k, aw) as u128, w),
            Op::Lin if aw <= 120 => {
                let f = self.lins[n.k as usize].clone();
                let f = self.lin_block(f, aw, true);
                if Self::fits(&f, aw, true) {
                    return self.lin_node(f, w);
                }
            }
            Op::Zext => return self.zext(n.a, w),
            Op::Sext => return self.sext(n.a, w),
            _ => {}
        }
        self.mk(Node { op: Op::Sext, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn trunc(&mut self, a: E, w: u32) -> E {
        self.extract(a, 0, w)
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.cst(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        let nc = *self.node(c);
        if nc.op == Op::Not {
            return self.ite(nc.a, b, a);
        }
        if w == 1 {
            match (self.cst(a), self.cst(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        let (na, nb) = (*self.node(a), *self.node(b));
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        self.mk(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
    }

    /// Known bits that are zero above: an upper bound on the value.
    fn ubound(&self, e: E) -> u128 {
        let n = self.node(e);
        match n.op {
            Op::Const => n.k,
            Op::Zext => mask(self.w(n.a)),
            Op::Lut => self.luts[n.k as usize].iter().map(|r| r.1).max().unwrap_or(0) as u128,
            Op::Ite => self.ubound1(n.b).max(self.ubound1(n.c)),
            Op::And => self.ubound1(n.a).min(self.ubound1(n.b)),
            Op::Add => {
                let (x, y) = (self.ubound1(n.a), self.ubound1(n.b));
                match x.checked_add(y) {
                    Some(s) if s <= mask(n.w) => s,
                    _ => mask(n.w),
                }
            }
            Op::Lin => self.lin_ub(n),
            _ => mask(n.w),
        }
    }
    fn lin_ub(&self, n: &Node) -> u128 {
        let f = &self.lins[n.k as usize];
        if n.w <= 120 && Self::fits(f, n.w, false) {
            f.hi as u128
        } else {
            mask(n.w)
        }
    }
    fn ubound1(&self, e: E) -> u128 {
        let n = self.node(e);
        match n.op {
            Op::Const => n.k,
            Op::Zext => mask(self.w(n.a)),
            Op::Lut => self.luts[n.k as usize].iter().map(|r| r.1).max().unwrap_or(0) as u128,
            Op::Lin => self.lin_ub(n),
            _ => mask(n.w),
        }
    }

    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.k(1, 1);
        }
        let w = self.w(a);
        if let Some((x, y)) = self.lin_pair(a, b) {
            let (x, y) = (self.lin_block(x, w, false), self.lin_block(y, w, false));
            if Self::fits(&x, w, false) && Self::fits(&y, w, false) {
                if let Some(d) = self.lin_comb(&x, 1, &y, -1) {
                    if d.lo > 0 || d.hi < 0 {
                        return self.settled(Op::Eq, a, b, 0);
                    }
                    if d.t.is_empty() {
                        return self.settled(Op::Eq, a, b, 1);
                    }
                    let g = d.t.iter().fold(0i128, |g, (_, k)| gcd(g, *k));
                    if d.c0 % g != 0 {
                        return self.settled(Op::Eq, a, b, 0);
                    }
                    // the smallest coefficient's digit is forced modulo the rest
                    if d.lo == 0 || d.hi == 0 {
                        // every variable at the bound that minimises (maximises) d
                        let mut r = self.k(1, 1);
                        for (v, k) in &d.t {
                            let n = *self.node(*v);
                            let at = if (*k > 0) == (d.lo == 0) { n.b } else { n.c };
                            let l = self.lin_form(0, vec![(*v, 1)]).unwrap();
                            let l = self.lin_node(l, 8);
                            let q = self.k(at as u128, 8);
                            let t = self.bin(Op::Eq, 1, l, q);
                            r = self.and(r, t);
                        }
                        let raw = self.bin(Op::Eq, 1, a, b);
                        self.rewritten(raw, r);
                        return r;
                    }
                }
            }
        }
        match (self.cst(a), self.cst(b)) {
            (Some(x), Some(y)) => return self.k((x == y) as u128, 1),
            (Some(_), None) => return self.eq(b, a),
            (None, Some(y)) => {
                if w == 1 {
                    return if y == 1 { a } else { self.not(a) };
                }
                let n = *self.node(a);
                match n.op {
                    Op::Zext => {
                        let iw = self.w(n.a);
                        if y > mask(iw) {
                            return self.k(0, 1);
                        }
                        let k = self.k(y, iw);
                        return self.eq(n.a, k);
                    }
                    Op::Sext => {
                        let iw = self.w(n.a);
                        if (sx(y & mask(iw), iw) as u128) & mask(w) != y {
                            return self.k(0, 1);
                        }
                        let k = self.k(y, iw);
                        return self.eq(n.a, k);
                    }
                    Op::Concat => {
                        let lw = self.w(n.b);
                        let kh = self.k(y >> lw, w - lw);
                        let h = self.eq(n.a, kh);
                        if self.cst(h) == Some(0) {
                            return h;
                        }
                        let kl = self.k(y, lw);
                        let l = self.eq(n.b, kl);
                        return self.and(h, l);
                    }
                    Op::Add => {
                        if let Some(z) = self.cst(n.b) {
                            let k = self.k(y.wrapping_sub(z), w);
                            return self.eq(n.a, k);
                        }
                    }
                    Op::Sub => {
                        if let Some(z) = self.cst(n.a) {
                            let k = self.k(z.wrapping_sub(y), w);
                            return self.eq(n.b, k);
                        }
                        if y == 0 {
                            return self.eq(n.a, n.b);
                        }
                    }
                    Op::Xor => {
                        if let Some(z) = self.cst(n.b) {
                            let k = self.k(y ^ z, w);
                            return self.eq(n.a, k);
                        }
                        if y == 0 {
                            return self.eq(n.a, n.b);
                        }
                    }
                    Op::Not => {
                        let k = self.k(!y, w);
                        return self.eq(n.a, k);
                    }
                    Op::Or => {
                        if y == 0 {
                            let p = self.eq(n.a, b);
                            let q = self.eq(n.b, b);
                            return self.and(p, q);
                        }
                    }
                    Op::Ite => {
                        let (cb, cc) = (self.cst(n.b), self.cst(n.c));
                        if cb.is_some() || cc.is_some() {
                            let p = self.eq(n.b, b);
                            let q = self.eq(n.c, b);
                            return self.ite(n.a, p, q);
                        }
                    }
                    Op::And => {
                        if let Some(z) = self.cst(n.b) {
                            if y & !z != 0 {
                                return self.k(0, 1);
                            }
                        }
                    }
                    Op::Lut => {
                        let t = self.luts[n.k as usize].iter().map(|v| (v.0, (v.1 as u128 == y) as u64)).collect();
                        return self.lut_runs(t, n.a, 1);
                    }
                    _ => {}
                }
                return self.bin(Op::Eq, 1, a, b);
            }
            _ => {}
        }
        let (na, nb) = (*self.node(a), *self.node(b));
        if na.op == Op::Zext && nb.op == Op::Zext {
            let (wa, wb) = (self.w(na.a), self.w(nb.a));
            let m = wa.max(wb);
            if m < w {
                let x = self.zext(na.a, m);
                let y = self.zext(nb.a, m);
                return self.eq(x, y);
            }
            if wa == wb {
                return self.eq(na.a, nb.a);
            }
        }
        if na.op == Op::Sext && nb.op == Op::Sext && self.w(na.a) == self.w(nb.a) {
            return self.eq(na.a, nb.a);
        }
        if na.op == Op::Add && nb.op == Op::Add && self.cst(na.b).is_some() && self.cst(nb.b).is_some() {
            let d = self.sub(na.b, nb.b);
            let x = self.add(na.a, d);
            return self.eq(x, nb.a);
        }
        if w == 1 {
            let x = self.xor(a, b);
            return self.not(x);
        }
        let (a, b) = (a.min(b), a.max(b));
        self.bin(Op::Eq, 1, a, b)
    }
    pub fn ne(&mut self, a: E, b: E) -> E {
        let e = self.eq(a, b);
        self.not(e)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.k(0, 1);
        }
        let w = self.w(a);
        if let Some((x, y)) = self.lin_pair(a, b) {
            let (x, y) = (self.lin_block(x, w, false), self.lin_block(y, w, false));
            if Self::fits(&x, w, false) && Self::fits(&y, w, false) {
                if let Some(d) = self.lin_comb(&x, 1, &y, -1) {
                    if d.hi < 0 {
                        return self.settled(Op::Ult, a, b, 1);
                    }
                    if d.lo >= 0 {
                        return self.settled(Op::Ult, a, b, 0);
                    }
                }
            }
        }
        let (ca, cb) = (self.cst(a), self.cst(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.k((x < y) as u128, 1);
        }
        if let Some(y) = cb {
            if y == 0 {
                return self.k(0, 1);
            }
            if self.ubound(a) < y {
                return self.k(1, 1);
            }
            if y == 1 {
                let z = self.k(0, w);
                return self.eq(a, z);
            }
            if y == mask(w) {
                return self.ne(a, b);
            }
            let n = *self.node(a);
            match n.op {
                Op::Zext => {
                    let iw = self.w(n.a);
                    let k = self.k(y, iw);
                    return self.ult(n.a, k);
                }
                Op::Ite if self.cst(n.b).is_some() || self.cst(n.c).is_some() => {
                    let p = self.ult(n.b, b);
                    let q = self.ult(n.c, b);
                    return self.ite(n.a, p, q);
                }
                Op::Lut => {
                    let t = self.luts[n.k as usize].iter().map(|v| (v.0, ((v.1 as u128) < y) as u64)).collect();
                    return self.lut_runs(t, n.a, 1);
                }
                _ => {}
            }
        }
        if let Some(x) = ca {
            if x == mask(w) {
                return self.k(0, 1);
            }
            if self.ubound(b) <= x {
                return self.k(0, 1);
            }
            if x == 0 {
                return self.ne(b, a);
            }
            let n = *self.node(b);
            match n.op {
                Op::Zext => {
                    let iw = self.w(n.a);
                    let k = self.k(x, iw);
                    return self.ult(k, n.a);
                }
                Op::Ite if self.cst(n.b).is_some() || self.cst(n.c).is_some() => {
                    let p = self.ult(a, n.b);
                    let q = self.ult(a, n.c);
                    return self.ite(n.a, p, q);
                }
                Op::Lut => {
                    let t = self.luts[n.k as usize].iter().map(|v| (v.0, ((v.1 as u128) > x) as u64)).collect();
                    return self.lut_runs(t, n.a, 1);
                }
                _ => {}
            }
        }
        let (na, nb) = (*self.node(a), *self.node(b));
        if na.op == Op::Zext && nb.op == Op::Zext {
            let m = self.w(na.a).max(self.w(nb.a));
            if m < w || (self.w(na.a) == self.w(nb.a)) {
                let x = self.zext(na.a, m);
                let y = self.zext(nb.a, m);
                return self.ult(x, y);
            }
        }
        self.bin(Op::Ult, 1, a, b)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.k(0, 1);
        }
        let w = self.w(a);
        if let Some((x, y)) = self.lin_pair(a, b) {
            let (x, y) = (self.lin_block(x, w, true), self.lin_block(y, w, true));
            if Self::fits(&x, w, true) && Self::fits(&y, w, true) {
                if let Some(d) = self.lin_comb(&x, 1, &y, -1) {
                    if d.hi < 0 {
                        return self.settled(Op::Slt, a, b, 1);
                    }
                    if d.lo >= 0 {
                        return self.settled(Op::Slt, a, b, 0);
                    }
                }
            }
        }
        let (ca, cb) = (self.cst(a), self.cst(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.k((sx(x, w) < sx(y, w)) as u128, 1);
        }
        // both non-negative: unsigned
        let half = mask(w) >> 1;
        let (ua, ub) = (self.ubound(a), self.ubound(b));
        if ua <= half && ub <= half {
            return self.ult(a, b);
        }
        if ua <= half {
            if let Some(y) = cb {
                if y > half {
                    return self.k(0, 1);
                }
            }
        }
        if ub <= half {
            if let Some(x) = ca {
                if x > half {
                    return self.k(1, 1);
                }
            }
        }
        let (na, nb) = (*self.node(a), *self.node(b));
        if na.op == Op::Ite && cb.is_some() && (self.cst(na.b).is_some() || self.cst(na.c).is_some()) {
            let p = self.slt(na.b, b);
            let q = self.slt(na.c, b);
            return self.ite(na.a, p, q);
        }
        if nb.op == Op::Ite && ca.is_some() && (self.cst(nb.b).is_some() || self.cst(nb.c).is_some()) {
            let p = self.slt(a, nb.b);
            let q = self.slt(a, nb.c);
            return self.ite(nb.a, p, q);
        }
        if na.op == Op::Sext {
            let iw = self.w(na.a);
            if let Some(y) = cb {
                let sy = sx(y, w);
                let lim = (mask(iw) >> 1) as i128;
                if sy > lim {
                    return self.k(1, 1);
                }
                if sy < -lim {
                    return self.k(0, 1);
                }
                let k = self.k(y, iw);
                return self.slt(na.a, k);
            }
            if nb.op == Op::Sext && self.w(nb.a) == iw {
                return self.slt(na.a, nb.a);
            }
        }
        if nb.op == Op::Sext {
            if let Some(x) = ca {
                let iw = self.w(nb.a);
                let s = sx(x, w);
                let lim = (mask(iw) >> 1) as i128;
                if s > lim {
                    return self.k(0, 1);
                }
                if s < -lim {
                    return self.k(1, 1);
                }
                let k = self.k(x, iw);
                return self.slt(k, nb.a);
            }
        }
        self.bin(Op::Slt, 1, a, b)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        let x = self.ult(b, a);
        self.not(x)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        let x = self.slt(b, a);
        self.not(x)
    }

    /// table[idx]; indices outside the table must be infeasible.
    pub fn lut(&mut self, t: Vec<u64>, idx: E, w: u32) -> E {
        let runs = t.iter().enumerate().map(|(i, v)| (i as u64, *v)).collect();
        self.lut_runs(runs, idx, w)
    }

    pub fn lut_runs(&mut self, mut t: Vec<(u64, u64)>, idx: E, w: u32) -> E {
        t.dedup_by(|b, a| a.1 == b.1);
        if t.len() == 1 {
            return self.k(t[0].1 as u128, w);
        }
        if let Some(k) = self.cst(idx) {
            return self.k(run_at(&t, k as u64) as u128, w);
        }
        let n = *self.node(idx);
        if n.op == Op::Zext {
            return self.lut_runs(t, n.a, w);
        }
        if n.op == Op::Lin {
            if let Some(e) = self.lut_lin(&t, idx, w) {
                let raw = self.lut_raw(t, idx, w);
                self.rewritten(raw, e);
                return e;
            }
        }
        let m = mask(self.w(idx));
        if t.last().unwrap().0 as u128 > m {
            t.retain(|r| r.0 as u128 <= m);
            return self.lut_runs(t, idx, w);
        }
        self.lut_raw(t, idx, w)
    }
    fn lut_raw(&mut self, t: Vec<(u64, u64)>, idx: E, w: u32) -> E {
        let id = match self.lutmap.get(&t) {
            Some(i) => *i,
            None => {
                let i = self.luts.len() as u32;
                self.luts.push(t.clone());
                self.lutmap.insert(t, i);
                i
            }
        };
        self.mk(Node { op: Op::Lut, w, a: idx, b: 0, c: 0, k: id as u128 })
    }

    /// A table indexed by a linear form: a constant, affine, or dependent on
    /// only some of the variables?
    fn lut_lin(&mut self, t: &[(u64, u64)], idx: E, w: u32) -> Option<E> {
        let iw = self.w(idx);
        let f = self.as_lin(idx)?;
        let f = self.lin_block(f, iw, false);
        if iw > 64 || !Self::fits(&f, iw, false) {
            return None;
        }
        // all variable assignments
        let rs: Vec<(i128, i128, i128)> =
            f.t.iter().map(|(v, k)| (self.node(*v).b as i128, self.node(*v).c as i128, *k)).collect();
        let n: i128 = rs.iter().map(|r| r.1 - r.0 + 1).product();
        if n > 2000 {
            return None;
        }
        let mut vals = vec![];
        let mut cur: Vec<i128> = rs.iter().map(|r| r.0).collect();
        loop {
            let i = f.c0 + cur.iter().zip(&rs).map(|(c, r)| c * r.2).sum::<i128>();
            vals.push((cur.clone(), run_at(t, i as u64) as i128));
            let mut p = 0;
            while p < cur.len() {
                cur[p] += 1;
                if cur[p] <= rs[p].1 {
                    break;
                }
                cur[p] = rs[p].0;
                p += 1;
            }
            if p == cur.len() {
                break;
            }
        }
        // affine?
        let mut co = vec![];
        let base: Vec<i128> = rs.iter().map(|r| r.0).collect();
        let at = |x: &[i128]| vals.iter().find(|v| v.0 == x).map(|v| v.1);
        let b0 = at(&base)?;
        for p in 0..rs.len() {
            if rs[p].1 > rs[p].0 {
                let mut x = base.clone();
                x[p] += 1;
                co.push(at(&x)? - b0);
            } else {
                co.push(0);
            }
        }
        let c0 = b0 - co.iter().zip(&base).map(|(c, b)| c * b).sum::<i128>();
        if vals.iter().all(|(x, y)| *y == c0 + co.iter().zip(x).map(|(c, b)| c * b).sum::<i128>()) {
            let tt = f.t.iter().zip(&co).filter(|(_, c)| **c != 0).map(|((v, _), c)| (*v, *c)).collect();
            let g = self.lin_form(c0, tt)?;
            return Some(self.lin_node(g, w));
        }
        // one variable only?
        for p in 0..rs.len() {
            if rs.len() == 1 {
                break;
            }
            let mut m: HashMap<i128, i128> = HashMap::new();
            if vals.iter().all(|(x, y)| *m.entry(x[p]).or_insert(*y) == *y) {
                let l = self.lin_form(0, vec![(f.t[p].0, 1)])?;
                let l = self.lin_node(l, 8);
                let mut runs: Vec<(u64, u64)> = m.iter().map(|(k, v)| (*k as u64, *v as u64)).collect();
                runs.sort_unstable();
                let first = runs[0].1;
                if runs[0].0 != 0 {
                    runs.insert(0, (0, first));
                }
                return Some(self.lut_runs(runs, l, w));
            }
        }
        None
    }

    /// Ranges of the variables in `e`.
    pub fn ranges_in(&self, e: E) -> Vec<(u32, u32, u32)> {
        let mut out = vec![];
        let mut seen = std::collections::HashSet::new();
        let mut todo = vec![e];
        while let Some(e) = todo.pop() {
            if !seen.insert(e) {
                continue;
            }
            let n = self.node(e);
            match n.op {
                Op::Const => {}
                Op::Var => {
                    if n.c > 0 {
                        out.push((n.k as u32, n.b, n.c));
                    }
                }
                Op::Lin => todo.extend(self.lins[n.k as usize].t.iter().map(|t| t.0)),
                Op::Not | Op::Extract | Op::Zext | Op::Sext | Op::Lut => todo.push(n.a),
                Op::Ite => todo.extend([n.a, n.b, n.c]),
                _ => todo.extend([n.a, n.b]),
            }
        }
        out
    }

    /// A text that is the same for expressions equal up to variable names.
    pub fn canon(&self, e: E, names: &mut Vec<E>, out: &mut String) {
        use std::fmt::Write;
        let n = self.node(e);
        match n.op {
            Op::Const => write!(out, "{}:{}", n.k, n.w).unwrap(),
            Op::Var => {
                let i = names.iter().position(|x| *x == e).unwrap_or_else(|| {
                    names.push(e);
                    names.len() - 1
                });
                write!(out, "v{}:{}[{},{}]", i, n.w, n.b, n.c).unwrap()
            }
            Op::Lin => {
                let f = &self.lins[n.k as usize];
                let mut t = f.t.clone();
                t.sort_by_key(|(v, k)| (std::cmp::Reverse(k.abs()), self.node(*v).b, self.node(*v).c, *v));
                write!(out, "l{}:{}", f.c0, n.w).unwrap();
                for (v, k) in t {
                    write!(out, "+{}", k).unwrap();
                    self.canon(v, names, out);
                }
            }
            _ => {
                write!(out, "({:?}{}.{} ", n.op, n.k, n.w).unwrap();
                let args: &[E] = match n.op {
                    Op::Not | Op::Extract | Op::Zext | Op::Sext | Op::Lut => &[n.a],
                    Op::Ite => &[n.a, n.b, n.c],
                    _ => &[n.a, n.b],
                };
                for a in args {
                    self.canon(*a, names, out);
                    out.push(' ');
                }
                out.push(')');
            }
        }
    }

    /// For debugging.
    pub fn show(&self, e: E, depth: u32) -> String {
        let n = self.node(e);
        match n.op {
            Op::Const => format!("{}:{}", n.k, n.w),
            Op::Var => format!("v{}:{}", n.k, n.w),
            Op::Lin => {
                let f = &self.lins[n.k as usize];
                let t: Vec<String> = f.t.iter().map(|(v, k)| format!("{}*v{}[{},{}]", k, self.node(*v).k, self.node(*v).b, self.node(*v).c)).collect();
                format!("lin({} + {}):{}", f.c0, t.join(" + "), n.w)
            }
            _ if depth == 0 => format!("..{}", e),
            Op::Lut => format!("lut{}[{} runs]({}):{}", n.k, self.luts[n.k as usize].len(), self.show(n.a, depth - 1), n.w),
            Op::Extract => format!("ext({},{}):{}", self.show(n.a, depth - 1), n.k, n.w),
            Op::Ite => format!("ite({}, {}, {})", self.show(n.a, depth - 1), self.show(n.b, depth - 1), self.show(n.c, depth - 1)),
            Op::Not | Op::Zext | Op::Sext => format!("{:?}({}):{}", n.op, self.show(n.a, depth - 1), n.w),
            _ => format!("{:?}({}, {}):{}", n.op, self.show(n.a, depth - 1), self.show(n.b, depth - 1), n.w),
        }
    }

    pub fn new_gen(&mut self) {
        self.gen = self.gen.wrapping_add(1);
        if self.gen == 0 {
            self.memo_gen.iter_mut().for_each(|g| *g = 0);
            self.gen = 1;
        }
    }

    /// Evaluate under a model, starting afresh.
    pub fn eval(&mut self, e: E, m: &[u64]) -> u128 {
        self.new_gen();
        self.ev(e, m)
    }

    /// Evaluate, reusing memoised values of the current generation.
    pub fn ev(&mut self, e: E, m: &[u64]) -> u128 {
        if self.memo_gen[e as usize] == self.gen {
            return self.memo[e as usize];
        }
        let n = self.nodes[e as usize];
        let w = n.w;
        let r = match n.op {
            Op::Const => n.k,
            Op::Var => m.get(n.k as usize).copied().unwrap_or(0) as u128,
            Op::Add => self.ev(n.a, m).wrapping_add(self.ev(n.b, m)),
            Op::Sub => self.ev(n.a, m).wrapping_sub(self.ev(n.b, m)),
            Op::Mul => self.ev(n.a, m).wrapping_mul(self.ev(n.b, m)),
            Op::UDiv => {
                let y = self.ev(n.b, m);
                let x = self.ev(n.a, m);
                if y == 0 {
                    mask(w)
                } else {
                    x / y
                }
            }
            Op::URem => {
                let y = self.ev(n.b, m);
                let x = self.ev(n.a, m);
                if y == 0 {
                    x
                } else {
                    x % y
                }
            }
            Op::SDiv => {
                let y = sx(self.ev(n.b, m), w);
                let x = sx(self.ev(n.a, m), w);
                if y == 0 {
                    if x < 0 {
                        1
                    } else {
                        mask(w)
                    }
                } else {
                    x.wrapping_div(y) as u128
                }
            }
            Op::SRem => {
                let y = sx(self.ev(n.b, m), w);
                let x = sx(self.ev(n.a, m), w);
                if y == 0 {
                    x as u128
                } else {
                    x.wrapping_rem(y) as u128
                }
            }
            Op::And => {
                let x = self.ev(n.a, m);
                if x == 0 {
                    0
                } else {
                    x & self.ev(n.b, m)
                }
            }
            Op::Or => {
                let x = self.ev(n.a, m);
                if x == mask(w) {
                    x
                } else {
                    x | self.ev(n.b, m)
                }
            }
            Op::Xor => self.ev(n.a, m) ^ self.ev(n.b, m),
            Op::Not => !self.ev(n.a, m),
            Op::Shl => {
                let y = self.ev(n.b, m);
                if y >= w as u128 {
                    0
                } else {
                    self.ev(n.a, m) << y
                }
            }
            Op::LShr => {
                let y = self.ev(n.b, m);
                if y >= w as u128 {
                    0
                } else {
                    self.ev(n.a, m) >> y
                }
            }
            Op::AShr => {
                let y = self.ev(n.b, m).min(w as u128 - 1);
                (sx(self.ev(n.a, m), w) >> y) as u128
            }
            Op::Eq => (self.ev(n.a, m) == self.ev(n.b, m)) as u128,
            Op::Ult => (self.ev(n.a, m) < self.ev(n.b, m)) as u128,
            Op::Slt => {
                let aw = self.w(n.a);
                (sx(self.ev(n.a, m), aw) < sx(self.ev(n.b, m), aw)) as u128
            }
            Op::Concat => {
                let lw = self.w(n.b);
                (self.ev(n.a, m) << lw) | self.ev(n.b, m)
            }
            Op::Extract => self.ev(n.a, m) >> n.k as u32,
            Op::Zext => self.ev(n.a, m),
            Op::Sext => {
                let aw = self.w(n.a);
                sx(self.ev(n.a, m), aw) as u128
            }
            Op::Ite => {
                if self.ev(n.a, m) == 1 {
                    self.ev(n.b, m)
                } else {
                    self.ev(n.c, m)
                }
            }
            Op::Lin => {
                let mut s = self.lins[n.k as usize].c0;
                for i in 0..self.lins[n.k as usize].t.len() {
                    let (v, k) = self.lins[n.k as usize].t[i];
                    s = s.wrapping_add(k.wrapping_mul(self.ev(v, m) as i128));
                }
                s as u128
            }
            Op::Lut => {
                let i = self.ev(n.a, m);
                run_at(&self.luts[n.k as usize], i as u64) as u128
            }
        } & mask(w);
        self.memo[e as usize] = r;
        self.memo_gen[e as usize] = self.gen;
        r
    }

    /// Values of variable `v` (at most 8 bits wide) that make `e` true; `e`
    /// depends on nothing else.
    pub fn truth(&mut self, e: E, v: u32, vw: u32) -> Bits {
        if let Some(b) = self.tts.get(&e) {
            return *b;
        }
        let mut m = vec![0u64; v as usize + 1];
        let mut out = [0u64; 4];
        for x in 0..(1u64 << vw) {
            m[v as usize] = x;
            if self.eval(e, &m) == 1 {
                out[(x >> 6) as usize] |= 1 << (x & 63);
            }
        }
        self.tts.insert(e, out);
        out
    }
}

fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 {
        a.abs()
    } else {
        gcd(b, a % b)
    }
}
