//! The symbolic interpreter.
use crate::expr::{self, Ctx, Op, E};
use crate::ir::*;
use crate::mem::*;
use crate::pc::{Pc, Solver};
use std::collections::HashMap;
use std::rc::Rc;
use std::time::Instant;

#[derive(Debug, Clone)]
pub enum Stop {
    Done,
    Fail(String),
    Panic(String),
    Assume,
    Limit(&'static str),
    Error(String),
    Preempt,
}
type R<T> = Result<T, Stop>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Hook {
    None,
    Panic,
    HashOne,
    HashWrite,
    RandKeys,
    Unicode(u8),
}

pub struct Cfg {
    pub max_steps: u64,
    pub max_depth: u32,
    pub tier: u32,
}

pub struct Engine {
    pub x: Ctx,
    pub sol: Solver,
    pub m: Module,
    pub hooks: Vec<Hook>,
    pub globals: Vec<Option<Rc<Obj>>>,
    pub gconst: Vec<bool>,
    pub errno: u64,
    pub pending: Vec<State>,
    pub executed: Vec<bool>,
    pub forks: u64,
    pub total_steps: u64,
    pub cfg: Cfg,
    pub deadline: Instant,
    pub expired: bool,
    pub trace: bool,
    pub prof: Option<HashMap<(u32, u32, u32), u64>>,
    pub fprof: Option<Vec<u64>>,
    pub utables: HashMap<u8, Vec<(u64, u64)>>,
}

fn err<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Error(s.into()))
}

#[inline(always)]
fn m64(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
#[inline(always)]
fn s64(v: u64, w: u32) -> i64 {
    let s = 64 - w;
    ((v << s) as i64) >> s
}

fn wide(v: &Val) -> Option<u128> {
    match v {
        Val::C(c) => Some(*c as u128),
        Val::X(x) => match x.as_ref() {
            Ext::Wide(w) => Some(*w),
            _ => None,
        },
        _ => None,
    }
}

fn agg(v: Vec<Val>) -> Val {
    Val::X(Rc::new(Ext::Agg(v)))
}

const NULLV: Val = Val::C(0);

impl Engine {
    pub fn new(m: Module, sol: Solver, cfg: Cfg, deadline: Instant) -> Engine {
        let mut hooks = vec![Hook::None; m.fnames.len()];
        for (i, n) in m.fnames.iter().enumerate() {
            hooks[i] = hook_for(n);
        }
        let ng = m.gnames.len();
        let mut gconst = vec![false; ng];
        for (i, _) in m.gnames.iter().enumerate() {
            gconst[i] = m.is_const(i as u32);
        }
        let nf = m.fnames.len();
        let mut e = Engine {
            x: Ctx::new(),
            sol,
            m,
            hooks,
            globals: vec![None; ng + 1],
            gconst,
            errno: 0,
            pending: vec![],
            executed: vec![false; nf],
            forks: 0,
            total_steps: 0,
            cfg,
            deadline,
            expired: false,
            trace: false,
            prof: None,
            fprof: None,
            utables: HashMap::new(),
        };
        let _zero = e.x.k(0, 1);
        e.globals[ng] = Some(Rc::new(Obj::new(64)));
        e.errno = addr(GBASE + ng as u64);
        e
    }

    pub fn initial(&mut self, entry: u32, fname: &str) -> State {
        let idx = *self.m.findex.get(fname).unwrap_or_else(|| panic!("no entry {}", fname));
        let f = self.m.func(idx);
        let mut st = State {
            entry,
            frames: vec![],
            regs: vec![],
            sobjs: vec![],
            heap: Heap::default(),
            gov: HashMap::new(),
            pc: Pc::default(),
            draws: vec![],
            log: vec![],
            reach: 0,
            steps: 0,
            depth: 0,
            hashmode: 0,
        };
        self.sol.touch(&mut st.pc);
        self.push_frame(&mut st, f, &[], NOREG, None);
        st
    }

    fn push_frame(&mut self, st: &mut State, f: &'static Func, args: &[Val], dst: u32, normal: Option<&'static Edge>) {
        let base = st.regs.len();
        st.regs.extend_from_slice(args);
        st.regs.resize(base + f.nregs as usize, NULLV);
        st.sobjs.push(if f.frame > 0 { Some(Rc::new(Obj::new(f.frame as usize))) } else { None });
        st.frames.push(Frame { f, block: 0, ip: 0, base: base as u32, dst, normal });
        self.executed[f.idx as usize] = true;
    }

    // ---- values ----

    #[inline]
    fn ex(&mut self, v: &Val, w: u32) -> R<E> {
        match v {
            Val::C(c) => Ok(self.x.k(*c as u128, w)),
            Val::S(e) => Ok(*e),
            Val::X(x) => match x.as_ref() {
                Ext::Wide(k) => Ok(self.x.k(*k, w)),
                Ext::Agg(_) => err("aggregate used as scalar"),
            },
        }
    }
    #[inline]
    fn va(&mut self, e: E) -> Val {
        let n = self.x.node(e);
        if n.op == Op::Const {
            Val::wide(n.k, n.w)
        } else {
            Val::S(e)
        }
    }

    fn bin(&mut self, op: BinOp, w: u32, a: &Val, b: &Val) -> R<Val> {
        if w > 128 {
            return err("integers of more than 128 bits");
        }
        if w <= 64 {
            if let (Val::C(x), Val::C(y)) = (a, b) {
                let (x, y) = (*x, *y);
                let m = m64(w);
                let r = match op {
                    BinOp::Add => x.wrapping_add(y),
                    BinOp::Sub => x.wrapping_sub(y),
                    BinOp::Mul => x.wrapping_mul(y),
                    BinOp::And => x & y,
                    BinOp::Or => x | y,
                    BinOp::Xor => x ^ y,
                    BinOp::Shl => {
                        if y >= w as u64 {
                            0
                        } else {
                            x << y
                        }
                    }
                    BinOp::LShr => {
                        if y >= w as u64 {
                            0
                        } else {
                            x >> y
                        }
                    }
                    BinOp::AShr => (s64(x, w) >> y.min(w as u64 - 1)) as u64,
                    BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem if y == 0 => return err("division by zero"),
                    BinOp::UDiv => x / y,
                    BinOp::URem => x % y,
                    BinOp::SDiv => s64(x, w).wrapping_div(s64(y, w)) as u64,
                    BinOp::SRem => s64(x, w).wrapping_rem(s64(y, w)) as u64,
                };
                return Ok(Val::C(r & m));
            }
        }
        let p = self.ex(a, w)?;
        let q = self.ex(b, w)?;
        let x = &mut self.x;
        let r = match op {
            BinOp::Add => x.add(p, q),
            BinOp::Sub => x.sub(p, q),
            BinOp::Mul => x.mul(p, q),
            BinOp::And => x.and(p, q),
            BinOp::Or => x.or(p, q),
            BinOp::Xor => x.xor(p, q),
            BinOp::Shl => x.shl(p, q),
            BinOp::LShr => x.lshr(p, q),
            BinOp::AShr => x.ashr(p, q),
            BinOp::UDiv => x.udiv(p, q),
            BinOp::URem => x.urem(p, q),
            BinOp::SDiv => x.sdiv(p, q),
            BinOp::SRem => x.srem(p, q),
        };
        Ok(self.va(r))
    }

    fn icmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> R<Val> {
        if w > 128 {
            return err("integers of more than 128 bits");
        }
        if w <= 64 {
            if let (Val::C(x), Val::C(y)) = (a, b) {
                let (x, y) = (*x, *y);
                let r = match p {
                    Pred::Eq => x == y,
                    Pred::Ne => x != y,
                    Pred::Ult => x < y,
                    Pred::Ule => x <= y,
                    Pred::Ugt => x > y,
                    Pred::Uge => x >= y,
                    Pred::Slt => s64(x, w) < s64(y, w),
                    Pred::Sle => s64(x, w) <= s64(y, w),
                    Pred::Sgt => s64(x, w) > s64(y, w),
                    Pred::Sge => s64(x, w) >= s64(y, w),
                };
                return Ok(Val::C(r as u64));
            }
        }
        let e1 = self.ex(a, w)?;
        let e2 = self.ex(b, w)?;
        let x = &mut self.x;
        let r = match p {
            Pred::Eq => x.eq(e1, e2),
            Pred::Ne => x.ne(e1, e2),
            Pred::Ult => x.ult(e1, e2),
            Pred::Ule => x.ule(e1, e2),
            Pred::Ugt => x.ult(e2, e1),
            Pred::Uge => x.ule(e2, e1),
            Pred::Slt => x.slt(e1, e2),
            Pred::Sle => x.sle(e1, e2),
            Pred::Sgt => x.slt(e2, e1),
            Pred::Sge => x.sle(e2, e1),
        };
        Ok(self.va(r))
    }

    fn cast(&mut self, op: CastOp, fw: u32, tw: u32, a: &Val) -> R<Val> {
        if let CastOp::Copy = op {
            return Ok(a.clone());
        }
        if fw > 128 || tw > 128 {
            return err("integers of more than 128 bits");
        }
        if let Val::C(x) = a {
            if fw <= 64 && tw <= 64 {
                return Ok(Val::C(match op {
                    CastOp::Trunc => x & m64(tw),
                    CastOp::Zext => *x,
                    CastOp::Sext => s64(*x, fw) as u64 & m64(tw),
                    CastOp::Copy => *x,
                }));
            }
        }
        let e = self.ex(a, fw)?;
        let r = match op {
            CastOp::Trunc => self.x.trunc(e, tw),
            CastOp::Zext => self.x.zext(e, tw),
            CastOp::Sext => self.x.sext(e, tw),
            CastOp::Copy => e,
        };
        Ok(self.va(r))
    }

    fn select(&mut self, w: u32, c: &Val, a: &Val, b: &Val) -> R<Val> {
        match c {
            Val::C(1) => Ok(a.clone()),
            Val::C(_) => Ok(b.clone()),
            Val::S(e) => {
                if let (Val::X(p), Val::X(q)) = (a, b) {
                    if let (Ext::Agg(_), Ext::Agg(_)) = (p.as_ref(), q.as_ref()) {
                        return err("aggregate select");
                    }
                }
                let p = self.ex(a, w)?;
                let q = self.ex(b, w)?;
                let r = self.x.ite(*e, p, q);
                Ok(self.va(r))
            }
            Val::X(x) => match (x.as_ref(), a, b) {
                (Ext::Agg(cs), Val::X(p), Val::X(q)) => match (p.as_ref(), q.as_ref()) {
                    (Ext::Agg(p), Ext::Agg(q)) => {
                        let mut out = vec![];
                        for i in 0..cs.len() {
                            // element width from constants is unknown: only concrete masks or symbolic elements
                            let r = match &cs[i] {
                                Val::C(1) => p[i].clone(),
                                Val::C(_) => q[i].clone(),
                                _ => return err("symbolic vector select"),
                            };
                            out.push(r);
                        }
                        Ok(agg(out))
                    }
                    _ => err("vector select"),
                },
                _ => err("vector select"),
            },
        }
    }

    // ---- forking ----

    /// The other side of a decision: push a clone when it is feasible.
    fn side(&mut self, st: &State, c: E) -> Option<Pc> {
        match self.sol.may(&mut self.x, &st.pc, c) {
            None => None,
            Some((model, unsure)) => {
                let mut pc = st.pc.clone();
                pc.model = model;
                pc.unsure |= unsure;
                self.sol.touch(&mut pc);
                self.sol.add(&mut self.x, &mut pc, c);
                Some(pc)
            }
        }
    }

    fn fork(&mut self, st: &State, pc: Pc) -> State {
        self.forks += 1;
        let mut s = State {
            pc,
            entry: st.entry,
            frames: st.frames.clone(),
            regs: st.regs.clone(),
            sobjs: st.sobjs.clone(),
            heap: st.heap.clone(),
            gov: st.gov.clone(),
            draws: st.draws.clone(),
            log: st.log.clone(),
            reach: st.reach,
            steps: st.steps,
            depth: st.depth + 1,
            hashmode: st.hashmode,
        };
        s.regs.shrink_to_fit();
        s
    }

    fn note(&mut self, st: &State) {
        if let Some(p) = &mut self.prof {
            let f = st.frames.last().unwrap();
            *p.entry((f.f.idx, f.block, f.ip)).or_insert(0) += 1;
        }
    }

    /// Make a value concrete, forking for every other feasible one.  The
    /// frame's ip must be at the current instruction and nothing may have
    /// been changed yet.
    fn concretize(&mut self, st: &mut State, e: E) -> R<u64> {
        let v = self.sol.val(&mut self.x, &st.pc, e);
        let w = self.x.w(e);
        let k = self.x.k(v, w);
        let eq = self.x.eq(e, k);
        if self.x.cst(eq).is_none() {
            let ne = self.x.not(eq);
            if let Some(pc) = self.side(st, ne) {
                self.note(st);
                let s = self.fork(st, pc);
                self.pending.push(s);
            }
            self.sol.add(&mut self.x, &mut st.pc, eq);
        }
        Ok(v as u64)
    }

    fn conc(&mut self, st: &mut State, v: &Val) -> R<u64> {
        match v {
            Val::C(c) => Ok(*c),
            Val::S(e) => self.concretize(st, *e),
            Val::X(x) => match x.as_ref() {
                Ext::Wide(w) => Ok(*w as u64),
                _ => err("aggregate as integer"),
            },
        }
    }

    // ---- memory ----

    fn global(&mut self, i: u32) -> &Rc<Obj> {
        if self.globals[i as usize].is_none() {
            let b = self.m.global_bytes(i);
            self.globals[i as usize] = Some(Rc::new(Obj { data: b, sym: None }));
        }
        self.globals[i as usize].as_ref().unwrap()
    }

    #[inline]
    fn obj<'a>(&'a mut self, st: &'a State, id: u64) -> R<&'a Obj> {
        if id >= HBASE {
            match st.heap.get(id) {
                Some(o) => Ok(o),
                None => err(format!("access to dead heap object {:#x}", id)),
            }
        } else if id >= SBASE {
            match st.sobjs.get((id - SBASE) as usize) {
                Some(Some(o)) => Ok(o),
                _ => err("access to dead stack object"),
            }
        } else if id >= FBASE || id < GBASE {
            err(format!("bad pointer, object {:#x}", id))
        } else {
            let i = (id - GBASE) as u32;
            if let Some(o) = st.gov.get(&i) {
                return Ok(o);
            }
            if i as usize >= self.globals.len() {
                return err("bad pointer");
            }
            Ok(self.global(i))
        }
    }

    #[inline]
    fn obj_mut<'a>(&mut self, st: &'a mut State, id: u64) -> R<&'a mut Obj> {
        if id >= HBASE {
            match st.heap.get_mut(id) {
                Some(o) => Ok(Rc::make_mut(o)),
                None => err(format!("write to dead heap object {:#x}", id)),
            }
        } else if id >= SBASE {
            match st.sobjs.get_mut((id - SBASE) as usize) {
                Some(Some(o)) => Ok(Rc::make_mut(o)),
                _ => err("write to dead stack object"),
            }
        } else if id >= FBASE || id < GBASE {
            err(format!("bad pointer, object {:#x}", id))
        } else {
            let i = (id - GBASE) as u32;
            if !st.gov.contains_key(&i) {
                if i as usize >= self.globals.len() {
                    return err("bad pointer");
                }
                let o = self.global(i).clone();
                st.gov.insert(i, o);
            }
            Ok(Rc::make_mut(st.gov.get_mut(&i).unwrap()))
        }
    }

    #[inline(always)]
    fn split(p: u64) -> (u64, usize) {
        (p >> 32, ((p & 0xffff_ffff).wrapping_sub(BIAS)) as usize)
    }

    /// n bytes at p as a value of width w
    fn load(&mut self, st: &State, p: u64, w: u32, n: u32) -> R<Val> {
        let (id, off) = Self::split(p);
        let n = n as usize;
        let o = self.obj(st, id)?;
        if off.checked_add(n).map(|e| e > o.data.len()).unwrap_or(true) {
            return err(format!("load out of bounds: object {:#x} size {} offset {} n {}", id, o.data.len(), off as i64, n));
        }
        if !o.has_sym(off, n) {
            if n <= 8 {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&o.data[off..off + n]);
                let v = u64::from_le_bytes(b);
                return Ok(Val::C(if w < 64 { v & m64(w) } else { v }));
            }
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            return Ok(Val::wide(u128::from_le_bytes(b), w));
        }
        let bytes: Vec<(u8, E)> = (0..n).map(|i| (o.data[off + i], o.sym.as_ref().unwrap()[off + i])).collect();
        let mut acc: Option<E> = None;
        for (c, e) in bytes {
            let e = if e == 0 { self.x.k(c as u128, 8) } else { e };
            acc = Some(match acc {
                None => e,
                Some(a) => self.x.concat(e, a),
            });
        }
        let mut e = acc.unwrap();
        if self.x.w(e) > w {
            e = self.x.trunc(e, w);
        }
        Ok(self.va(e))
    }

    fn store(&mut self, st: &mut State, p: u64, v: &Val, w: u32, n: u32) -> R<()> {
        let (id, off) = Self::split(p);
        let n = n as usize;
        let mut syms: Vec<(u8, E)> = vec![];
        if let Val::S(e) = v {
            let z = self.x.zext(*e, (n * 8) as u32);
            for i in 0..n {
                let b = self.x.extract(z, (i * 8) as u32, 8);
                match self.x.cst(b) {
                    Some(k) => syms.push((k as u8, 0)),
                    None => syms.push((0, b)),
                }
            }
        }
        let _ = w;
        let o = self.obj_mut(st, id)?;
        if off.checked_add(n).map(|e| e > o.data.len()).unwrap_or(true) {
            return err(format!("store out of bounds: object {:#x} size {} offset {} n {}", id, o.data.len(), off as i64, n));
        }
        match v {
            Val::C(c) => {
                if n <= 8 {
                    o.data[off..off + n].copy_from_slice(&c.to_le_bytes()[..n]);
                } else {
                    o.data[off..off + n].copy_from_slice(&(*c as u128).to_le_bytes()[..n]);
                }
                o.clear_sym(off, n);
            }
            Val::S(_) => {
                for (i, (c, e)) in syms.into_iter().enumerate() {
                    o.set_sym(off + i, e);
                    o.data[off + i] = c;
                }
            }
            Val::X(x) => match x.as_ref() {
                Ext::Wide(k) => {
                    o.data[off..off + n].copy_from_slice(&k.to_le_bytes()[..n]);
                    o.clear_sym(off, n);
                }
                Ext::Agg(_) => return err("scalar store of aggregate"),
            },
        }
        Ok(())
    }

    fn load_t(&mut self, st: &State, p: u64, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::Double | Ty::Float => {
                let w = ty.width();
                self.load(st, p, w, (w + 7) / 8)
            }
            Ty::Vector(n, t) if **t == Ty::Int(1) => {
                let mut out = vec![];
                for i in 0..*n {
                    let b = self.load(st, p + i / 8, 8, 1)?;
                    let s = self.bin(BinOp::LShr, 8, &b, &Val::C(i % 8))?;
                    out.push(self.cast(CastOp::Trunc, 8, 1, &s)?);
                }
                Ok(agg(out))
            }
            Ty::Arr(n, t) | Ty::Vector(n, t) => {
                let mut out = vec![];
                for i in 0..*n {
                    out.push(self.load_t(st, p + i * t.size(), t)?);
                }
                Ok(agg(out))
            }
            Ty::Struct(v, _) => {
                let mut out = vec![];
                for (i, t) in v.iter().enumerate() {
                    out.push(self.load_t(st, p + ty.field_off(i), t)?);
                }
                Ok(agg(out))
            }
            _ => err("load of unsized type"),
        }
    }

    fn store_t(&mut self, st: &mut State, p: u64, v: &Val, ty: &Ty) -> R<()> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::Double | Ty::Float => {
                let w = ty.width();
                self.store(st, p, v, w, (w + 7) / 8)
            }
            Ty::Arr(..) | Ty::Vector(..) | Ty::Struct(..) => {
                let Val::X(x) = v else { return err("aggregate store of scalar") };
                let Ext::Agg(es) = x.as_ref() else { return err("aggregate store of scalar") };
                if let Ty::Vector(n, t) = ty {
                    if **t == Ty::Int(1) {
                        // packed, eight per byte
                        for k in 0..(*n + 7) / 8 {
                            let mut b = Val::C(0);
                            for i in 8 * k..(*n).min(8 * k + 8) {
                                let x = self.cast(CastOp::Zext, 1, 8, &es[i as usize])?;
                                let x = self.bin(BinOp::Shl, 8, &x, &Val::C(i % 8))?;
                                b = self.bin(BinOp::Or, 8, &b, &x)?;
                            }
                            self.store(st, p + k, &b, 8, 1)?;
                        }
                        return Ok(());
                    }
                }
                for (i, e) in es.iter().enumerate() {
                    match ty {
                        Ty::Struct(ts, _) => self.store_t(st, p + ty.field_off(i), e, &ts[i])?,
                        Ty::Arr(_, t) | Ty::Vector(_, t) => self.store_t(st, p + i as u64 * t.size(), e, t)?,
                        _ => {}
                    }
                }
                Ok(())
            }
            _ => err("store of unsized type"),
        }
    }

    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let n = n as usize;
        let (sid, soff) = Self::split(s);
        let (did, doff) = Self::split(d);
        if sid == did {
            let o = self.obj_mut(st, did)?;
            let l = o.data.len();
            if soff.saturating_add(n) > l || doff.saturating_add(n) > l {
                return err("memmove out of bounds");
            }
            o.data.copy_within(soff..soff + n, doff);
            if let Some(y) = &mut o.sym {
                y.copy_within(soff..soff + n, doff);
            }
            return Ok(());
        }
        // take a cheap handle on the source
        let (data, sym): (Vec<u8>, Option<Vec<E>>) = {
            let o = self.obj(st, sid)?;
            if soff.saturating_add(n) > o.data.len() {
                return err(format!("memcpy source out of bounds: off {} n {} size {}", soff as i64, n, o.data.len()));
            }
            let sy = if o.has_sym(soff, n) { Some(o.sym.as_ref().unwrap()[soff..soff + n].to_vec()) } else { None };
            (o.data[soff..soff + n].to_vec(), sy)
        };
        let o = self.obj_mut(st, did)?;
        if doff.saturating_add(n) > o.data.len() {
            return err(format!("memcpy target out of bounds: off {} n {} size {}", doff as i64, n, o.data.len()));
        }
        o.data[doff..doff + n].copy_from_slice(&data);
        match sym {
            Some(sy) => {
                let l = o.data.len();
                o.sym.get_or_insert_with(|| vec![0; l])[doff..doff + n].copy_from_slice(&sy);
            }
            None => o.clear_sym(doff, n),
        }
        Ok(())
    }

    fn bytes_at(&mut self, st: &State, p: u64, n: u64) -> R<Vec<Val>> {
        let (id, off) = Self::split(p);
        if n == 0 {
            return Ok(vec![]);
        }
        let n = n as usize;
        let o = self.obj(st, id)?;
        if off.saturating_add(n) > o.data.len() {
            return err("read out of bounds");
        }
        Ok((off..off + n)
            .map(|i| match &o.sym {
                Some(s) if s[i] != 0 => Val::S(s[i]),
                _ => Val::C(o.data[i] as u64),
            })
            .collect())
    }

    /// Load through a symbolic pointer: a table read when it ranges over one
    /// constant object, otherwise by cases.
    fn load_symptr(&mut self, st: &mut State, p: E, w: u32, n: u32) -> R<Val> {
        let v = self.sol.val(&mut self.x, &st.pc, p) as u64;
        let (id, _) = Self::split(v);
        if n <= 8 && id >= GBASE && id < FBASE {
            let (len, ok) = {
                let o = self.obj(st, id)?;
                (o.data.len(), o.sym.is_none())
            };
            if ok && len <= 8192 && len >= n as usize {
                let base = self.x.k(addr(id) as u128, 64);
                let off = self.x.sub(p, base);
                let lim = self.x.k((len - n as usize) as u128, 64);
                let out = self.x.ult(lim, off);
                let inside = match self.x.cst(out) {
                    Some(k) => k == 0,
                    None => self.sol.may(&mut self.x, &st.pc, out).is_none(),
                };
                if inside {
                    let t: Vec<u64> = {
                        let o = self.obj(st, id)?;
                        (0..=len - n as usize)
                            .map(|i| {
                                let mut b = [0u8; 8];
                                b[..n as usize].copy_from_slice(&o.data[i..i + n as usize]);
                                u64::from_le_bytes(b) & m64(w)
                            })
                            .collect()
                    };
                    let e = self.x.lut(t, off, w);
                    return Ok(self.va(e));
                }
            }
        }
        let a = self.concretize(st, p)?;
        self.load(st, a, w, n)
    }

    // ---- branching ----

    fn jump(st: &mut State, ed: &'static Edge) {
        let fr = st.frames.last_mut().unwrap();
        let base = fr.base as usize;
        if ed.copies.len() == 1 {
            let (d, o) = &ed.copies[0];
            let v = match o {
                Opd::R(r) => st.regs[base + *r as usize].clone(),
                Opd::K(k) => k.clone(),
            };
            st.regs[base + *d as usize] = v;
        } else if !ed.copies.is_empty() {
            let vs: Vec<Val> = ed
                .copies
                .iter()
                .map(|(_, o)| match o {
                    Opd::R(r) => st.regs[base + *r as usize].clone(),
                    Opd::K(k) => k.clone(),
                })
                .collect();
            for ((d, _), v) in ed.copies.iter().zip(vs) {
                st.regs[base + *d as usize] = v;
            }
        }
        fr.block = ed.target;
        fr.ip = 0;
    }

    // ---- main loop ----

    /// Run until the path ends.
    pub fn run(&mut self, st: &mut State) -> Stop {
        loop {
            match self.run_(st) {
                Ok(()) => {}
                Err(s) => return s,
            }
        }
    }

    fn run_(&mut self, st: &mut State) -> R<()> {
        let fr = st.frames.last().unwrap();
        let f: &'static Func = fr.f;
        let base = fr.base as usize;
        let fi = st.frames.len() - 1;
        let mut block: &'static [Inst] = &f.blocks[fr.block as usize];
        let mut ip = fr.ip as usize;
        let frame_addr = addr(SBASE + fi as u64);
        macro_rules! get {
            ($o:expr) => {
                match $o {
                    Opd::R(r) => unsafe { st.regs.get_unchecked(base + *r as usize) },
                    Opd::K(k) => k,
                }
            };
        }
        macro_rules! put {
            ($d:expr, $v:expr) => {{
                let v = $v;
                unsafe { *st.regs.get_unchecked_mut(base + $d as usize) = v };
            }};
        }
        macro_rules! sync {
            () => {
                st.frames[fi].ip = ip as u32
            };
        }
        macro_rules! jump {
            ($e:expr) => {{
                Self::jump(st, $e);
                block = &f.blocks[$e.target as usize];
                ip = 0;
                st.steps += 1;
                if st.steps & 0xfff == 0 {
                    self.total_steps += 0x1000;
                    if st.steps > self.cfg.max_steps {
                        return Err(Stop::Limit("steps"));
                    }
                    if Instant::now() > self.deadline {
                        self.expired = true;
                        return Err(Stop::Preempt);
                    }
                }
                continue;
            }};
        }
        loop {
            let inst = unsafe { block.get_unchecked(ip) };
            if let Some(p) = &mut self.fprof {
                p[f.idx as usize] += 1;
            }
            match inst {
                Inst::Alloca { dst, off } => put!(*dst, Val::C(frame_addr + *off as u64)),
                Inst::Bin { op, w, dst, a, b } => {
                    let (x, y) = (get!(a), get!(b));
                    if let (Val::C(p), Val::C(q)) = (x, y) {
                        if *w <= 64 {
                            let (p, q) = (*p, *q);
                            let r = match op {
                                BinOp::Add => p.wrapping_add(q),
                                BinOp::Sub => p.wrapping_sub(q),
                                BinOp::And => p & q,
                                BinOp::Or => p | q,
                                BinOp::Xor => p ^ q,
                                _ => {
                                    let (x, y) = (Val::C(p), Val::C(q));
                                    let r = self.bin(*op, *w, &x, &y)?;
                                    put!(*dst, r);
                                    ip += 1;
                                    continue;
                                }
                            };
                            put!(*dst, Val::C(r & m64(*w)));
                            ip += 1;
                            continue;
                        }
                    }
                    let (x, y) = (x.clone(), y.clone());
                    if let (BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem, Val::S(_)) = (op, &y) {
                        // the compiler has already branched on a zero divisor
                    }
                    let r = self.bin(*op, *w, &x, &y)?;
                    put!(*dst, r);
                }
                Inst::ICmp { p, w, dst, a, b } => {
                    let (x, y) = (get!(a), get!(b));
                    let r = match (x, y) {
                        (Val::C(_), Val::C(_)) if *w <= 64 => {
                            let (x, y) = (x.clone(), y.clone());
                            self.icmp(*p, *w, &x, &y)?
                        }
                        _ => {
                            let (x, y) = (x.clone(), y.clone());
                            self.icmp(*p, *w, &x, &y)?
                        }
                    };
                    put!(*dst, r);
                }
                Inst::Cast { op, fw, tw, dst, a } => {
                    let x = get!(a).clone();
                    let r = self.cast(*op, *fw, *tw, &x)?;
                    put!(*dst, r);
                }
                Inst::GepK { dst, base: b, off } => match get!(b) {
                    Val::C(p) => {
                        let p = p.wrapping_add(*off);
                        put!(*dst, Val::C(p))
                    }
                    v => {
                        let v = v.clone();
                        let r = self.bin(BinOp::Add, 64, &v, &Val::C(*off))?;
                        put!(*dst, r);
                    }
                },
                Inst::Gep { dst, base: b, off, terms } => {
                    let mut acc = get!(b).clone();
                    acc = self.bin(BinOp::Add, 64, &acc, &Val::C(*off))?;
                    for (o, scale, iw) in terms {
                        let mut i = get!(o).clone();
                        if *iw < 64 {
                            i = self.cast(CastOp::Sext, *iw, 64, &i)?;
                        }
                        let t = self.bin(BinOp::Mul, 64, &i, &Val::C(*scale))?;
                        acc = self.bin(BinOp::Add, 64, &acc, &t)?;
                    }
                    put!(*dst, acc);
                }
                Inst::Load { dst, ptr, w, n } => {
                    let r = match get!(ptr) {
                        Val::C(p) => {
                            let p = *p;
                            self.load(st, p, *w, *n)?
                        }
                        Val::S(e) => {
                            let e = *e;
                            sync!();
                            self.load_symptr(st, e, *w, *n)?
                        }
                        _ => return err("load pointer"),
                    };
                    put!(*dst, r);
                }
                Inst::LoadT { dst, ptr, ty } => {
                    let p = get!(ptr).clone();
                    sync!();
                    let p = self.conc(st, &p)?;
                    let r = self.load_t(st, p, ty)?;
                    put!(*dst, r);
                }
                Inst::Store { ptr, v, w, n } => {
                    let p = match get!(ptr) {
                        Val::C(p) => *p,
                        o => {
                            let o = o.clone();
                            sync!();
                            self.conc(st, &o)?
                        }
                    };
                    let v = get!(v).clone();
                    self.store(st, p, &v, *w, *n)?;
                }
                Inst::StoreT { ptr, v, ty } => {
                    let p = get!(ptr).clone();
                    sync!();
                    let p = self.conc(st, &p)?;
                    let v = get!(v).clone();
                    self.store_t(st, p, &v, ty)?;
                }
                Inst::Select { w, dst, c, a, b } => {
                    let (c, a, b) = (get!(c).clone(), get!(a).clone(), get!(b).clone());
                    let c = match (&c, &a) {
                        (Val::S(e), Val::X(_)) => {
                            // aggregates: decide the condition
                            let e = *e;
                            sync!();
                            Val::C(self.concretize(st, e)?)
                        }
                        _ => c,
                    };
                    let r = self.select(*w, &c, &a, &b)?;
                    put!(*dst, r);
                }
                Inst::Copy { dst, a } => {
                    if *dst != NOREG {
                        let v = get!(a).clone();
                        put!(*dst, v);
                    }
                }
                Inst::Br(e) => jump!(e),
                Inst::CondBr { c, t, f: fe } => match get!(c) {
                    Val::C(1) => jump!(t),
                    Val::C(_) => jump!(fe),
                    Val::S(e) => {
                        let e = *e;
                        sync!();
                        let v = self.sol.val(&mut self.x, &st.pc, e) == 1;
                        let ne = self.x.not(e);
                        let (mine, other) = if v { (e, ne) } else { (ne, e) };
                        if let Some(pc) = self.side(st, other) {
                            self.note(st);
                            let mut s = self.fork(st, pc);
                            Self::jump(&mut s, if v { fe } else { t });
                            self.pending.push(s);
                        }
                        self.sol.add(&mut self.x, &mut st.pc, mine);
                        if v {
                            jump!(t)
                        } else {
                            jump!(fe)
                        }
                    }
                    _ => return err("branch on aggregate"),
                },
                Inst::Switch { w, v, def, cases, edges } => match get!(v) {
                    Val::C(k) => {
                        let k = *k;
                        let e = match cases.iter().find(|(c, _)| *c == k) {
                            Some((_, i)) => &edges[*i as usize],
                            None => def,
                        };
                        jump!(e)
                    }
                    Val::S(e) => {
                        let e = *e;
                        sync!();
                        let cur = self.sol.val(&mut self.x, &st.pc, e) as u64;
                        // condition per edge
                        let mut conds: Vec<E> = vec![];
                        let mut any = self.x.fls();
                        for ei in 0..edges.len() {
                            let mut c = self.x.fls();
                            for (k, i) in cases {
                                if *i as usize == ei {
                                    let kk = self.x.k(*k as u128, *w);
                                    let q = self.x.eq(e, kk);
                                    c = self.x.or(c, q);
                                }
                            }
                            any = self.x.or(any, c);
                            conds.push(c);
                        }
                        let none = self.x.not(any);
                        let mine = cases.iter().find(|(c, _)| *c == cur).map(|(_, i)| *i as usize);
                        let mut mc = none;
                        for (ei, c) in conds.iter().enumerate() {
                            if Some(ei) == mine {
                                mc = *c;
                                continue;
                            }
                            if let Some(pc) = self.side(st, *c) {
                                self.note(st);
                                let mut s = self.fork(st, pc);
                                Self::jump(&mut s, &edges[ei]);
                                self.pending.push(s);
                            }
                        }
                        if mine.is_some() {
                            let dead = matches!(f.blocks[def.target as usize].first(), Some(Inst::Unreachable));
                            if !dead {
                                if let Some(pc) = self.side(st, none) {
                                    self.note(st);
                                    let mut s = self.fork(st, pc);
                                    Self::jump(&mut s, def);
                                    self.pending.push(s);
                                }
                            }
                        }
                        self.sol.add(&mut self.x, &mut st.pc, mc);
                        let ed = match mine {
                            Some(i) => &edges[i],
                            None => def,
                        };
                        jump!(ed)
                    }
                    _ => return err("switch on aggregate"),
                },
                Inst::Ret(v) => {
                    let v = v.as_ref().map(|o| get!(o).clone());
                    let fr = st.frames.pop().unwrap();
                    st.sobjs.pop();
                    st.regs.truncate(fr.base as usize);
                    match st.frames.last_mut() {
                        None => return Err(Stop::Done),
                        Some(c) => {
                            if fr.dst != NOREG {
                                if let Some(v) = v {
                                    let i = c.base as usize + fr.dst as usize;
                                    st.regs[i] = v;
                                }
                            }
                            c.ip += 1;
                            if let Some(e) = fr.normal {
                                Self::jump(st, e);
                            }
                        }
                    }
                    return Ok(());
                }
                Inst::Call { dst, w, callee, args, normal } => {
                    let mut fidx = None;
                    match callee {
                        Callee::Func(i) => fidx = Some(*i),
                        Callee::Ind(o) => {
                            let v = get!(o).clone();
                            sync!();
                            let p = self.conc(st, &v)?;
                            let (id, off) = Self::split(p);
                            if off != 0 || id < FBASE || id >= SBASE {
                                return err(format!("indirect call to {:#x}", p));
                            }
                            fidx = Some((id - FBASE) as u32);
                        }
                        _ => {}
                    }
                    if let Some(i) = fidx {
                        match self.hooks[i as usize] {
                            Hook::None => {
                                sync!();
                                let callee = self.m.func(i);
                                if st.frames.len() as u32 > self.cfg.max_depth {
                                    return Err(Stop::Limit("depth"));
                                }
                                let nb = st.regs.len();
                                st.regs.reserve(callee.nregs as usize);
                                for a in args.iter() {
                                    let v = match a {
                                        Opd::R(r) => st.regs[base + *r as usize].clone(),
                                        Opd::K(k) => k.clone(),
                                    };
                                    st.regs.push(v);
                                }
                                st.regs.resize(nb + callee.nregs as usize, NULLV);
                                st.sobjs.push(if callee.frame > 0 { Some(Rc::new(Obj::new(callee.frame as usize))) } else { None });
                                st.frames.push(Frame {
                                    f: callee,
                                    block: 0,
                                    ip: 0,
                                    base: nb as u32,
                                    dst: *dst,
                                    normal: normal.as_deref(),
                                });
                                self.executed[i as usize] = true;
                                st.steps += 1;
                                return Ok(());
                            }
                            Hook::Panic => {
                                sync!();
                                return Err(Stop::Panic(self.backtrace(st, Some(i))));
                            }
                            Hook::HashOne => {
                                // any function is a legal hash: take a constant
                                if *dst != NOREG {
                                    put!(*dst, Val::C(0x5a5a_5a5a_0000_0000));
                                }
                            }
                            Hook::HashWrite => {}
                            Hook::Unicode(t) => {
                                let v = match &args[0] {
                                    Opd::R(r) => st.regs[base + *r as usize].clone(),
                                    Opd::K(k) => k.clone(),
                                };
                                let e = match v {
                                    Val::S(e) => e,
                                    v => self.ex(&v, 32)?,
                                };
                                let runs = self.unicode(t);
                                let r = self.x.lut_runs(runs, e, 1);
                                put!(*dst, self.va(r));
                            }
                            Hook::RandKeys => {
                                put!(*dst, agg(vec![Val::C(1), Val::C(2)]));
                            }
                        }
                    } else {
                        let mut av: [Val; 4] = [NULLV, NULLV, NULLV, NULLV];
                        let mut more = vec![];
                        for (i, a) in args.iter().enumerate() {
                            if i < 4 {
                                av[i] = get!(a).clone();
                            } else {
                                more.push(get!(a).clone());
                            }
                        }
                        sync!();
                        let r = match callee {
                            Callee::Intr(k) => self.intrinsic(st, *k, *w, &av, dst)?,
                            Callee::Ext(k, n) => self.external(st, *k, n, &av)?,
                            _ => unreachable!(),
                        };
                        if *dst != NOREG {
                            if let Some(r) = r {
                                put!(*dst, r);
                            }
                        }
                    }
                    if let Some(e) = normal {
                        jump!(e);
                    }
                }
                Inst::Extract { dst, a, idx } => {
                    let mut v = get!(a).clone();
                    for i in idx {
                        v = match &v {
                            Val::X(x) => match x.as_ref() {
                                Ext::Agg(e) => e[*i as usize].clone(),
                                _ => return err("extractvalue"),
                            },
                            _ => return err("extractvalue of scalar"),
                        };
                    }
                    put!(*dst, v);
                }
                Inst::Insert { dst, a, v, idx, ty } => {
                    let a = get!(a).clone();
                    let v = get!(v).clone();
                    let r = insert(&a, &v, idx, ty)?;
                    put!(*dst, r);
                }
                Inst::Unreachable => return err("reached unreachable"),
                Inst::VBin { op, w, dst, a, b } => {
                    let (a, b) = (elems(get!(a))?, elems(get!(b))?);
                    let mut out = vec![];
                    for (p, q) in a.iter().zip(b.iter()) {
                        out.push(self.bin(*op, *w, p, q)?);
                    }
                    put!(*dst, agg(out));
                }
                Inst::VICmp { p, w, dst, a, b } => {
                    let (a, b) = (elems(get!(a))?, elems(get!(b))?);
                    let mut out = vec![];
                    for (x, y) in a.iter().zip(b.iter()) {
                        out.push(self.icmp(*p, *w, x, y)?);
                    }
                    put!(*dst, agg(out));
                }
                Inst::VCast { op, fw, tw, dst, a } => {
                    let a = elems(get!(a))?;
                    let mut out = vec![];
                    for x in a.iter() {
                        out.push(self.cast(*op, *fw, *tw, x)?);
                    }
                    put!(*dst, agg(out));
                }
                Inst::Bitcast { from, to, dst, a } => {
                    let a = get!(a).clone();
                    let r = self.bitcast(from, to, &a)?;
                    put!(*dst, r);
                }
                Inst::ExtElem { dst, a, i } => {
                    let a = elems(get!(a))?;
                    let i = get!(i).clone();
                    sync!();
                    let i = self.conc(st, &i)?;
                    put!(*dst, a[i as usize].clone());
                }
                Inst::InsElem { dst, a, v, i } => {
                    let mut a = elems(get!(a))?;
                    let i = get!(i).clone();
                    let v = get!(v).clone();
                    sync!();
                    let i = self.conc(st, &i)?;
                    a[i as usize] = v;
                    put!(*dst, agg(a));
                }
                Inst::Shuffle { dst, a, b, mask, n } => {
                    let (a, b) = (elems(get!(a))?, elems(get!(b))?);
                    let n = *n as i64;
                    let out = mask.iter().map(|i| if *i < n { a[*i as usize].clone() } else { b[(*i - n) as usize].clone() }).collect();
                    put!(*dst, agg(out));
                }
                Inst::Rmw { op, w, n, dst, ptr, v } => {
                    let p = get!(ptr).clone();
                    let v = get!(v).clone();
                    sync!();
                    let p = self.conc(st, &p)?;
                    let old = self.load(st, p, *w, *n)?;
                    let new = match op {
                        RmwOp::Xchg => v,
                        RmwOp::Add => self.bin(BinOp::Add, *w, &old, &v)?,
                        RmwOp::Sub => self.bin(BinOp::Sub, *w, &old, &v)?,
                        RmwOp::And => self.bin(BinOp::And, *w, &old, &v)?,
                        RmwOp::Or => self.bin(BinOp::Or, *w, &old, &v)?,
                        RmwOp::Xor => self.bin(BinOp::Xor, *w, &old, &v)?,
                        _ => return err("atomicrmw"),
                    };
                    self.store(st, p, &new, *w, *n)?;
                    if *dst != NOREG {
                        put!(*dst, old);
                    }
                }
                Inst::CmpXchg { w, n, dst, ptr, cmp, new } => {
                    let p = get!(ptr).clone();
                    let (cmp, new) = (get!(cmp).clone(), get!(new).clone());
                    sync!();
                    let p = self.conc(st, &p)?;
                    let old = self.load(st, p, *w, *n)?;
                    let c = self.icmp(Pred::Eq, *w, &old, &cmp)?;
                    let c = self.conc(st, &c)?;
                    if c == 1 {
                        self.store(st, p, &new, *w, *n)?;
                    }
                    if *dst != NOREG {
                        put!(*dst, agg(vec![old, Val::C(c)]));
                    }
                }
                Inst::FBin { op, dst, a, b } => {
                    let (a, b) = (get!(a).clone(), get!(b).clone());
                    sync!();
                    let (x, y) = (self.fl(st, &a)?, self.fl(st, &b)?);
                    let r = match op {
                        FOp::Add => x + y,
                        FOp::Sub => x - y,
                        FOp::Mul => x * y,
                        FOp::Div => x / y,
                        FOp::Rem => x % y,
                    };
                    put!(*dst, Val::C(r.to_bits()));
                }
                Inst::FNeg { dst, a } => {
                    let a = get!(a).clone();
                    sync!();
                    let x = self.fl(st, &a)?;
                    put!(*dst, Val::C((-x).to_bits()));
                }
                Inst::FCmp { pred, dst, a, b } => {
                    let (a, b) = (get!(a).clone(), get!(b).clone());
                    sync!();
                    let (x, y) = (self.fl(st, &a)?, self.fl(st, &b)?);
                    let un = x.is_nan() || y.is_nan();
                    let r = match pred.as_str() {
                        "oeq" => x == y,
                        "one" => !un && x != y,
                        "olt" => x < y,
                        "ole" => x <= y,
                        "ogt" => x > y,
                        "oge" => x >= y,
                        "ord" => !un,
                        "uno" => un,
                        "ueq" => un || x == y,
                        "une" => x != y,
                        "ult" => un || x < y,
                        "ule" => un || x <= y,
                        "ugt" => un || x > y,
                        "uge" => un || x >= y,
                        _ => return err("fcmp"),
                    };
                    put!(*dst, Val::C(r as u64));
                }
                Inst::FConv { kind, from, to, dst, a } => {
                    let a = get!(a).clone();
                    sync!();
                    let v = self.conc(st, &a)?;
                    let r = match (kind.as_str(), *from, *to) {
                        ("uitofp", _, 64) => (v as f64).to_bits(),
                        ("sitofp", f, 64) => (s64(v, f) as f64).to_bits(),
                        ("fptoui", 64, t) => (f64::from_bits(v) as u64) & m64(t),
                        ("fptosi", 64, t) => (f64::from_bits(v) as i64 as u64) & m64(t),
                        ("fpext", 32, 64) => (f32::from_bits(v as u32) as f64).to_bits(),
                        ("fptrunc", 64, 32) => (f64::from_bits(v) as f32).to_bits() as u64,
                        _ => return err("float conversion"),
                    };
                    put!(*dst, Val::C(r));
                }
                Inst::Unsupported(s) => return err(format!("unsupported instruction: {} in {}", s, f.name)),
            }
            ip += 1;
        }
    }

    /// Code points with a std character property, as runs.  The engine is
    /// built against the same standard library as the code it interprets.
    fn unicode(&mut self, t: u8) -> Vec<(u64, u64)> {
        let f: fn(char) -> bool = match t {
            0 => |c| c.is_alphabetic(),
            1 => |c| c.is_numeric(),
            _ => |c| c.is_whitespace(),
        };
        self.utables
            .entry(t)
            .or_insert_with(|| {
                let mut runs = vec![(0, 0)];
                for c in 0x80..0x110000u32 {
                    let v = char::from_u32(c).map(f).unwrap_or(false) as u64;
                    if runs.last().unwrap().1 != v {
                        runs.push((c as u64, v));
                    }
                }
                runs
            })
            .clone()
    }

    fn fl(&mut self, st: &mut State, v: &Val) -> R<f64> {
        Ok(f64::from_bits(self.conc(st, v)?))
    }

    fn bitcast(&mut self, from: &Ty, to: &Ty, a: &Val) -> R<Val> {
        let parts = |t: &Ty| -> (u64, u32) {
            match t {
                Ty::Vector(n, e) => (*n, e.width()),
                t => (1, t.width()),
            }
        };
        let (fn_, fw) = parts(from);
        let (tn, tw) = parts(to);
        if fn_ == 1 && tn == 1 && !matches!(from, Ty::Vector(..)) && !matches!(to, Ty::Vector(..)) {
            return Ok(a.clone());
        }
        // to one wide expression
        let total = fn_ as u32 * fw;
        if total > 128 {
            return err("bitcast wider than 128 bits");
        }
        let e = if matches!(from, Ty::Vector(..)) {
            let es = elems(a)?;
            let mut acc: Option<E> = None;
            for v in es.iter() {
                let p = self.ex(v, fw)?;
                acc = Some(match acc {
                    None => p,
                    Some(q) => self.x.concat(p, q),
                });
            }
            acc.unwrap()
        } else {
            self.ex(a, fw)?
        };
        if matches!(to, Ty::Vector(..)) {
            let mut out = vec![];
            for i in 0..tn as u32 {
                let p = self.x.extract(e, i * tw, tw);
                out.push(self.va(p));
            }
            Ok(agg(out))
        } else {
            Ok(self.va(e))
        }
    }

    pub fn backtrace(&self, st: &State, last: Option<u32>) -> String {
        let mut v: Vec<&str> = st.frames.iter().map(|f| f.f.name).collect();
        if let Some(i) = last {
            v.push(self.m.fnames[i as usize]);
        }
        v.reverse();
        v.truncate(16);
        v.join(" < ")
    }

    fn minmax(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> R<Val> {
        let c = self.icmp(p, w, a, b)?;
        self.select(w, &c, a, b)
    }

    fn intrinsic(&mut self, st: &mut State, k: Intr, w: u32, a: &[Val; 4], _dst: &u32) -> R<Option<Val>> {
        use Intr::*;
        Ok(Some(match k {
            Memcpy => {
                let d = self.conc(st, &a[0])?;
                let s = self.conc(st, &a[1])?;
                let n = self.conc(st, &a[2])?;
                self.memcpy(st, d, s, n)?;
                return Ok(None);
            }
            Memset => {
                let d = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[2])? as usize;
                if n == 0 {
                    return Ok(None);
                }
                let (id, off) = Self::split(d);
                let v = a[1].clone();
                let o = self.obj_mut(st, id)?;
                if off.saturating_add(n) > o.data.len() {
                    return err("memset out of bounds");
                }
                match v {
                    Val::C(c) => {
                        o.data[off..off + n].fill(c as u8);
                        o.clear_sym(off, n);
                    }
                    Val::S(e) => {
                        for i in 0..n {
                            o.set_sym(off + i, e);
                        }
                    }
                    _ => return err("memset"),
                }
                return Ok(None);
            }
            DivQ => {
                // divisor, high and low half of the dividend
                let d = self.cast(CastOp::Zext, 64, 128, &a[0])?;
                let h = self.cast(CastOp::Zext, 64, 128, &a[1])?;
                let l = self.cast(CastOp::Zext, 64, 128, &a[2])?;
                let h = self.bin(BinOp::Shl, 128, &h, &Val::wide(64, 128))?;
                let n = self.bin(BinOp::Or, 128, &h, &l)?;
                let fits = self.icmp(Pred::Ult, 64, &a[1], &a[0])?;
                if !matches!(fits, Val::C(1)) {
                    return err("division that may trap");
                }
                let q = self.bin(BinOp::UDiv, 128, &n, &d)?;
                let r = self.bin(BinOp::URem, 128, &n, &d)?;
                let q = self.cast(CastOp::Trunc, 128, 64, &q)?;
                let r = self.cast(CastOp::Trunc, 128, 64, &r)?;
                agg(vec![r, q])
            }
            Umax => self.minmax(Pred::Ugt, w, &a[0], &a[1])?,
            Umin => self.minmax(Pred::Ult, w, &a[0], &a[1])?,
            Smax => self.minmax(Pred::Sgt, w, &a[0], &a[1])?,
            Smin => self.minmax(Pred::Slt, w, &a[0], &a[1])?,
            UsubSat => {
                let c = self.icmp(Pred::Ugt, w, &a[0], &a[1])?;
                let d = self.bin(BinOp::Sub, w, &a[0], &a[1])?;
                self.select(w, &c, &d, &Val::wide(0, w))?
            }
            UaddSat => {
                let d = self.bin(BinOp::Add, w, &a[0], &a[1])?;
                let c = self.icmp(Pred::Ult, w, &d, &a[0])?;
                self.select(w, &c, &Val::wide(expr::mask(w), w), &d)?
            }
            SaddSat | SsubSat => {
                if w > 64 {
                    return err("wide saturating arithmetic");
                }
                let ov = self.overflow(if k == SaddSat { BinOp::Add } else { BinOp::Sub }, true, w, &a[0], &a[1])?;
                let d = self.bin(if k == SaddSat { BinOp::Add } else { BinOp::Sub }, w, &a[0], &a[1])?;
                let neg = self.icmp(Pred::Slt, w, &a[0], &Val::C(0))?;
                let min = Val::C(1u64 << (w - 1));
                let max = Val::C(m64(w) >> 1);
                let sat = self.select(w, &neg, &min, &max)?;
                self.select(w, &ov, &sat, &d)?
            }
            UaddO | UsubO | UmulO | SaddO | SsubO | SmulO => {
                let (op, s) = match k {
                    UaddO => (BinOp::Add, false),
                    UsubO => (BinOp::Sub, false),
                    UmulO => (BinOp::Mul, false),
                    SaddO => (BinOp::Add, true),
                    SsubO => (BinOp::Sub, true),
                    _ => (BinOp::Mul, true),
                };
                let r = self.bin(op, w, &a[0], &a[1])?;
                let o = self.overflow(op, s, w, &a[0], &a[1])?;
                agg(vec![r, o])
            }
            Cttz | Ctlz | Ctpop | Bitreverse | Bswap => {
                if let Some(v) = wide(&a[0]) {
                    let r: u128 = match k {
                        Cttz => (v | if w < 128 { 1u128 << w } else { 0 }).trailing_zeros() as u128,
                        Ctlz => (v.leading_zeros() - (128 - w)) as u128,
                        Ctpop => v.count_ones() as u128,
                        Bitreverse => v.reverse_bits() >> (128 - w),
                        _ => v.swap_bytes() >> (128 - w),
                    };
                    Val::wide(r, w)
                } else {
                    let e = self.ex(&a[0], w)?;
                    let r = match k {
                        Cttz => {
                            let mut acc = self.x.k(w as u128, w);
                            for i in (0..w).rev() {
                                let b = self.x.extract(e, i, 1);
                                let kk = self.x.k(i as u128, w);
                                acc = self.x.ite(b, kk, acc);
                            }
                            acc
                        }
                        Ctlz => {
                            let mut acc = self.x.k(w as u128, w);
                            for i in 0..w {
                                let b = self.x.extract(e, i, 1);
                                let kk = self.x.k((w - 1 - i) as u128, w);
                                acc = self.x.ite(b, kk, acc);
                            }
                            acc
                        }
                        Ctpop => {
                            let mut acc = self.x.k(0, w);
                            for i in 0..w {
                                let b = self.x.extract(e, i, 1);
                                let z = self.x.zext(b, w);
                                acc = self.x.add(acc, z);
                            }
                            acc
                        }
                        Bswap => {
                            let mut acc = self.x.extract(e, 0, 8);
                            for i in 1..w / 8 {
                                let b = self.x.extract(e, i * 8, 8);
                                acc = self.x.concat(acc, b);
                            }
                            acc
                        }
                        _ => {
                            let mut acc = self.x.extract(e, 0, 1);
                            for i in 1..w {
                                let b = self.x.extract(e, i, 1);
                                acc = self.x.concat(acc, b);
                            }
                            acc
                        }
                    };
                    self.va(r)
                }
            }
            Fshl | Fshr => {
                let n = self.conc(st, &a[2])? % w as u64;
                if n == 0 {
                    if k == Fshl {
                        a[0].clone()
                    } else {
                        a[1].clone()
                    }
                } else {
                    let (l, r) = if k == Fshl { (n, w as u64 - n) } else { (w as u64 - n, n) };
                    let p = self.bin(BinOp::Shl, w, &a[0], &Val::wide(l as u128, w))?;
                    let q = self.bin(BinOp::LShr, w, &a[1], &Val::wide(r as u128, w))?;
                    self.bin(BinOp::Or, w, &p, &q)?
                }
            }
            Abs => {
                let z = Val::wide(0, w);
                let c = self.icmp(Pred::Slt, w, &a[0], &z)?;
                let n = self.bin(BinOp::Sub, w, &z, &a[0])?;
                self.select(w, &c, &n, &a[0])?
            }
            Ucmp | Scmp => {
                let (lt, gt) = if k == Ucmp { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = self.icmp(lt, w, &a[0], &a[1])?;
                let g = self.icmp(gt, w, &a[0], &a[1])?;
                let r = self.select(8, &g, &Val::C(1), &Val::C(0))?;
                self.select(8, &l, &Val::C(0xff), &r)?
            }
            IsConstant => Val::C(0),
            TlsAddr | Expect => a[0].clone(),
            PtrMask => self.bin(BinOp::And, 64, &a[0], &a[1])?,
            Trap => return Err(Stop::Panic(self.backtrace(st, None))),
            AddCarry | SubBorrow => {
                // {i8 carry, iN} (i8 c, iN a, iN b)
                return self.carry(st, k, a).map(Some);
            }
            Log2 | Ceil | Floor | Fabs | Trunc => {
                let x = self.fl(st, &a[0])?;
                let r = match k {
                    Log2 => x.log2(),
                    Ceil => x.ceil(),
                    Floor => x.floor(),
                    Fabs => x.abs(),
                    _ => x.trunc(),
                };
                Val::C(r.to_bits())
            }
            Copysign => {
                let (x, y) = (self.fl(st, &a[0])?, self.fl(st, &a[1])?);
                Val::C(x.copysign(y).to_bits())
            }
            Nop => return Ok(None),
            _ => return err(format!("intrinsic {:?}", k)),
        }))
    }

    fn carry(&mut self, _st: &mut State, k: Intr, a: &[Val; 4]) -> R<Val> {
        // operand width: 64 (the only variant emitted for u64 digits)
        let w = 64;
        let c = self.cast(CastOp::Zext, 8, 65, &a[0])?;
        let zero = Val::wide(0, 65);
        let cz = self.icmp(Pred::Ne, 65, &c, &zero)?;
        let c1 = self.cast(CastOp::Zext, 1, 65, &cz)?;
        let p = self.cast(CastOp::Zext, w, 65, &a[1])?;
        let q = self.cast(CastOp::Zext, w, 65, &a[2])?;
        let op = if k == Intr::AddCarry { BinOp::Add } else { BinOp::Sub };
        let s = self.bin(op, 65, &p, &q)?;
        let s = self.bin(op, 65, &s, &c1)?;
        let r = self.cast(CastOp::Trunc, 65, 64, &s)?;
        let h = self.bin(BinOp::LShr, 65, &s, &Val::wide(64, 65))?;
        let o = self.cast(CastOp::Trunc, 65, 8, &h)?;
        Ok(agg(vec![o, r]))
    }

    fn overflow(&mut self, op: BinOp, signed: bool, w: u32, a: &Val, b: &Val) -> R<Val> {
        if w <= 64 {
            if let (Val::C(x), Val::C(y)) = (a, b) {
                let r = if signed {
                    let (x, y) = (s64(*x, w) as i128, s64(*y, w) as i128);
                    let r = match op {
                        BinOp::Add => x + y,
                        BinOp::Sub => x - y,
                        _ => x * y,
                    };
                    let lim = 1i128 << (w - 1);
                    r < -lim || r >= lim
                } else {
                    let (x, y) = (*x as i128, *y as i128);
                    match op {
                        BinOp::Add => x + y > m64(w) as i128,
                        BinOp::Sub => x < y,
                        _ => (x as u128) * (y as u128) > m64(w) as u128,
                    }
                };
                return Ok(Val::C(r as u64));
            }
        }
        if w > 63 && op == BinOp::Mul || w > 126 {
            if w > 64 {
                return err("wide overflow check");
            }
        }
        // compute exactly in a wider width
        let ww = if op == BinOp::Mul { 2 * w } else { w + 1 };
        let (p, q) = (self.ex(a, w)?, self.ex(b, w)?);
        let x = &mut self.x;
        if !signed {
            let e = match op {
                BinOp::Sub => x.ult(p, q),
                BinOp::Add => {
                    let s = x.add(p, q);
                    x.ult(s, p)
                }
                _ => {
                    if let Some(k) = x.cst(q).or(x.cst(p)) {
                        let other = if x.cst(q).is_some() { p } else { q };
                        if k == 0 {
                            x.k(0, 1)
                        } else {
                            let lim = x.k(expr::mask(w) / k, w);
                            x.ult(lim, other)
                        }
                    } else {
                        let (p, q) = (x.zext(p, ww), x.zext(q, ww));
                        let r = x.mul(p, q);
                        let m = x.k(expr::mask(w), ww);
                        x.ult(m, r)
                    }
                }
            };
            return Ok(self.va(e));
        }
        let (p, q) = (x.sext(p, ww), x.sext(q, ww));
        let r = match op {
            BinOp::Add => x.add(p, q),
            BinOp::Sub => x.sub(p, q),
            _ => x.mul(p, q),
        };
        let t = x.trunc(r, w);
        let s = x.sext(t, ww);
        let e = x.ne(r, s);
        Ok(self.va(e))
    }

    fn alloc(&mut self, st: &mut State, n: u64) -> R<Val> {
        if n > 1 << 28 {
            return Err(Stop::Limit("allocation"));
        }
        if st.heap.live > 4_000_000 {
            return Err(Stop::Limit("memory"));
        }
        let id = st.heap.alloc(Obj::new(n as usize));
        Ok(Val::C(addr(id)))
    }

    fn external(&mut self, st: &mut State, k: ExtFn, name: &str, a: &[Val; 4]) -> R<Option<Val>> {
        use ExtFn::*;
        Ok(match k {
            Malloc => {
                let n = self.conc(st, &a[0])?;
                Some(self.alloc(st, n)?)
            }
            AlignedAlloc => {
                let n = self.conc(st, &a[1])?;
                Some(self.alloc(st, n)?)
            }
            Calloc => {
                let n = self.conc(st, &a[0])?;
                let m = self.conc(st, &a[1])?;
                Some(self.alloc(st, n.saturating_mul(m))?)
            }
            PosixMemalign => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[2])?;
                let v = self.alloc(st, n)?;
                self.store(st, p, &v, 64, 8)?;
                Some(Val::C(0))
            }
            Realloc => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                if p == 0 {
                    return Ok(Some(self.alloc(st, n)?));
                }
                if n > 1 << 28 {
                    return Err(Stop::Limit("allocation"));
                }
                let (id, _) = Self::split(p);
                let o = self.obj_mut(st, id)?;
                o.data.resize(n as usize, 0);
                if let Some(s) = &mut o.sym {
                    s.resize(n as usize, 0);
                }
                Some(Val::C(p))
            }
            Free => {
                let p = self.conc(st, &a[0])?;
                if p != 0 {
                    let (id, off) = Self::split(p);
                    if off != 0 || id < HBASE || st.heap.release(id).is_none() {
                        return err("bad free");
                    }
                }
                None
            }
            Bcmp | Memcmp => {
                let p = self.conc(st, &a[0])?;
                let q = self.conc(st, &a[1])?;
                let n = self.conc(st, &a[2])?;
                let x = self.bytes_at(st, p, n)?;
                let y = self.bytes_at(st, q, n)?;
                let mut allc = true;
                let mut res = 0u64;
                for (u, v) in x.iter().zip(y.iter()) {
                    match (u, v) {
                        (Val::C(u), Val::C(v)) => {
                            if allc && u != v {
                                res = if u < v { 0xffff_ffff } else { 1 };
                                return Ok(Some(Val::C(res)));
                            }
                        }
                        _ => allc = false,
                    }
                }
                let _ = res;
                if allc {
                    return Ok(Some(Val::C(0)));
                }
                if k == Bcmp {
                    let mut acc = self.x.tru();
                    for (u, v) in x.iter().zip(y.iter()) {
                        let (u, v) = (self.ex(u, 8)?, self.ex(v, 8)?);
                        let e = self.x.eq(u, v);
                        acc = self.x.and(acc, e);
                        if self.x.cst(acc) == Some(0) {
                            break;
                        }
                    }
                    let ne = self.x.not(acc);
                    let r = self.x.zext(ne, 32);
                    Some(self.va(r))
                } else {
                    let mut acc = self.x.k(0, 32);
                    for (u, v) in x.iter().zip(y.iter()).rev() {
                        let (u, v) = (self.ex(u, 8)?, self.ex(v, 8)?);
                        let lt = self.x.ult(u, v);
                        let gt = self.x.ult(v, u);
                        let one = self.x.k(1, 32);
                        let neg = self.x.k(0xffff_ffff, 32);
                        let r = self.x.ite(gt, one, acc);
                        acc = self.x.ite(lt, neg, r);
                    }
                    Some(self.va(acc))
                }
            }
            Strlen => {
                let p = self.conc(st, &a[0])?;
                let mut n = 0;
                loop {
                    let v = self.load(st, p + n, 8, 1)?;
                    if self.conc(st, &v)? == 0 {
                        break;
                    }
                    n += 1;
                }
                Some(Val::C(n))
            }
            Memchr | Memrchr => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[2])?;
                let c = self.cast(CastOp::Trunc, 32, 8, &a[1])?;
                let b = self.bytes_at(st, p, n)?;
                let ce = self.ex(&c, 8)?;
                let mut acc = self.x.k(0, 64);
                let idx: Vec<usize> = if k == Memchr { (0..b.len()).rev().collect() } else { (0..b.len()).collect() };
                for i in idx {
                    let e = self.ex(&b[i], 8)?;
                    let q = self.x.eq(e, ce);
                    let at = self.x.k((p + i as u64) as u128, 64);
                    acc = self.x.ite(q, at, acc);
                }
                Some(self.va(acc))
            }
            Getrandom => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                for i in 0..n {
                    self.store(st, p + i, &Val::C(7), 8, 1)?;
                }
                Some(Val::C(n))
            }
            Syscall => {
                let nr = self.conc(st, &a[0])?;
                if nr == 318 {
                    let p = self.conc(st, &a[1])?;
                    let n = self.conc(st, &a[2])?;
                    for i in 0..n {
                        self.store(st, p + i, &Val::C(7), 8, 1)?;
                    }
                    Some(Val::C(n))
                } else {
                    return err(format!("syscall {}", nr));
                }
            }
            Errno => Some(Val::C(self.errno)),
            GetEnv => Some(Val::C(0)),
            Ignore => Some(Val::C(0)),
            Write => Some(a[2].clone()),
            Abort => return Err(Stop::Panic(self.backtrace(st, None))),
            SymBytes | SymSet => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                let first = st.pc.widths.len() as u32;
                let set = if k == SymSet {
                    let sp = self.conc(st, &a[2])?;
                    let sn = self.conc(st, &a[3])?;
                    let mut d = [0u64; 4];
                    let mut any = None;
                    for v in self.bytes_at(st, sp, sn)? {
                        let Val::C(c) = v else { return err("symbolic alphabet") };
                        any.get_or_insert(c);
                        d[(c >> 6) as usize] |= 1 << (c & 63);
                    }
                    Some((d, any.unwrap()))
                } else {
                    None
                };
                for i in 0..n {
                    let v = st.pc.add_var(8);
                    if let Some((d, c)) = &set {
                        st.pc.doms[v as usize] = *d;
                        st.pc.model[v as usize] = *c;
                    }
                    let e = self.x.var(v, 8);
                    self.store(st, p + i, &Val::S(e), 8, 1)?;
                }
                self.sol.touch(&mut st.pc);
                st.draws.push(Draw::Bytes(first, n as u32));
                None
            }
            SymInt => {
                let w = self.conc(st, &a[0])? as u32;
                let v = st.pc.add_var(w);
                self.sol.touch(&mut st.pc);
                st.draws.push(Draw::Int(v));
                let e = self.x.var(v, w);
                let z = self.x.zext(e, 64);
                Some(Val::S(z))
            }
            SymDigit => {
                let lo = self.conc(st, &a[0])? as u32;
                let hi = self.conc(st, &a[1])? as u32;
                if lo > hi || hi > 255 {
                    return err("sym_digit range");
                }
                let v = st.pc.add_var(8);
                let mut d = [0u64; 4];
                for c in lo..=hi {
                    d[(c >> 6) as usize] |= 1 << (c & 63);
                }
                st.pc.doms[v as usize] = d;
                st.pc.model[v as usize] = lo as u64;
                self.sol.touch(&mut st.pc);
                st.draws.push(Draw::Bytes(v, 1));
                let e = self.x.digit(v, lo, hi, 64);
                Some(Val::S(e))
            }
            SymChoice => {
                let n = self.conc(st, &a[0])?;
                if n > 256 || n == 0 {
                    return err("sym_choice range");
                }
                // fork eagerly: one state per alternative
                let v = st.pc.add_var(8);
                st.draws.push(Draw::Choice(v));
                let e = self.x.var(v, 8);
                self.sol.touch(&mut st.pc);
                st.frames.last_mut().unwrap().ip += 1;
                let (fb, dst) = {
                    let fr = st.frames.last().unwrap();
                    let Inst::Call { dst, normal, .. } = &fr.f.blocks[fr.block as usize][fr.ip as usize - 1] else { unreachable!() };
                    if normal.is_some() {
                        return err("invoke of sym_choice");
                    }
                    (fr.base, *dst)
                };
                for c in (0..n).rev() {
                    let kk = self.x.k(c as u128, 8);
                    let eq = self.x.eq(e, kk);
                    if c == 0 {
                        st.pc.model[v as usize] = 0;
                        self.sol.touch(&mut st.pc);
                        self.sol.add(&mut self.x, &mut st.pc, eq);
                    } else {
                        let mut pc = st.pc.clone();
                        pc.model[v as usize] = c;
                        self.sol.touch(&mut pc);
                        self.sol.add(&mut self.x, &mut pc, eq);
                        let mut s = self.fork(st, pc);
                        if dst != NOREG {
                            s.regs[(fb + dst) as usize] = Val::C(c);
                        }
                        self.pending.push(s);
                    }
                }
                st.frames.last_mut().unwrap().ip -= 1;
                Some(Val::C(0))
            }
            SymAssume => match &a[0] {
                Val::C(0) => return Err(Stop::Assume),
                Val::C(_) => None,
                Val::S(e) => {
                    let w = self.x.w(*e);
                    let z = self.x.k(0, w);
                    let c = self.x.ne(*e, z);
                    if self.x.cst(c) == Some(0) {
                        return Err(Stop::Assume);
                    }
                    if self.x.cst(c).is_none() {
                        if self.sol.val(&mut self.x, &st.pc, c) == 0 {
                            match self.sol.may(&mut self.x, &st.pc, c) {
                                None => return Err(Stop::Assume),
                                Some((m, u)) => {
                                    st.pc.model = m;
                                    st.pc.unsure |= u;
                                    self.sol.touch(&mut st.pc);
                                }
                            }
                        }
                        self.sol.add(&mut self.x, &mut st.pc, c);
                    }
                    None
                }
                _ => return err("assume"),
            },
            SymFail => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                let b = self.bytes_at(st, p, n)?;
                let s: Vec<u8> = b.iter().map(|v| if let Val::C(c) = v { *c as u8 } else { b'?' }).collect();
                return Err(Stop::Fail(String::from_utf8_lossy(&s).into_owned()));
            }
            SymTier => Some(Val::C(self.cfg.tier as u64)),
            SymPart => Some(Val::C(0)),
            SymLog => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                let b = self.bytes_at(st, p, n)?;
                st.log.extend(b);
                st.log.push(Val::C(0xff));
                None
            }
            SymReach => {
                let id = self.conc(st, &a[0])?;
                st.reach |= 1 << (id & 63);
                None
            }
            Other => return err(format!("external function {}", name)),
        })
    }
}

fn elems(v: &Val) -> R<Vec<Val>> {
    match v {
        Val::X(x) => match x.as_ref() {
            Ext::Agg(e) => Ok(e.clone()),
            _ => err("expected a vector"),
        },
        _ => err("expected a vector"),
    }
}

fn insert(a: &Val, v: &Val, idx: &[u32], ty: &Ty) -> R<Val> {
    if idx.is_empty() {
        return Ok(v.clone());
    }
    let mut es = match a {
        Val::X(x) => match x.as_ref() {
            Ext::Agg(e) => e.clone(),
            _ => return err("insertvalue"),
        },
        _ => match zero_val(ty) {
            Val::X(x) => match x.as_ref() {
                Ext::Agg(e) => e.clone(),
                _ => return err("insertvalue"),
            },
            _ => return err("insertvalue"),
        },
    };
    let i = idx[0] as usize;
    let sub = match ty {
        Ty::Struct(v, _) => v[i].clone(),
        Ty::Arr(_, t) | Ty::Vector(_, t) => (**t).clone(),
        _ => return err("insertvalue"),
    };
    es[i] = insert(&es[i], v, &idx[1..], &sub)?;
    Ok(agg(es))
}

pub fn hook_for(n: &str) -> Hook {
    // v0 mangling keeps path components readable
    let has = |s: &str| n.contains(s);
    if has("4core9panicking")
        || has("3std9panicking11begin_panic")
        || has("8str_index") && has("fail")
        || has("16slice_error_fail")
        || has("13expect_failed")
        || has("13unwrap_failed")
        || has("17capacity_overflow")
        || has("18handle_alloc_error")
        || n == "rust_begin_unwind"
        || n.ends_with("17rust_begin_unwind")
    {
        return Hook::Panic;
    }
    if has("8hash_one") {
        return Hook::HashOne;
    }
    if has("4hash3sip") && n.ends_with("5write") {
        return Hook::HashWrite;
    }
    if has("4core7unicode12unicode_data") && (n.contains("6lookup") || n.contains("11lookup_slow")) {
        if has("10alphabetic") {
            return Hook::Unicode(0);
        }
        if has("12unicode_data1n") {
            return Hook::Unicode(1);
        }
        if has("11white_space") {
            return Hook::Unicode(2);
        }
    }
    if has("19hashmap_random_keys") {
        return Hook::RandKeys;
    }
    Hook::None
}
