//! Parser for the subset of textual LLVM IR rustc emits.
//!
//! Functions and globals are indexed when the file is loaded and decoded on
//! first use.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone)]
pub enum Val {
    C(u64),
    S(u32),
    X(Rc<Ext>),
}

pub enum Ext {
    Wide(u128),
    Agg(Vec<Val>),
}

impl std::fmt::Debug for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Val::C(c) => write!(f, "{:#x}", c),
            Val::S(s) => write!(f, "sym{}", s),
            Val::X(x) => match x.as_ref() {
                Ext::Wide(w) => write!(f, "w{:#x}", w),
                Ext::Agg(v) => write!(f, "{:?}", v),
            },
        }
    }
}

impl Val {
    pub fn wide(v: u128, w: u32) -> Val {
        if w <= 64 {
            Val::C(v as u64)
        } else {
            Val::X(Rc::new(Ext::Wide(v)))
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Double,
    Float,
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Vector(u64, Box<Ty>),
    Opaque,
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Opaque => 0,
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                b.next_power_of_two()
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(n, t) | Ty::Vector(n, t) => {
                if let Ty::Int(1) = **t {
                    (*n + 7) / 8
                } else {
                    n * t.size()
                }
            }
            Ty::Struct(v, packed) => {
                let mut off = 0u64;
                for t in v {
                    if !packed {
                        let a = t.align();
                        off = (off + a - 1) / a * a;
                    }
                    off += t.size();
                }
                if !packed {
                    let a = self.align();
                    off = (off + a - 1) / a * a;
                }
                off
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Opaque => 1,
            Ty::Int(_) => self.size().min(16),
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vector(..) => self.size().max(1),
            Ty::Struct(v, packed) => {
                if *packed {
                    1
                } else {
                    v.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
        }
    }
    pub fn field_off(&self, idx: usize) -> u64 {
        match self {
            Ty::Struct(v, packed) => {
                let mut off = 0u64;
                for (i, t) in v.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        off = (off + a - 1) / a * a;
                    }
                    if i == idx {
                        return off;
                    }
                    off += t.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) | Ty::Vector(_, t) => t.size() * idx as u64,
            _ => panic!("field_off of {:?}", self),
        }
    }
    pub fn width(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::Double => 64,
            Ty::Float => 32,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FOp { Add, Sub, Mul, Div, Rem }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp { Trunc, Zext, Sext, Copy }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RmwOp { Xchg, Add, Sub, And, Or, Xor, Nand, Max, Min, UMax, UMin }

#[derive(Clone, Debug)]
pub struct Edge {
    pub target: u32,
    pub copies: Vec<(u32, Opd)>,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Ind(Opd),
    Ext(ExtFn, String),
    Intr(Intr),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Intr {
    Memcpy, Memset, Umax, Umin, Smax, Smin, UsubSat, UaddSat, SaddSat, SsubSat, Cttz, Ctlz, Ctpop, Bitreverse, Bswap,
    UaddO, UsubO, UmulO, SaddO, SsubO, SmulO, Fshl, Fshr, Abs, Ucmp, Scmp, IsConstant, TlsAddr, Trap,
    AddCarry, SubBorrow, Log2, Ceil, Floor, Fabs, Copysign, Expect, Nop, PtrMask, Trunc, MemEq, DivQ,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ExtFn {
    SymBytes, SymSet, SymInt, SymDigit, SymChoice, SymAssume, SymFail, SymLog, SymReach, SymTier, SymPart,
    Malloc, Calloc, Realloc, Free, PosixMemalign, AlignedAlloc, Bcmp, Memcmp, Strlen, Memchr, Memrchr, Getrandom, Syscall, Errno, Ignore, GetEnv, Abort, Write, Other,
}

fn ext_fn(n: &str) -> ExtFn {
    use ExtFn::*;
    match n {
        "sym_bytes" => SymBytes,
        "sym_set" => SymSet,
        "sym_int" => SymInt,
        "sym_digit" => SymDigit,
        "sym_choice" => SymChoice,
        "sym_assume" => SymAssume,
        "sym_fail" => SymFail,
        "sym_log" => SymLog,
        "sym_reach" => SymReach,
        "sym_tier" => SymTier,
        "sym_part" => SymPart,
        "malloc" => Malloc,
        "calloc" => Calloc,
        "realloc" => Realloc,
        "free" => Free,
        "posix_memalign" => PosixMemalign,
        "aligned_alloc" => AlignedAlloc,
        "bcmp" => Bcmp,
        "memcmp" => Memcmp,
        "strlen" => Strlen,
        "memchr" => Memchr,
        "memrchr" => Memrchr,
        "getrandom" => Getrandom,
        "syscall" => Syscall,
        "__errno_location" => Errno,
        "getenv" => GetEnv,
        "abort" => Abort,
        "write" | "writev" => Write,
        "__cxa_thread_atexit_impl" | "pthread_setspecific" | "pthread_key_create" | "pthread_key_delete" | "close" => Ignore,
        _ => Other,
    }
}

pub const NOREG: u32 = u32::MAX;

#[derive(Clone, Debug)]
pub enum Inst {
    Alloca { dst: u32, off: u32 },
    Bin { op: BinOp, w: u32, dst: u32, a: Opd, b: Opd },
    VBin { op: BinOp, w: u32, dst: u32, a: Opd, b: Opd },
    FBin { op: FOp, dst: u32, a: Opd, b: Opd },
    FNeg { dst: u32, a: Opd },
    FCmp { pred: String, dst: u32, a: Opd, b: Opd },
    FConv { kind: String, from: u32, to: u32, dst: u32, a: Opd },
    ICmp { p: Pred, w: u32, dst: u32, a: Opd, b: Opd },
    VICmp { p: Pred, w: u32, dst: u32, a: Opd, b: Opd },
    Cast { op: CastOp, fw: u32, tw: u32, dst: u32, a: Opd },
    VCast { op: CastOp, fw: u32, tw: u32, dst: u32, a: Opd },
    Bitcast { from: Ty, to: Ty, dst: u32, a: Opd },
    GepK { dst: u32, base: Opd, off: u64 },
    Gep { dst: u32, base: Opd, off: u64, terms: Vec<(Opd, u64, u32)> },
    Load { dst: u32, ptr: Opd, w: u32, n: u32 },
    LoadT { dst: u32, ptr: Opd, ty: Ty },
    Store { ptr: Opd, v: Opd, w: u32, n: u32 },
    StoreT { ptr: Opd, v: Opd, ty: Ty },
    Select { w: u32, dst: u32, c: Opd, a: Opd, b: Opd },
    Call { dst: u32, w: u32, callee: Callee, args: Vec<Opd>, normal: Option<Box<Edge>> },
    Extract { dst: u32, a: Opd, idx: Vec<u32> },
    Insert { dst: u32, a: Opd, v: Opd, idx: Vec<u32>, ty: Ty },
    ExtElem { dst: u32, a: Opd, i: Opd },
    InsElem { dst: u32, a: Opd, v: Opd, i: Opd },
    Shuffle { dst: u32, a: Opd, b: Opd, mask: Vec<i64>, n: u64 },
    Rmw { op: RmwOp, w: u32, n: u32, dst: u32, ptr: Opd, v: Opd },
    CmpXchg { w: u32, n: u32, dst: u32, ptr: Opd, cmp: Opd, new: Opd },
    Copy { dst: u32, a: Opd },
    Br(Edge),
    CondBr { c: Opd, t: Edge, f: Edge },
    Switch { w: u32, v: Opd, def: Edge, cases: Vec<(u64, u32)>, edges: Vec<Edge> },
    Ret(Option<Opd>),
    Unreachable,
    Unsupported(String),
}

pub struct Func {
    pub idx: u32,
    pub name: &'static str,
    pub nregs: u32,
    pub nparams: u32,
    pub frame: u32,
    pub blocks: Vec<Vec<Inst>>,
}

pub struct Module {
    pub text: &'static str,
    pub fnames: Vec<&'static str>,
    fspans: Vec<(usize, usize)>,
    pub findex: HashMap<&'static str, u32>,
    pub gnames: Vec<&'static str>,
    gspans: Vec<(usize, usize)>,
    pub gindex: HashMap<&'static str, u32>,
    aliases: HashMap<&'static str, &'static str>,
    fcache: Vec<Option<&'static Func>>,
    named: HashMap<&'static str, Ty>,
}

/// Address layout: object id in the upper half, biased offset in the lower.
pub const BIAS: u64 = 0x1000_0000;
pub const GBASE: u64 = 0x1;
pub const FBASE: u64 = 0x20_000;
pub const SBASE: u64 = 0x40_000;
pub const HBASE: u64 = 0x100_000;
pub fn addr(obj: u64) -> u64 {
    (obj << 32) | BIAS
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read_to_string(path).expect("read ir");
        let text: &'static str = Box::leak(text.into_boxed_str());
        let mut m = Module {
            text,
            fnames: vec![],
            fspans: vec![],
            findex: HashMap::new(),
            gnames: vec![],
            gspans: vec![],
            gindex: HashMap::new(),
            aliases: HashMap::new(),
            fcache: vec![],
            named: HashMap::new(),
        };
        let b = text.as_bytes();
        let mut pos = 0;
        while pos < b.len() {
            let eol = memchr(b'\n', &b[pos..]).map(|i| pos + i).unwrap_or(b.len());
            match b[pos..eol].first() {
                Some(b'@') => {
                    let line = &text[pos..eol];
                    let (name, rest) = parse_name(&line[1..]);
                    let body = rest.trim_start().strip_prefix("= ").unwrap_or("");
                    let words: Vec<&str> = body.split(' ').take(10).collect();
                    if words.iter().any(|w| *w == "alias") && !words.iter().any(|w| *w == "global" || *w == "constant") {
                        let at = body.rfind('@').unwrap();
                        let (t, _) = parse_name(&body[at + 1..]);
                        m.aliases.insert(name, t);
                    } else {
                        m.gindex.insert(name, m.gnames.len() as u32);
                        m.gnames.push(name);
                        m.gspans.push((pos, eol));
                    }
                }
                Some(b'%') => {
                    // named types
                    let line = &text[pos..eol];
                    let (name, rest) = parse_name(&line[1..]);
                    if let Some(t) = rest.trim_start().strip_prefix("= type ") {
                        if t.starts_with("opaque") {
                            m.named.insert(name, Ty::Opaque);
                        } else {
                            let mut c = Cur { s: t, p: 0, m: &m };
                            let t = c.ty();
                            m.named.insert(name, t);
                        }
                    }
                }
                Some(b'd') if b[pos..eol].starts_with(b"define ") => {
                    let line = &text[pos..eol];
                    let at = line.find('@').unwrap();
                    let (name, _) = parse_name(&line[at + 1..]);
                    let end = find(text, "\n}\n", eol - 1).expect("end of function");
                    m.findex.insert(name, m.fnames.len() as u32);
                    m.fnames.push(name);
                    m.fspans.push((pos, end + 1));
                    pos = end + 3;
                    continue;
                }
                _ => {}
            }
            pos = eol + 1;
        }
        m.fcache = vec![None; m.fnames.len()];
        m
    }

    pub fn resolve<'b>(&self, name: &'b str) -> &'b str
    where
        'static: 'b,
    {
        let mut n: &'b str = name;
        while let Some(t) = self.aliases.get(n) {
            n = t;
        }
        n
    }

    pub fn symbol_addr(&self, name: &str) -> u64 {
        let name = self.resolve(name);
        if let Some(i) = self.findex.get(name) {
            addr(FBASE + *i as u64)
        } else if let Some(i) = self.gindex.get(name) {
            addr(GBASE + *i as u64)
        } else {
            0 // weak externals
        }
    }

    pub fn func(&mut self, idx: u32) -> &'static Func {
        if let Some(f) = self.fcache[idx as usize] {
            return f;
        }
        let (s, e) = self.fspans[idx as usize];
        let body = &self.text[s..e];
        let f = decode_func(self, idx, self.fnames[idx as usize], body);
        let f: &'static Func = Box::leak(Box::new(f));
        self.fcache[idx as usize] = Some(f);
        f
    }

    /// Bytes of a global's initial value.
    pub fn global_bytes(&self, idx: u32) -> Vec<u8> {
        let (s, e) = self.gspans[idx as usize];
        let line = &self.text[s..e];
        let (_, rest) = parse_name(&line[1..]);
        // find " global " or " constant "
        let g = rest.find(" global ").map(|i| i + 8);
        let c = rest.find(" constant ").map(|i| i + 10);
        let p = match (g, c) {
            (Some(a), Some(b)) => a.min(b),
            (Some(a), None) => a,
            (None, Some(b)) => b,
            _ => panic!("global without initializer: {}", &line[..line.len().min(80)]),
        };
        let mut cur = Cur { s: rest, p, m: self };
        let ty = cur.ty();
        let mut out = Vec::with_capacity(ty.size() as usize);
        if rest.contains("external ") && rest[..p].contains(" external ") {
            out.resize(ty.size() as usize, 0);
            return out;
        }
        cur.ws();
        cur.const_bytes(&ty, &mut out);
        out
    }
}

fn memchr(c: u8, b: &[u8]) -> Option<usize> {
    b.iter().position(|x| *x == c)
}

fn find(text: &str, pat: &str, from: usize) -> Option<usize> {
    text[from..].find(pat).map(|i| i + from)
}

/// Parse an identifier after its sigil; returns the name and the rest.
pub fn parse_name(s: &'static str) -> (&'static str, &'static str) {
    if let Some(r) = s.strip_prefix('"') {
        let e = r.find('"').unwrap();
        (&r[..e], &r[e + 1..])
    } else {
        let e = s
            .bytes()
            .position(|c| !(c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'))
            .unwrap_or(s.len());
        (&s[..e], &s[e..])
    }
}

pub struct Cur<'m> {
    pub s: &'static str,
    pub p: usize,
    m: &'m Module,
}

fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

impl<'m> Cur<'m> {
    fn rest(&self) -> &'static str {
        &self.s[self.p..]
    }
    fn ws(&mut self) {
        let b = self.s.as_bytes();
        while self.p < b.len() && (b[self.p] == b' ' || b[self.p] == b'\n' || b[self.p] == b'\t') {
            self.p += 1;
        }
    }
    fn peek(&self) -> u8 {
        *self.s.as_bytes().get(self.p).unwrap_or(&0)
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.rest().starts_with(t) {
            self.p += t.len();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, t: &str) {
        if !self.eat(t) {
            panic!("expected {:?} at {:?} in {:?}", t, &self.rest()[..self.rest().len().min(60)], &self.s[..self.s.len().min(300)]);
        }
    }
    fn word(&mut self) -> &'static str {
        self.ws();
        let r = self.rest();
        let e = r
            .bytes()
            .position(|c| !(c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-'))
            .unwrap_or(r.len());
        self.p += e;
        &r[..e]
    }
    fn peek_word(&mut self) -> &'static str {
        let p = self.p;
        let w = self.word();
        self.p = p;
        w
    }
    fn int(&mut self) -> i128 {
        self.ws();
        let r = self.rest();
        let e = r.bytes().position(|c| !(c.is_ascii_digit() || c == b'-')).unwrap_or(r.len());
        self.p += e;
        r[..e].parse().unwrap_or_else(|_| panic!("int at {:?}", &r[..r.len().min(40)]))
    }
    fn skip_balanced(&mut self) {
        // at '('
        let b = self.s.as_bytes();
        let mut d = 0;
        loop {
            match b[self.p] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.p += 1;
                        return;
                    }
                }
                b'"' => {
                    self.p += 1;
                    while b[self.p] != b'"' {
                        self.p += 1;
                    }
                }
                _ => {}
            }
            self.p += 1;
        }
    }
    pub fn ty(&mut self) -> Ty {
        self.ws();
        let c = self.peek();
        match c {
            b'[' => {
                self.p += 1;
                let n = self.int() as u64;
                self.expect("x");
                let t = self.ty();
                self.expect("]");
                Ty::Arr(n, Box::new(t))
            }
            b'<' => {
                self.p += 1;
                if self.peek() == b'{' {
                    self.p += 1;
                    let v = self.ty_list("}");
                    self.expect(">");
                    Ty::Struct(v, true)
                } else {
                    let n = self.int() as u64;
                    self.expect("x");
                    let t = self.ty();
                    self.expect(">");
                    Ty::Vector(n, Box::new(t))
                }
            }
            b'{' => {
                self.p += 1;
                Ty::Struct(self.ty_list("}"), false)
            }
            b'%' => {
                let (n, _) = parse_name(&self.rest()[1..]);
                self.p += 1 + n.len();
                self.m.named.get(n).cloned().unwrap_or(Ty::Opaque)
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "double" => Ty::Double,
                    "float" => Ty::Float,
                    "metadata" | "label" | "token" => Ty::Opaque,
                    _ if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {:?} in {:?}", w, self.s))),
                    _ => panic!("type {:?} in {:?}", w, &self.s[..self.s.len().min(200)]),
                }
            }
        }
    }
    fn ty_list(&mut self, end: &str) -> Vec<Ty> {
        let mut v = vec![];
        if self.eat(end) {
            return v;
        }
        loop {
            v.push(self.ty());
            if self.eat(end) {
                return v;
            }
            self.expect(",");
        }
    }

    /// Skip parameter attributes.
    fn attrs(&mut self) {
        loop {
            self.ws();
            let c = self.peek();
            if !(c.is_ascii_alphabetic()) {
                return;
            }
            let save = self.p;
            let w = self.word();
            match w {
                "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "inttoptr" | "ptrtoint" | "getelementptr"
                | "splat" | "c" | "none" | "trunc" | "add" | "sub" | "blockaddress" | "metadata" | "asm" => {
                    self.p = save;
                    return;
                }
                "align" => {
                    self.ws();
                    if self.peek() == b'(' {
                        self.skip_balanced();
                    } else {
                        self.int();
                    }
                }
                _ => {
                    if w.starts_with("f0x") || w.starts_with("0x") {
                        self.p = save;
                        return;
                    }
                    if self.peek() == b'(' {
                        self.skip_balanced();
                    }
                }
            }
        }
    }

    fn const_bytes(&mut self, ty: &Ty, out: &mut Vec<u8>) {
        self.ws();
        let start = out.len();
        let size = ty.size() as usize;
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::Double | Ty::Float => {
                let v = self.const_scalar(ty);
                out.extend_from_slice(&v.to_le_bytes()[..size]);
            }
            _ => {
                if self.eat("zeroinitializer") || self.eat("undef") || self.eat("poison") {
                    out.resize(start + size, 0);
                    return;
                }
                match ty {
                    Ty::Arr(n, t) | Ty::Vector(n, t) => {
                        if self.peek() == b'c' {
                            self.p += 1;
                            self.expect("\"");
                            let b = self.s.as_bytes();
                            while b[self.p] != b'"' {
                                if b[self.p] == b'\\' {
                                    if b[self.p + 1] == b'\\' {
                                        out.push(b'\\');
                                        self.p += 2;
                                    } else {
                                        out.push(u8::from_str_radix(&self.s[self.p + 1..self.p + 3], 16).unwrap());
                                        self.p += 3;
                                    }
                                } else {
                                    out.push(b[self.p]);
                                    self.p += 1;
                                }
                            }
                            self.p += 1;
                        } else if self.eat("splat") {
                            self.expect("(");
                            let t2 = self.ty();
                            let save = self.p;
                            for _ in 0..*n {
                                self.p = save;
                                self.const_bytes(&t2, out);
                            }
                            self.expect(")");
                        } else {
                            let (open, close) = if matches!(ty, Ty::Arr(..)) { ("[", "]") } else { ("<", ">") };
                            self.expect(open);
                            for i in 0..*n {
                                if i > 0 {
                                    self.expect(",");
                                }
                                let t2 = self.ty();
                                debug_assert!(t2 == **t);
                                self.const_bytes(&t2, out);
                            }
                            self.expect(close);
                        }
                    }
                    Ty::Struct(v, packed) => {
                        if *packed {
                            self.expect("<");
                        }
                        self.expect("{");
                        for (i, t) in v.iter().enumerate() {
                            if i > 0 {
                                self.expect(",");
                            }
                            let off = ty.field_off(i) as usize;
                            out.resize(start + off, 0);
                            let _ = self.ty();
                            self.const_bytes(t, out);
                        }
                        self.expect("}");
                        if *packed {
                            self.expect(">");
                        }
                        out.resize(start + size, 0);
                    }
                    _ => panic!("const of type {:?}", ty),
                }
            }
        }
    }

    fn const_scalar(&mut self, ty: &Ty) -> u128 {
        self.ws();
        let w = ty.width();
        let c = self.peek();
        if c == b'@' {
            let (n, rest) = parse_name(&self.rest()[1..]);
            self.p = self.s.len() - rest.len();
            return self.m.symbol_addr(n) as u128;
        }
        if matches!(ty, Ty::Double | Ty::Float) {
            let wd = {
                self.ws();
                let r = self.rest();
                let e = r
                    .bytes()
                    .position(|c| !(c.is_ascii_alphanumeric() || c == b'.' || c == b'-' || c == b'+'))
                    .unwrap_or(r.len());
                self.p += e;
                &r[..e]
            };
            return fconst(wd, ty);
        }
        if c == b'-' || c.is_ascii_digit() {
            return (self.int() as u128) & mask(w);
        }
        let wd = self.word();
        match wd {
            "true" => 1,
            "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" => 0,
            "inttoptr" | "ptrtoint" | "trunc" | "zext" | "bitcast" => {
                self.expect("(");
                let t = self.ty();
                let v = self.const_scalar(&t);
                self.expect("to");
                let t2 = self.ty();
                self.expect(")");
                v & mask(t2.width())
            }
            "getelementptr" => {
                loop {
                    self.ws();
                    let s = self.p;
                    let w = self.word();
                    if w == "inbounds" || w == "nuw" || w == "nusw" {
                        continue;
                    }
                    if w == "inrange" {
                        self.ws();
                        self.skip_balanced();
                        continue;
                    }
                    self.p = s;
                    break;
                }
                self.expect("(");
                let t = self.ty();
                self.expect(",");
                let bt = self.ty();
                let base = self.const_scalar(&bt);
                let mut off: i128 = 0;
                let mut cur = t;
                let mut first = true;
                while self.eat(",") {
                    let it = self.ty();
                    let i = self.const_scalar(&it);
                    let i = sx(i, it.width());
                    if first {
                        off += i * cur.size() as i128;
                        first = false;
                    } else {
                        off += match &cur {
                            Ty::Struct(..) => cur.field_off(i as usize) as i128,
                            Ty::Arr(_, t) => i * t.size() as i128,
                            _ => panic!(),
                        };
                        cur = match cur {
                            Ty::Struct(v, _) => v[i as usize].clone(),
                            Ty::Arr(_, t) => *t,
                            _ => panic!(),
                        };
                    }
                }
                self.expect(")");
                ((base as i128 + off) as u128) & mask(64)
            }
            "add" | "sub" | "xor" => {
                loop {
                    self.ws();
                    let s = self.p;
                    let w = self.word();
                    if w == "nuw" || w == "nsw" {
                        continue;
                    }
                    self.p = s;
                    break;
                }
                self.expect("(");
                let t = self.ty();
                let a = self.const_scalar(&t);
                self.expect(",");
                let t = self.ty();
                let b = self.const_scalar(&t);
                self.expect(")");
                (match wd {
                    "add" => a.wrapping_add(b),
                    "sub" => a.wrapping_sub(b),
                    _ => a ^ b,
                }) & mask(w)
            }
            _ => panic!("constant {:?} in {:?}", wd, &self.s[..self.s.len().min(300)]),
        }
    }

    fn const_val(&mut self, ty: &Ty) -> Val {
        self.ws();
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::Double | Ty::Float => {
                let v = self.const_scalar(ty);
                Val::wide(v, ty.width())
            }
            Ty::Void | Ty::Opaque => Val::C(0),
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vector(..) => {
                if self.eat("zeroinitializer") || self.eat("undef") || self.eat("poison") {
                    return zero_val(ty);
                }
                match ty {
                    Ty::Vector(n, _) | Ty::Arr(n, _) => {
                        if self.eat("splat") {
                            self.expect("(");
                            let t2 = self.ty();
                            let v = self.const_val(&t2);
                            self.expect(")");
                            return Val::X(Rc::new(Ext::Agg(vec![v; *n as usize])));
                        }
                        if self.peek() == b'c' {
                            let mut b = vec![];
                            self.const_bytes(ty, &mut b);
                            return Val::X(Rc::new(Ext::Agg(b.into_iter().map(|c| Val::C(c as u64)).collect())));
                        }
                        let (open, close) = if matches!(ty, Ty::Arr(..)) { ("[", "]") } else { ("<", ">") };
                        self.expect(open);
                        let mut v = vec![];
                        for i in 0..*n {
                            if i > 0 {
                                self.expect(",");
                            }
                            let t2 = self.ty();
                            v.push(self.const_val(&t2));
                        }
                        self.expect(close);
                        Val::X(Rc::new(Ext::Agg(v)))
                    }
                    Ty::Struct(ts, packed) => {
                        if *packed {
                            self.expect("<");
                        }
                        self.expect("{");
                        let mut v = vec![];
                        for (i, _) in ts.iter().enumerate() {
                            if i > 0 {
                                self.expect(",");
                            }
                            let t2 = self.ty();
                            v.push(self.const_val(&t2));
                        }
                        self.expect("}");
                        if *packed {
                            self.expect(">");
                        }
                        Val::X(Rc::new(Ext::Agg(v)))
                    }
                    _ => unreachable!(),
                }
            }
        }
    }
}

fn fconst(wd: &str, ty: &Ty) -> u128 {
    if let Some(h) = wd.strip_prefix("f0x").or_else(|| wd.strip_prefix("0x")) {
        let v = u64::from_str_radix(h, 16).unwrap();
        return v as u128;
    }
    if wd == "undef" || wd == "poison" || wd == "zeroinitializer" {
        return 0;
    }
    if wd.ends_with("inf") {
        let v = if wd.starts_with('-') { f64::NEG_INFINITY } else { f64::INFINITY };
        return if *ty == Ty::Double { v.to_bits() as u128 } else { (v as f32).to_bits() as u128 };
    }
    if wd.ends_with("qnan") {
        let (s, b) = if *ty == Ty::Double { (63, 0x7ff8_0000_0000_0000u128) } else { (31, 0x7fc0_0000) };
        return b | (wd.starts_with('-') as u128) << s;
    }
    let v: f64 = wd.parse().unwrap_or_else(|_| panic!("float {:?}", wd));
    match ty {
        Ty::Double => v.to_bits() as u128,
        _ => (v as f32).to_bits() as u128,
    }
}

pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else if v >> (w - 1) & 1 == 1 {
        (v | !mask(w)) as i128
    } else {
        v as i128
    }
}

pub fn zero_val(ty: &Ty) -> Val {
    match ty {
        Ty::Int(w) if *w > 64 => Val::wide(0, *w),
        Ty::Int(_) | Ty::Ptr | Ty::Double | Ty::Float | Ty::Void | Ty::Opaque => Val::C(0),
        Ty::Arr(n, t) | Ty::Vector(n, t) => Val::X(Rc::new(Ext::Agg(vec![zero_val(t); *n as usize]))),
        Ty::Struct(v, _) => Val::X(Rc::new(Ext::Agg(v.iter().map(zero_val).collect()))),
    }
}

struct Dec<'m> {
    m: &'m Module,
    regs: HashMap<&'static str, u32>,
    blocks: HashMap<&'static str, u32>,
    frame: u64,
}

impl<'m> Dec<'m> {
    fn reg(&mut self, n: &'static str) -> u32 {
        let l = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(l)
    }
    fn cur(&self, s: &'static str) -> Cur<'m> {
        Cur { s, p: 0, m: self.m }
    }
    fn opd(&mut self, c: &mut Cur<'m>, ty: &Ty) -> Opd {
        c.ws();
        if c.peek() == b'%' {
            let (n, rest) = parse_name(&c.rest()[1..]);
            c.p = c.s.len() - rest.len();
            Opd::R(self.reg(n))
        } else {
            Opd::K(c.const_val(ty))
        }
    }
    fn topd(&mut self, c: &mut Cur<'m>) -> (Ty, Opd) {
        let t = c.ty();
        c.attrs();
        let o = self.opd(c, &t);
        (t, o)
    }
    fn label(&mut self, c: &mut Cur<'m>) -> &'static str {
        c.expect("label");
        c.expect("%");
        let (n, rest) = parse_name(c.rest());
        c.p = c.s.len() - rest.len();
        n
    }
}

fn intrinsic(n: &str) -> Option<Intr> {
    let r = n.strip_prefix("llvm.")?;
    use Intr::*;
    let t = [
        ("memcpy.", Memcpy), ("memmove.", Memcpy), ("memset.", Memset),
        ("umax.", Umax), ("umin.", Umin), ("smax.", Smax), ("smin.", Smin),
        ("usub.sat.", UsubSat), ("uadd.sat.", UaddSat), ("sadd.sat.", SaddSat), ("ssub.sat.", SsubSat),
        ("cttz.", Cttz), ("ctlz.", Ctlz), ("ctpop.", Ctpop), ("bitreverse.", Bitreverse), ("bswap.", Bswap),
        ("uadd.with", UaddO), ("usub.with", UsubO), ("umul.with", UmulO),
        ("sadd.with", SaddO), ("ssub.with", SsubO), ("smul.with", SmulO),
        ("fshl.", Fshl), ("fshr.", Fshr), ("abs.", Abs), ("ucmp.", Ucmp), ("scmp.", Scmp),
        ("is.constant", IsConstant), ("threadlocal.address", TlsAddr), ("trap", Trap), ("ubsantrap", Trap),
        ("x86.addcarry", AddCarry), ("x86.subborrow", SubBorrow), ("log2.", Log2), ("ceil.", Ceil), ("floor.", Floor),
        ("fabs.", Fabs), ("copysign.", Copysign), ("expect.", Expect), ("ptrmask.", PtrMask), ("trunc.", Trunc),
        ("lifetime", Nop), ("assume", Nop), ("experimental.noalias", Nop), ("dbg.", Nop), ("x86.sse2.pause", Nop), ("prefetch", Nop),
        ("donothing", Nop), ("sideeffect", Nop), ("invariant", Nop),
    ];
    for (p, i) in t {
        if r.starts_with(p) {
            return Some(i);
        }
    }
    None
}

fn decode_func(m: &Module, idx: u32, name: &'static str, body: &'static str) -> Func {
    let mut d = Dec { m, regs: HashMap::new(), blocks: HashMap::new(), frame: 0 };
    let eol = body.find('\n').unwrap();
    let head = &body[..eol];
    // parameters
    let at = head.find('@').unwrap();
    let (_, rest) = parse_name(&head[at + 1..]);
    let mut c = d.cur(head);
    c.p = head.len() - rest.len();
    c.expect("(");
    let mut nparams = 0;
    if !c.eat(")") {
        loop {
            if c.eat("...") {
                c.expect(")");
                break;
            }
            let _ = c.ty();
            c.attrs();
            c.ws();
            assert!(c.peek() == b'%', "param name in {}", head);
            let (n, rest) = parse_name(&c.rest()[1..]);
            c.p = c.s.len() - rest.len();
            d.reg(n);
            nparams += 1;
            if c.eat(")") {
                break;
            }
            c.expect(",");
        }
    }
    // split into blocks of logical lines
    let mut raw: Vec<(&'static str, Vec<&'static str>)> = vec![];
    let text = &body[eol + 1..];
    let mut pos = 0;
    let tb = text.as_bytes();
    while pos < text.len() {
        let mut e = find(text, "\n", pos).unwrap_or(text.len());
        let line = &text[pos..e];
        let t = line.trim();
        if t.is_empty() || t.starts_with(';') || t.starts_with('}') || t.starts_with("#dbg") {
            pos = e + 1;
            continue;
        }
        if !line.starts_with(' ') {
            // label
            let n = if let Some(r) = t.strip_prefix('"') {
                &r[..r.find('"').unwrap()]
            } else {
                &t[..t.find(':').unwrap()]
            };
            d.blocks.insert(n, raw.len() as u32);
            raw.push((n, vec![]));
            pos = e + 1;
            continue;
        }
        if raw.is_empty() {
            d.blocks.insert("%entry", 0);
            raw.push(("%entry", vec![]));
        }
        // multi-line: switch [ ... ], invoke ... to, landingpad clauses
        if t.starts_with("switch ") && t.ends_with('[') {
            let e2 = find(text, "\n  ]", e).unwrap();
            e = find(text, "\n", e2 + 1).unwrap_or(text.len());
        } else if t.starts_with("invoke ") || t.contains("= invoke ") {
            e = find(text, "\n", e + 1).unwrap_or(text.len());
        }
        let full = text[pos..e].trim();
        raw.last_mut().unwrap().1.push(full);
        pos = e + 1;
        let _ = tb;
    }
    // implicit entry label number: LLVM numbers an unnamed entry block after
    // the parameters; phis refer to it as %N.
    if let Some((n, _)) = raw.first() {
        if *n == "%entry" {
            let s: &'static str = Box::leak(nparams.to_string().into_boxed_str());
            d.blocks.entry(s).or_insert(0);
        }
    }
    // first pass: phis per block
    let mut phis: Vec<Vec<(u32, Vec<(u32, Opd)>)>> = vec![vec![]; raw.len()];
    for (bi, (_, lines)) in raw.iter().enumerate() {
        for l in lines {
            let Some(p) = l.find(" = phi ") else { break };
            if !l.starts_with('%') {
                break;
            }
            let (n, _) = parse_name(&l[1..]);
            let dst = d.reg(n);
            let mut c = d.cur(l);
            c.p = p + 7;
            // fast-math flags
            loop {
                let w = c.peek_word();
                if ["nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"].contains(&w) {
                    c.word();
                } else {
                    break;
                }
            }
            let ty = c.ty();
            let mut inc = vec![];
            loop {
                c.expect("[");
                let o = d.opd(&mut c, &ty);
                c.expect(",");
                c.expect("%");
                let (n, rest) = parse_name(c.rest());
                c.p = c.s.len() - rest.len();
                c.expect("]");
                let pb = *d.blocks.get(n).unwrap_or_else(|| panic!("phi block {} in {}", n, name));
                inc.push((pb, o));
                let save = c.p;
                if c.eat(",") {
                    c.ws();
                    if c.peek() == b'[' {
                        continue;
                    }
                    c.p = save;
                }
                break;
            }
            phis[bi].push((dst, inc));
        }
    }
    let mut blocks = vec![];
    for (bi, (_, lines)) in raw.iter().enumerate() {
        let mut out = vec![];
        for l in lines {
            if l.starts_with('%') && l.contains(" = phi ") {
                continue;
            }
            decode_inst(&mut d, bi as u32, l, &phis, &mut out);
        }
        blocks.push(out);
    }
    Func { idx, name, nregs: d.regs.len() as u32, nparams, frame: d.frame as u32, blocks }
}

fn edge(d: &Dec, from: u32, to: &str, phis: &[Vec<(u32, Vec<(u32, Opd)>)>]) -> Edge {
    let t = *d.blocks.get(to).unwrap_or_else(|| panic!("label {}", to));
    let mut copies = vec![];
    for (dst, inc) in &phis[t as usize] {
        let o = inc.iter().find(|(b, _)| *b == from).map(|(_, o)| o.clone()).expect("phi edge");
        copies.push((*dst, o));
    }
    Edge { target: t, copies }
}

fn decode_inst(d: &mut Dec<'_>, bi: u32, l: &'static str, phis: &[Vec<(u32, Vec<(u32, Opd)>)>], out: &mut Vec<Inst>) {
    let mut dst = NOREG;
    let mut c = d.cur(l);
    if l.starts_with('%') {
        let (n, rest) = parse_name(&l[1..]);
        dst = d.reg(n);
        c.p = l.len() - rest.len();
        c.expect("=");
    }
    let mut op = c.word();
    while op == "tail" || op == "notail" || op == "musttail" {
        op = c.word();
    }
    let flags = |c: &mut Cur<'_>| loop {
        let w = c.peek_word();
        if ["nuw", "nsw", "exact", "disjoint", "nneg", "samesign", "inbounds", "nusw", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast", "volatile", "atomic", "weak"].contains(&w) {
            c.word();
        } else {
            break;
        }
    };
    use BinOp::*;
    let bin = match op {
        "add" => Some(Add), "sub" => Some(Sub), "mul" => Some(Mul), "udiv" => Some(UDiv), "sdiv" => Some(SDiv),
        "urem" => Some(URem), "srem" => Some(SRem), "and" => Some(And), "or" => Some(Or), "xor" => Some(Xor),
        "shl" => Some(Shl), "lshr" => Some(LShr), "ashr" => Some(AShr),
        _ => None,
    };
    if let Some(bop) = bin {
        flags(&mut c);
        let ty = c.ty();
        let a = d.opd(&mut c, &ty);
        c.expect(",");
        let b = d.opd(&mut c, &ty);
        match &ty {
            Ty::Vector(_, t) => out.push(Inst::VBin { op: bop, w: t.width(), dst, a, b }),
            _ => out.push(Inst::Bin { op: bop, w: ty.width(), dst, a, b }),
        }
        return;
    }
    match op {
        "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
            flags(&mut c);
            let ty = c.ty();
            let a = d.opd(&mut c, &ty);
            c.expect(",");
            let b = d.opd(&mut c, &ty);
            let o = match op { "fadd" => FOp::Add, "fsub" => FOp::Sub, "fmul" => FOp::Mul, "fdiv" => FOp::Div, _ => FOp::Rem };
            if ty == Ty::Double {
                out.push(Inst::FBin { op: o, dst, a, b });
            } else {
                out.push(Inst::Unsupported(l.to_string()));
            }
        }
        "fneg" => {
            flags(&mut c);
            let ty = c.ty();
            let a = d.opd(&mut c, &ty);
            if ty == Ty::Double {
                out.push(Inst::FNeg { dst, a });
            } else {
                out.push(Inst::Unsupported(l.to_string()));
            }
        }
        "fcmp" => {
            flags(&mut c);
            let p = c.word();
            let ty = c.ty();
            let a = d.opd(&mut c, &ty);
            c.expect(",");
            let b = d.opd(&mut c, &ty);
            if ty == Ty::Double {
                out.push(Inst::FCmp { pred: p.to_string(), dst, a, b });
            } else {
                out.push(Inst::Unsupported(l.to_string()));
            }
        }
        "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" => {
            flags(&mut c);
            let ty = c.ty();
            let a = d.opd(&mut c, &ty);
            c.expect("to");
            let t2 = c.ty();
            out.push(Inst::FConv { kind: op.to_string(), from: ty.width(), to: t2.width(), dst, a });
        }
        "icmp" => {
            flags(&mut c);
            let p = match c.word() {
                "eq" => Pred::Eq, "ne" => Pred::Ne, "ult" => Pred::Ult, "ule" => Pred::Ule, "ugt" => Pred::Ugt, "uge" => Pred::Uge,
                "slt" => Pred::Slt, "sle" => Pred::Sle, "sgt" => Pred::Sgt, "sge" => Pred::Sge,
                x => panic!("icmp {}", x),
            };
            let ty = c.ty();
            let a = d.opd(&mut c, &ty);
            c.expect(",");
            let b = d.opd(&mut c, &ty);
            match &ty {
                Ty::Vector(_, t) => out.push(Inst::VICmp { p, w: t.width(), dst, a, b }),
                _ => out.push(Inst::ICmp { p, w: ty.width(), dst, a, b }),
            }
        }
        "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
            flags(&mut c);
            let ty = c.ty();
            let a = d.opd(&mut c, &ty);
            c.expect("to");
            let t2 = c.ty();
            if let (Ty::Vector(_, f), Ty::Vector(_, t)) = (&ty, &t2) {
                let o = match op { "trunc" => CastOp::Trunc, "sext" => CastOp::Sext, _ => CastOp::Zext };
                out.push(Inst::VCast { op: o, fw: f.width(), tw: t.width(), dst, a });
                return;
            }
            let (fw, tw) = (ty.width(), t2.width());
            let o = match op {
                "trunc" => CastOp::Trunc,
                "zext" => CastOp::Zext,
                "sext" => CastOp::Sext,
                _ => {
                    if fw == tw { CastOp::Copy } else if fw < tw { CastOp::Zext } else { CastOp::Trunc }
                }
            };
            out.push(Inst::Cast { op: o, fw, tw, dst, a });
        }
        "bitcast" => {
            let ty = c.ty();
            let a = d.opd(&mut c, &ty);
            c.expect("to");
            let t2 = c.ty();
            out.push(Inst::Bitcast { from: ty, to: t2, dst, a });
        }
        "freeze" => {
            let ty = c.ty();
            let a = d.opd(&mut c, &ty);
            out.push(Inst::Copy { dst, a });
        }
        "alloca" => {
            let ty = c.ty();
            let mut align = ty.align();
            let mut n = 1;
            while c.eat(",") {
                let w = c.peek_word();
                if w == "align" {
                    c.word();
                    align = c.int() as u64;
                } else if w.starts_with('i') {
                    let t = c.ty();
                    match d.opd(&mut c, &t) {
                        Opd::K(Val::C(k)) => n = k,
                        _ => {
                            out.push(Inst::Unsupported(l.to_string()));
                            return;
                        }
                    }
                } else {
                    break;
                }
            }
            let align = align.max(1);
            let off = (d.frame + align - 1) / align * align;
            d.frame = off + ty.size() * n + 8;
            out.push(Inst::Alloca { dst, off: off as u32 });
        }
        "getelementptr" => {
            flags(&mut c);
            let ty = c.ty();
            c.expect(",");
            let (_, base) = d.topd(&mut c);
            let mut off: u64 = 0;
            let mut terms = vec![];
            let mut cur = ty;
            let mut first = true;
            loop {
                let save = c.p;
                if !c.eat(",") {
                    break;
                }
                c.ws();
                if c.peek() == b'!' {
                    c.p = save;
                    break;
                }
                let (it, io) = d.topd(&mut c);
                let scale;
                if first {
                    scale = cur.size();
                    first = false;
                } else {
                    match cur.clone() {
                        Ty::Struct(v, _) => {
                            let Opd::K(Val::C(k)) = io else { panic!() };
                            off = off.wrapping_add(cur.field_off(k as usize));
                            cur = v[k as usize].clone();
                            continue;
                        }
                        Ty::Arr(_, t) | Ty::Vector(_, t) => {
                            scale = t.size();
                            cur = *t;
                        }
                        x => panic!("gep into {:?}", x),
                    }
                }
                match io {
                    Opd::K(Val::C(k)) => off = off.wrapping_add((sx(k as u128, it.width()) as i64 as u64).wrapping_mul(scale)),
                    Opd::R(_) => terms.push((io, scale, it.width())),
                    _ => panic!(),
                }
            }
            if terms.is_empty() {
                out.push(Inst::GepK { dst, base, off });
            } else {
                out.push(Inst::Gep { dst, base, off, terms });
            }
        }
        "load" => {
            flags(&mut c);
            let ty = c.ty();
            c.expect(",");
            let (_, ptr) = d.topd(&mut c);
            match ty {
                Ty::Int(_) | Ty::Ptr | Ty::Double | Ty::Float => out.push(Inst::Load { dst, ptr, w: ty.width(), n: ((ty.width() + 7) / 8) }),
                _ => out.push(Inst::LoadT { dst, ptr, ty }),
            }
        }
        "store" => {
            flags(&mut c);
            let (ty, v) = d.topd(&mut c);
            c.expect(",");
            let (_, ptr) = d.topd(&mut c);
            match ty {
                Ty::Int(_) | Ty::Ptr | Ty::Double | Ty::Float => out.push(Inst::Store { ptr, v, w: ty.width(), n: ((ty.width() + 7) / 8) }),
                _ => out.push(Inst::StoreT { ptr, v, ty }),
            }
        }
        "select" => {
            flags(&mut c);
            let (_, cc) = d.topd(&mut c);
            c.expect(",");
            let (t, a) = d.topd(&mut c);
            c.expect(",");
            let (_, b) = d.topd(&mut c);
            out.push(Inst::Select { w: t.width(), dst, c: cc, a, b });
        }
        "call" | "invoke" => {
            // calling convention, return attributes
            loop {
                c.ws();
                let save = c.p;
                let w = c.word();
                if ["fastcc", "coldcc", "ccc", "noundef", "nonnull", "zeroext", "signext", "noalias", "inreg", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast", "preserve_mostcc", "preserve_allcc", "cc"].contains(&w) {
                    continue;
                }
                if ["range", "dereferenceable", "dereferenceable_or_null", "nofpclass"].contains(&w) {
                    c.ws();
                    c.skip_balanced();
                    continue;
                }
                if w == "align" {
                    c.int();
                    continue;
                }
                c.p = save;
                break;
            }
            let ty = c.ty();
            c.ws();
            if c.peek() == b'(' {
                c.skip_balanced(); // varargs function type
                c.ws();
            }
            let callee;
            if c.peek_word() == "asm" {
                out.push(Inst::Copy { dst: NOREG, a: Opd::K(Val::C(0)) });
                if dst == NOREG {
                    return;
                }
                // the one instruction with a result: 128 by 64 bit division
                let k = "\"div ${2:q}\", \"=&{dx},=&{ax},r,0,1,~{dirflag},~{fpsr},~{flags}\"(";
                match l.find(k) {
                    Some(p) => c.p = p + k.len() - 1,
                    None => {
                        out.push(Inst::Unsupported(l.to_string()));
                        return;
                    }
                }
                callee = Callee::Intr(Intr::DivQ);
            } else if c.peek() == b'@' {
                let (n, rest) = parse_name(&c.rest()[1..]);
                c.p = c.s.len() - rest.len();
                let n = d.m.resolve(n);
                if let Some(i) = intrinsic(n) {
                    if i == Intr::Nop {
                        return;
                    }
                    callee = Callee::Intr(i);
                } else if let Some(i) = d.m.findex.get(n) {
                    callee = Callee::Func(*i);
                } else {
                    callee = Callee::Ext(ext_fn(n), n.to_string());
                }
            } else {
                callee = Callee::Ind(d.opd(&mut c, &Ty::Ptr));
            }
            c.expect("(");
            let mut args = vec![];
            let mut awidth = 0;
            if !c.eat(")") {
                loop {
                    c.ws();
                    if c.rest().starts_with("metadata") {
                        return; // dbg-like intrinsic
                    }
                    let (t, o) = d.topd(&mut c);
                    if args.is_empty() {
                        awidth = t.width();
                    }
                    args.push(o);
                    if c.eat(")") {
                        break;
                    }
                    c.expect(",");
                }
            }
            let mut normal = None;
            if op == "invoke" {
                let p = l.rfind("to label ").unwrap();
                let mut c2 = d.cur(l);
                c2.p = p + 2;
                let lab = d.label(&mut c2);
                normal = Some(Box::new(edge(d, bi, lab, phis)));
            }
            let w = match (&callee, &ty) {
                (Callee::Intr(_), Ty::Struct(..)) => awidth,
                (Callee::Intr(Intr::Ucmp), _) | (Callee::Intr(Intr::Scmp), _) => awidth,
                (Callee::Intr(_), Ty::Vector(..)) => {
                    out.push(Inst::Unsupported(l.to_string()));
                    return;
                }
                _ => ty.width(),
            };
            out.push(Inst::Call { dst, w, callee, args, normal });
        }
        "extractvalue" => {
            let (_, a) = d.topd(&mut c);
            let mut idx = vec![];
            loop {
                let save = c.p;
                if !c.eat(",") {
                    break;
                }
                c.ws();
                if c.peek() == b'!' {
                    c.p = save;
                    break;
                }
                idx.push(c.int() as u32);
            }
            out.push(Inst::Extract { dst, a, idx });
        }
        "insertvalue" => {
            let (ty, a) = d.topd(&mut c);
            c.expect(",");
            let (_, v) = d.topd(&mut c);
            let mut idx = vec![];
            while c.eat(",") {
                c.ws();
                if c.peek() == b'!' {
                    break;
                }
                idx.push(c.int() as u32);
            }
            out.push(Inst::Insert { dst, a, v, idx, ty });
        }
        "extractelement" => {
            let (_, a) = d.topd(&mut c);
            c.expect(",");
            let (_, i) = d.topd(&mut c);
            out.push(Inst::ExtElem { dst, a, i });
        }
        "insertelement" => {
            let (_, a) = d.topd(&mut c);
            c.expect(",");
            let (_, v) = d.topd(&mut c);
            c.expect(",");
            let (_, i) = d.topd(&mut c);
            out.push(Inst::InsElem { dst, a, v, i });
        }
        "shufflevector" => {
            let (ty, a) = d.topd(&mut c);
            c.expect(",");
            let (_, b) = d.topd(&mut c);
            c.expect(",");
            let (_, mk) = d.topd(&mut c);
            let n = if let Ty::Vector(n, _) = ty { n } else { 0 };
            let mut mask = vec![];
            if let Opd::K(Val::X(x)) = &mk {
                if let Ext::Agg(v) = x.as_ref() {
                    for e in v {
                        if let Val::C(k) = e {
                            mask.push(*k as i64);
                        }
                    }
                }
            }
            out.push(Inst::Shuffle { dst, a, b, mask, n });
        }
        "atomicrmw" => {
            flags(&mut c);
            let o = match c.word() {
                "xchg" => RmwOp::Xchg, "add" => RmwOp::Add, "sub" => RmwOp::Sub, "and" => RmwOp::And, "or" => RmwOp::Or, "xor" => RmwOp::Xor,
                "nand" => RmwOp::Nand, "max" => RmwOp::Max, "min" => RmwOp::Min, "umax" => RmwOp::UMax, "umin" => RmwOp::UMin,
                x => panic!("rmw {}", x),
            };
            let (_, ptr) = d.topd(&mut c);
            c.expect(",");
            let t = c.ty();
            let v = d.opd(&mut c, &t);
            out.push(Inst::Rmw { op: o, w: t.width(), n: (t.width() + 7) / 8, dst, ptr, v });
        }
        "cmpxchg" => {
            flags(&mut c);
            let (_, ptr) = d.topd(&mut c);
            c.expect(",");
            let t = c.ty();
            let cmp = d.opd(&mut c, &t);
            c.expect(",");
            let t = c.ty();
            let new = d.opd(&mut c, &t);
            out.push(Inst::CmpXchg { w: t.width(), n: (t.width() + 7) / 8, dst, ptr, cmp, new });
        }
        "fence" => {}
        "br" => {
            c.ws();
            if c.rest().starts_with("label") {
                let lab = d.label(&mut c);
                out.push(Inst::Br(edge(d, bi, lab, phis)));
            } else {
                let (_, cc) = d.topd(&mut c);
                c.expect(",");
                let a = d.label(&mut c);
                c.expect(",");
                let b = d.label(&mut c);
                let t = edge(d, bi, a, phis);
                let f = edge(d, bi, b, phis);
                out.push(Inst::CondBr { c: cc, t, f });
            }
        }
        "switch" => {
            let (ty, v) = d.topd(&mut c);
            c.expect(",");
            let lab = d.label(&mut c);
            let def = edge(d, bi, lab, phis);
            c.expect("[");
            let mut cases = vec![];
            let mut edges: Vec<Edge> = vec![];
            let mut names: Vec<&'static str> = vec![];
            while !c.eat("]") {
                let t = c.ty();
                let k = c.const_scalar(&t);
                c.expect(",");
                let lab = d.label(&mut c);
                let ei = match names.iter().position(|n| *n == lab) {
                    Some(i) => i,
                    None => {
                        names.push(lab);
                        edges.push(edge(d, bi, lab, phis));
                        edges.len() - 1
                    }
                };
                cases.push((k as u64, ei as u32));
            }
            out.push(Inst::Switch { w: ty.width(), v, def, cases, edges });
        }
        "ret" => {
            let ty = c.ty();
            if ty == Ty::Void {
                out.push(Inst::Ret(None));
            } else {
                let o = d.opd(&mut c, &ty);
                out.push(Inst::Ret(Some(o)));
            }
        }
        "unreachable" => out.push(Inst::Unreachable),
        "landingpad" | "resume" | "cleanup" | "filter" | "catch" => out.push(Inst::Unsupported(l.to_string())),
        _ => out.push(Inst::Unsupported(l.to_string())),
    }
}

impl Module {
    pub fn is_const(&self, idx: u32) -> bool {
        let (s, e) = self.gspans[idx as usize];
        let line = &self.text[s..e.min(s + 400)];
        let g = line.find(" global ");
        let c = line.find(" constant ");
        match (g, c) {
            (Some(g), Some(c)) => c < g,
            (None, Some(_)) => true,
            _ => false,
        }
    }
}
