//! Declarations survive printing and parsing.
use super::{sym, util::*};

super::entries! { p04_names, p04_wire, p04_reg, p04_mem, p04_mem_ports, p04_simple, p04_mport, p04_inst, p04_places, p04_uses, p04_same, p04_long, p04_many }

struct Env {
    ports: Vec<Arc<Port>>,
    ents: Vec<Arc<Entity>>,
}
impl Env {
    fn new() -> Self {
        let ports: Vec<_> = ["a", "b", "c", "d"].iter().map(|n| input(n, uint(1))).collect();
        let ents = ports.iter().map(|p| ent(Entity::Port(p.clone()))).collect();
        Env { ports, ents }
    }
    fn r(&self, i: u32) -> Ex {
        Expression::Reference(self.ents[i as usize].clone())
    }
    /// Every small expression.
    fn any(&self) -> Ex {
        let n = |i| Arc::new(self.r(i));
        match sym::choice(9) {
            0 => Expression::SubField { base: n(0), index: "with".into() },
            1 => Expression::SubIndex { base: n(1), index: 0 },
            2 => Expression::SubAccess { base: n(2), index: n(0) },
            3 => Op::Add(n(0), n(1)).into(),
            4 => Expression::UIntLiteral { value: 0u8.into(), width: 1 },
            k => self.r(k - 5),
        }
    }
    fn check(self, s: Vec<Statement>) {
        round_trip(&circuit_of(self.ports, s), "declarations changed")
    }
}
fn info() -> Option<String> {
    match sym::choice(4) {
        0 => None,
        n => Some(sym::text(n as usize - 1, "]b@[:;, \n")),
    }
}
fn kind() -> Type {
    match sym::choice(4) {
        0 => GT::SInt(None).into(),
        1 => vec_t(clock_t(), 2),
        2 => bundle(vec![field("x", uint(1), true), field("y", GT::Analog(None).into(), false)]),
        _ => uint(7),
    }
}
fn ruw() -> ReadUnderWrite {
    match sym::choice(3) {
        0 => ReadUnderWrite::Old,
        1 => ReadUnderWrite::New,
        _ => ReadUnderWrite::Undefined,
    }
}
fn dir() -> PortDir {
    match sym::choice(3) {
        0 => PortDir::Read,
        1 => PortDir::Write,
        _ => PortDir::ReadWrite,
    }
}
fn opt_dir() -> Option<PortDir> {
    match sym::choice(4) {
        0 => None,
        1 => Some(PortDir::Read),
        2 => Some(PortDir::Write),
        _ => Some(PortDir::ReadWrite),
    }
}
fn skind() -> simple::Kind {
    match sym::choice(3) {
        0 => simple::Kind::Combinatory,
        1 => simple::Kind::Sequential(None),
        _ => simple::Kind::Sequential(Some(ruw())),
    }
}
/// A declaration of each kind, and what must precede it.
fn declaration(e: &Env, n: &str, k: u32) -> (Vec<Statement>, Statement) {
    let mut pre = vec![];
    let d: Entity = match k {
        0 => Entity::Wire { name: n.into(), r#type: uint(3) },
        1 => Entity::Register(Register::new(n, uint(3), e.r(0))),
        2 => Entity::Register(Register::new(n, uint(3), e.r(0)).with_reset(e.r(1), e.r(2))),
        3 => Entity::Node { name: n.into(), value: e.r(3) },
        4 => {
            let mut m = mem::Memory::new(n, uint(3), 5u64);
            m.add_port(mem::Port { name: "r".into(), dir: PortDir::Read });
            Entity::Memory(m)
        }
        5 => {
            let m = Arc::new(simple::Memory::new("s", vec_t(uint(3), 4), simple::Kind::Combinatory));
            pre.push(StmtKind::SimpleMemDecl(m.clone()).into());
            Entity::SimpleMemPort(simple::Port::new(n, m, Some(PortDir::Read), e.r(1), e.r(0)))
        }
        6 => {
            let m = simple::Memory::new(n, vec_t(uint(3), 4), simple::Kind::Sequential(None));
            return (pre, StmtKind::SimpleMemDecl(Arc::new(m)).into());
        }
        _ => {
            let m = module_of("N", vec![input("p", clock_t())], vec![StmtKind::Empty.into()]);
            Entity::Instance(Instance::new(n, m))
        }
    };
    (pre, decl(&ent(d)))
}
/// What uses the declared thing.
fn usage(s: &Statement, e: &Env) -> Statement {
    match s.kind() {
        StmtKind::Declaration(d) => StmtKind::Invalidate(Expression::Reference(d.clone())).into(),
        StmtKind::SimpleMemDecl(m) => {
            let p = simple::Port::new("q", m.clone(), None, e.r(1), e.r(0));
            decl(&ent(Entity::SimpleMemPort(p)))
        }
        _ => sym::fail("no declaration"),
    }
}

/// Every declaration under every name.
fn p04_names() {
    let e = Env::new();
    let n = match sym::choice(2) {
        0 => ident(1 + sym::choice(if sym::thorough() { 4 } else { 3 }) as usize),
        _ => {
            let k = ["wire", "with", "mport", "of", "reg", "mem", "inst", "is", "reset", "old", "infer", "read", "skip"];
            k[sym::choice(k.len() as u32) as usize].to_string()
        }
    };
    sym::assume(!["a", "b", "c", "d"].contains(&&*n));
    let (mut v, d) = declaration(&e, &n, sym::choice(8));
    let d = d.with_info(if sym::flag() { Some("x".into()) } else { None });
    v.push(d.clone());
    v.push(usage(&d, &e));
    e.check(v)
}

fn p04_wire() {
    let e = Env::new();
    let w = ent(Entity::Wire { name: "w".into(), r#type: kind() });
    let n = ent(Entity::Node { name: "n".into(), value: e.any() });
    let mut v = vec![decl(&w).with_info(info()), decl(&n).with_info(info())];
    if sym::flag() {
        v.swap(0, 1);
    }
    e.check(v)
}

fn p04_reg() {
    let e = Env::new();
    let mut r = Register::new("r", kind(), e.any());
    if sym::flag() {
        r = r.with_reset(e.any(), e.any());
    }
    e.check(vec![decl(&ent(Entity::Register(r)))])
}

/// Memories: every depth and latency.
fn p04_mem() {
    let e = Env::new();
    let which = sym::choice(4);
    let depth = match which {
        0 => sym::upto(if sym::thorough() { 9_999_999 } else { 99_999 }),
        1 => u64::MAX - sym::choice(3) as u64,
        _ => 5,
    };
    let mut m = mem::Memory::new("m", kind(), depth).with_read_under_write(ruw());
    match which {
        2 => m = m.with_read_latency(u16_dec()).with_write_latency(sym::choice(2) as u16),
        3 => m = m.with_write_latency(u16_dec()).with_read_latency(sym::choice(3) as u16),
        _ => {}
    }
    let s = decl(&ent(Entity::Memory(m))).with_info(if which == 1 { info() } else { None });
    let mut v = vec![s];
    if sym::flag() {
        v.push(StmtKind::Empty.into());
    }
    e.check(v)
}
/// Every list of ports.
fn p04_mem_ports() {
    let e = Env::new();
    let n = sym::choice(if sym::thorough() { 5 } else { 4 });
    let mut m = mem::Memory::new("m", uint(8), 5u64);
    for i in 0..n {
        let name = match i {
            0 => ident(1 + sym::choice(2) as usize),
            1 => ident(1),
            2 => ["reader", "depth", "r"][sym::choice(3) as usize].to_string(),
            _ => "z1".to_string(),
        };
        m.add_port(mem::Port { name: name.into(), dir: dir() });
    }
    e.check(vec![decl(&ent(Entity::Memory(m))), StmtKind::Empty.into()])
}

fn p04_simple() {
    let e = Env::new();
    let t = match sym::choice(3) {
        0 => vec_t(kind(), u16_dec()),
        1 => vec_t(vec_t(uint(1), 2), 3),
        _ => kind(),
    };
    let n = ident(1 + sym::choice(2) as usize);
    let m = Arc::new(simple::Memory::new(n, t, skind()));
    let s: Statement = StmtKind::SimpleMemDecl(m).into();
    e.check(vec![s.with_info(info()), StmtKind::Empty.into()])
}
fn p04_mport() {
    let e = Env::new();
    let k = skind();
    // two memories, the port is at one of them
    let v: Vec<_> =
        ["s", "t"].iter().map(|n| Arc::new(simple::Memory::new(*n, vec_t(uint(3), 4), k))).collect();
    let m = v[sym::choice(2) as usize].clone();
    let name = ident(1 + sym::choice(2) as usize);
    sym::assume(!["a", "b", "c", "d"].contains(&&*name));
    let (addr, clock) = if sym::flag() { (e.any(), e.r(0)) } else { (e.r(1), e.any()) };
    let p = simple::Port::new(name, m, opt_dir(), addr, clock);
    let mut s: Vec<Statement> = v.iter().map(|m| StmtKind::SimpleMemDecl(m.clone()).into()).collect();
    let d = decl(&ent(Entity::SimpleMemPort(p)));
    s.push(d.clone());
    s.push(usage(&d, &e));
    e.check(s)
}

/// Instances: every name of the instance and of its module.
fn p04_inst() {
    let e = Env::new();
    let mods: Vec<_> = (0..2)
        .map(|i| {
            let n = ident(1 + sym::choice(2) as usize);
            sym::assume(n != "M");
            module_of(&n, vec![input("p", uint(i + 1))], vec![StmtKind::Empty.into()])
        })
        .collect();
    sym::assume(mods[0].name() != mods[1].name());
    let k = sym::choice(2) as usize;
    let name = ident(if sym::thorough() { 2 } else { 1 });
    sym::assume(!["a", "b", "c", "d"].contains(&&*name));
    let i = ent(Entity::Instance(Instance::new(name, mods[k].clone())));
    let j = ent(Entity::Instance(Instance::new("other", mods[1 - k].clone())));
    sym::assume(&**i.name() != "other");
    let mut s = vec![decl(&i).with_info(info())];
    s.push(usage(&s[0], &e));
    s.push(decl(&j));
    s.push(usage(&s[2], &e));
    e.check(s)
}

/// Every declaration in a branch, with something around it.
fn p04_places() {
    let e = Env::new();
    let (mut v, d) = declaration(&e, "x1", sym::choice(8));
    let (w, f) = declaration(&e, "x2", sym::choice(8));
    sym::assume(v.is_empty() || w.is_empty());
    v.push(d.with_info(if sym::flag() { Some("1".into()) } else { None }));
    let u = usage(&v[v.len() - 1], &e);
    v.extend(w);
    v.push(f);
    if sym::flag() {
        v.push(u);
    }
    for _ in 0..sym::choice(if sym::thorough() { 4 } else { 3 }) {
        let skip: Vec<Statement> = vec![StmtKind::Empty.into()];
        let (w, l) = match sym::choice(3) {
            0 => (v, vec![]),
            1 => (v, skip),
            _ => (skip, v),
        };
        v = vec![StmtKind::Conditional { cond: e.r(0), when: w.into(), r#else: l.into() }.into()];
    }
    if sym::flag() {
        v.push(StmtKind::Empty.into());
    }
    e.check(v)
}

/// Declarations that take the name of what they use, and what comes after.
fn p04_same() {
    let e = Env::new();
    let s = Arc::new(simple::Memory::new("s", vec_t(uint(3), 4), skind()));
    let mut v: Vec<Statement> = vec![];
    let d = match sym::choice(6) {
        0 => Entity::Register(Register::new("a", uint(3), e.any())),
        1 => Entity::Register(Register::new("a", uint(3), e.any()).with_reset(e.any(), e.any())),
        2 => Entity::Node { name: "a".into(), value: e.any() },
        3 => {
            v.push(StmtKind::SimpleMemDecl(s.clone()).into());
            Entity::SimpleMemPort(simple::Port::new("a", s, opt_dir(), e.any(), e.any()))
        }
        // the port of a memory of the same name
        4 => {
            v.push(StmtKind::SimpleMemDecl(s.clone()).into());
            Entity::SimpleMemPort(simple::Port::new("s", s, opt_dir(), e.r(1), e.r(0)))
        }
        // the instance of a module of the same name
        _ => {
            let m = module_of("N", vec![input("N", uint(1))], vec![StmtKind::Empty.into()]);
            Entity::Instance(Instance::new("N", m))
        }
    };
    let d = decl(&ent(d));
    v.push(d.clone());
    v.push(usage(&d, &e));
    e.check(v)
}

/// Declared things inside of other declarations.
fn p04_uses() {
    let e = Env::new();
    let (mut v, d) = declaration(&e, "x", [0, 1, 2, 3, 4, 5, 7][sym::choice(7) as usize]);
    let x = match d.kind() {
        StmtKind::Declaration(d) => Expression::Reference(d.clone()),
        _ => sym::fail("no declaration"),
    };
    v.push(d);
    let mut o = [e.r(0), e.r(1), e.r(2)];
    o[sym::choice(3) as usize] = x;
    let [p, q, r] = o;
    let m = Arc::new(simple::Memory::new("t", vec_t(uint(3), 4), skind()));
    let y = match sym::choice(4) {
        0 => Entity::Register(Register::new("y", uint(3), p).with_reset(q, r)),
        1 => Entity::Register(Register::new("y", uint(3), p)),
        2 => Entity::Node { name: "y".into(), value: p },
        _ => {
            v.push(StmtKind::SimpleMemDecl(m.clone()).into());
            Entity::SimpleMemPort(simple::Port::new("y", m, opt_dir(), p, q))
        }
    };
    v.push(decl(&ent(y)));
    e.check(v)
}

/// Long names.
fn p04_long() {
    let e = Env::new();
    let n = long_name(size());
    let which = sym::choice(9);
    if which == 8 {
        // one of several ports
        let k = spot(3);
        let mut m = mem::Memory::new("m", uint(8), 5u64);
        for i in 0..3 {
            m.add_port(mem::Port { name: if i == k { n.as_str() } else { ["a", "b", "c"][i] }.into(), dir: dir() });
        }
        return e.check(vec![decl(&ent(Entity::Memory(m))), StmtKind::Empty.into()]);
    }
    let (mut v, d) = declaration(&e, &n, which);
    v.push(d.clone());
    v.push(usage(&d, &e));
    e.check(v)
}
/// Many ports of a memory, many declarations, large numbers.
fn p04_many() {
    let e = Env::new();
    let n = size();
    let k = spot(n);
    match sym::choice(3) {
        0 => {
            let mut m = mem::Memory::new("m", uint(8), 5u64);
            for (i, s) in names(n).iter().enumerate() {
                let d = if i == k { dir() } else { [PortDir::Write, PortDir::Read, PortDir::ReadWrite][i % 3] };
                m.add_port(mem::Port { name: s.as_str().into(), dir: d });
            }
            e.check(vec![decl(&ent(Entity::Memory(m))), StmtKind::Empty.into()])
        }
        1 => {
            let w = sym::choice(8);
            let mut v = vec![];
            for i in 0..n {
                let (pre, d) = declaration(&e, &format!("n{}", i), if i == k { w } else { [0, 3, 1, 4][i % 4] });
                v.extend(pre);
                v.push(d.clone());
                if i == k {
                    v.push(usage(&d, &e));
                }
            }
            e.check(v)
        }
        _ => {
            // one after the other, each built from the one before
            let mut v = vec![];
            let mut x = e.r(0);
            for i in 0..n {
                let d = ent(Entity::Node { name: format!("n{}", i).into(), value: x });
                x = if i == k { Op::Not(Arc::new(Expression::Reference(d.clone()))).into() } else { Expression::Reference(d.clone()) };
                v.push(decl(&d));
            }
            e.check(v)
        }
    }
}
