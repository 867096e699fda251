//! Every name resolves to the declaration that is in scope.
use super::{sym, util::*};

super::entries! { p10_flat, p10_same, p10_block, p10_deep, p10_where, p10_mems, p10_modules, p10_chain, p10_instances, p10_prefix, p10_keyword, p10_known, p10_long, p10_many, p10_far }

type N = String;
/// A program; every declaration gets a number that shows in its type.
enum S {
    Use(N),
    Wire(N),
    Node(N, N),
    Reg(N, N, N),
    Mem(N),
    Cmem(N),
    Mport(N, N, N, N),
    Inst(N, N),
    When(N, Vec<S>, Vec<S>, bool),
}
/// What a name stands for.
#[derive(Clone)]
enum D {
    Port(u32),
    Wire(u32),
    Node(u32),
    Reg(u32),
    Mem(u32),
    /// of which memory
    Mport(u32),
    /// of which module
    Inst(u32),
}
fn text(v: &[S], d: usize, k: &mut u32, out: &mut String) {
    for s in v {
        let i = " ".repeat(d);
        out.push_str(&i);
        *k += 1;
        match s {
            S::Use(n) => out.push_str(&format!("{} is invalid\n", n)),
            S::Wire(n) => out.push_str(&format!("wire {}: UInt<{}>\n", n, k)),
            S::Node(n, a) => out.push_str(&format!("node {} = bits({}, {}, 0)\n", n, a, k)),
            S::Reg(n, c, r) => out.push_str(&format!("reg {}: UInt<{}>, {} with: (reset => ({}, {}))\n", n, k, c, r, c)),
            S::Mem(n) => out.push_str(&format!("mem {}:\n{}  data-type => UInt\n{}  depth => {}\n", n, i, i, k)),
            S::Cmem(n) => out.push_str(&format!("cmem {}: UInt[{}]\n", n, k)),
            S::Mport(n, m, a, c) => out.push_str(&format!("infer mport {} = {}[{}], {}\n", n, m, a, c)),
            S::Inst(n, m) => out.push_str(&format!("inst {} of {}\n", n, m)),
            S::When(c, a, b, chain) => {
                out.push_str(&format!("when {}:\n", c));
                text(a, d + 2, k, out);
                if *chain {
                    if let S::When(c, a, b, _) = &b[0] {
                        *k += 1;
                        out.push_str(&format!("{}else when {}:\n", i, c));
                        text(a, d + 2, k, out);
                        if b.len() > 0 {
                            out.push_str(&format!("{}else:\n", i));
                            text(b, d + 2, k, out)
                        }
                    }
                } else if b.len() > 0 {
                    out.push_str(&format!("{}else:\n", i));
                    text(b, d + 2, k, out)
                }
            }
        }
    }
}
#[derive(Default)]
struct Env {
    names: Vec<(N, D)>,
    mems: Vec<(N, u32)>,
    mods: Vec<(N, u32)>,
    k: u32,
}
fn find<T: Clone>(v: &[(N, T)], n: &str) -> Option<T> {
    // the latest one
    for (m, d) in v.iter().rev() {
        if m == n {
            return Some(d.clone());
        }
    }
    None
}
impl Env {
    /// Do all names resolve?
    fn run(&mut self, v: &[S]) -> bool {
        v.iter().all(|s| {
            self.k += 1;
            let k = self.k;
            let has = |e: &Env, n: &N| find(&e.names, n).is_some();
            match s {
                S::Use(n) => has(self, n),
                S::Wire(n) => self.add(n, D::Wire(k)),
                S::Node(n, a) => has(self, a) && self.add(n, D::Node(k)),
                S::Reg(n, c, r) => has(self, c) && has(self, r) && self.add(n, D::Reg(k)),
                S::Mem(n) => self.add(n, D::Mem(k)),
                S::Cmem(n) => {
                    self.mems.push((n.clone(), k));
                    true
                }
                S::Mport(n, m, a, c) => match find(&self.mems, m) {
                    Some(m) => has(self, a) && has(self, c) && self.add(n, D::Mport(m)),
                    None => false,
                },
                S::Inst(n, m) => match find(&self.mods, m) {
                    Some(m) => self.add(n, D::Inst(m)),
                    None => false,
                },
                S::When(c, a, b, _) => has(self, c) && self.run(a) && self.run(b),
            }
        })
    }
    fn add(&mut self, n: &N, d: D) -> bool {
        self.names.push((n.clone(), d));
        true
    }
    /// Does the expression denote what the name stands for?
    fn same(&self, n: &N, e: &Ex) {
        let r = match e {
            Expression::Reference(r) => r,
            _ => sym::fail("a name is read as something else"),
        };
        sym::check(r.name().as_ref() == n.as_str(), "a name denotes an entity of another name");
        let d = find(&self.names, n).unwrap();
        sym::check(denotes(&d, r), "a name denotes another entity of this name")
    }
    /// Compares with what was read.
    fn compare(&mut self, v: &[S], p: &[Statement]) {
        sym::check(v.len() == p.len(), "number of statements");
        for (s, p) in v.iter().zip(p) {
            self.k += 1;
            let k = self.k;
            match (s, p.kind()) {
                (S::Use(n), StmtKind::Invalidate(e)) => self.same(n, e),
                (S::Cmem(n), StmtKind::SimpleMemDecl(m)) => {
                    sym::check(m.name().as_ref() == n.as_str() && mem_is(m, k), "memory");
                    self.mems.push((n.clone(), k))
                }
                (S::When(c, a, b, _), StmtKind::Conditional { cond, when, r#else }) => {
                    self.same(c, cond);
                    self.compare(a, when);
                    self.compare(b, r#else)
                }
                (s, StmtKind::Declaration(e)) => {
                    let (n, d) = match (s, e.as_ref()) {
                        (S::Wire(n), Entity::Wire { .. }) => (n, D::Wire(k)),
                        (S::Node(n, a), Entity::Node { value: Expression::PrimitiveOp(Op::Bits(v, ..)), .. }) => {
                            self.same(a, v);
                            (n, D::Node(k))
                        }
                        (S::Reg(n, c, r), Entity::Register(x)) => {
                            self.same(c, x.clock());
                            self.same(r, x.reset_signal().unwrap());
                            self.same(c, x.reset_value().unwrap());
                            (n, D::Reg(k))
                        }
                        (S::Mem(n), Entity::Memory(..)) => (n, D::Mem(k)),
                        (S::Mport(n, m, a, c), Entity::SimpleMemPort(x)) => {
                            self.same(a, x.address());
                            self.same(c, x.clock());
                            sym::check(x.memory().name().as_ref() == m.as_str(), "a port of a memory of another name");
                            (n, D::Mport(find(&self.mems, m).unwrap()))
                        }
                        (S::Inst(n, m), Entity::Instance(x)) => {
                            sym::check(x.module().name().as_ref() == m.as_str(), "an instance of a module of another name");
                            (n, D::Inst(find(&self.mods, m).unwrap()))
                        }
                        _ => sym::fail("another declaration"),
                    };
                    sym::check(e.name().as_ref() == n.as_str(), "another name is declared");
                    sym::check(denotes(&d, e), "another entity is declared");
                    self.add(n, d);
                }
                _ => sym::fail("another statement"),
            }
        }
    }
}
fn width(t: &Type) -> u32 {
    match t {
        Type::GroundType(GT::UInt(Some(w))) => *w as u32,
        _ => 0,
    }
}
fn mod_width(m: &Module) -> u32 {
    m.ports().next().map_or(0, |p| width(p.r#type()))
}
fn denotes(d: &D, e: &Entity) -> bool {
    match (d, e) {
        (D::Port(k), Entity::Port(p)) => width(p.r#type()) == *k,
        (D::Wire(k), Entity::Wire { r#type, .. }) => width(r#type) == *k,
        (D::Node(k), Entity::Node { value: Expression::PrimitiveOp(Op::Bits(_, _, Some(h))), .. }) => *h as u32 == *k,
        (D::Reg(k), Entity::Register(r)) => match r.r#type() {
            Ok(t) => width(&t.into()) == *k,
            Err(_) => false,
        },
        (D::Mem(k), Entity::Memory(m)) => m.depth() == *k as u64,
        (D::Mport(k), Entity::SimpleMemPort(p)) => mem_is(p.memory(), *k),
        (D::Inst(k), Entity::Instance(i)) => mod_width(i.module()) == *k,
        _ => false,
    }
}

/// Reads the program in a module with the given ports, in a circuit with the
/// given modules before.
fn run(mods: &[N], ports: &[N], v: &[S]) {
    let mut s = String::from("circuit Top:\n");
    let mut env = Env::default();
    for (i, m) in mods.iter().enumerate() {
        s.push_str(&format!("  module {}:\n    input inner: UInt<{}>\n", m, 50 + i));
        env.mods.push((m.clone(), 50 + i as u32))
    }
    s.push_str("  module Top:\n");
    for (i, p) in ports.iter().enumerate() {
        s.push_str(&format!("    {} {}: UInt<{}>\n", if i % 2 == 0 { "input" } else { "output" }, p, 40 + i));
        env.names.push((p.clone(), D::Port(40 + i as u32)))
    }
    text(v, 4, &mut 0, &mut s);
    sym::log(&s);
    let c = parse(&s);
    let n = (env.names.len(), env.mems.len());
    let ok = env.run(v);
    match c {
        Err(_) => {
            sym::check(!ok, "a declared name is not found");
            sym::reach(2)
        }
        Ok(c) => {
            sym::check(ok, "a name resolves that is not declared");
            env.k = 0;
            env.names.truncate(n.0);
            env.mems.truncate(n.1);
            env.compare(v, c.top_module().statements());
            sym::reach(1)
        }
    }
}
fn name() -> N {
    sym::text(1, IDENT1)
}
/// Any statement without blocks, with any names.
fn any() -> S {
    match sym::choice(8) {
        0 => S::Use(name()),
        1 => S::Wire(name()),
        2 => S::Node(name(), name()),
        3 => S::Reg(name(), name(), "p".into()),
        4 => S::Mem(name()),
        5 => S::Cmem(name()),
        6 => S::Mport(name(), name(), "p".into(), name()),
        _ => S::Inst(name(), name()),
    }
}
/// A declaration of any kind with this name (entities only).
fn declare(n: &str, k: u32) -> S {
    let n: N = n.into();
    let p: N = "p".into();
    match k {
        0 => S::Wire(n),
        1 => S::Node(n, p),
        2 => S::Reg(n, p.clone(), p),
        3 => S::Mem(n),
        4 => S::Inst(n, "X".into()),
        5 => S::Mport(n, "S".into(), p.clone(), p),
        _ => S::Cmem(n),
    }
}
fn one(n: &str) -> S {
    S::Use(n.into())
}

/// Straight-line programs.
fn p10_flat() {
    let n = 1 + sym::choice(if sym::thorough() { 3 } else { 2 });
    let v: Vec<_> = (0..n).map(|_| any()).collect();
    run(&["X".into()], &["p".into(), "q".into()], &v)
}
/// Two declarations of any kinds and a use, any names.
fn p10_same() {
    let (a, b) = (sym::choice(7), if sym::thorough() { sym::choice(7) } else { [0, 4][sym::choice(2) as usize] });
    let (x, y) = (name(), name());
    let v = vec![S::Cmem("S".into()), declare(&x, a), declare(&y, b), one(&name())];
    run(&["X".into()], &["p".into(), name()], &v)
}
/// Declarations before, in either branch and after; uses in all places.
fn p10_block() {
    let names: Vec<_> = (0..3).map(|_| name()).collect();
    let u = name();
    let k = if sym::thorough() { sym::choice(7) } else { [1, 5, 6][sym::choice(3) as usize] };
    let at = sym::choice(7);
    let chain = sym::choice(2) == 1;
    let mut first = vec![declare(&names[0], k)];
    let mut second = vec![];
    let mut third = vec![declare(&names[1], 0)];
    let mut fourth = vec![S::Wire(names[2].clone())];
    match at {
        0 => first.insert(0, one(&u)),
        1 => first.push(one(&u)),
        2 => third.insert(0, one(&u)),
        3 => third.push(one(&u)),
        4 => fourth.insert(0, one(&u)),
        5 => fourth.push(one(&u)),
        _ => second.push(one(&u)),
    }
    let mut v = vec![S::Cmem("S".into())];
    if chain {
        // else when
        let w = S::When("p".into(), third, second, false);
        v.push(S::When("p".into(), first, vec![w], true))
    } else {
        v.append(&mut second);
        v.push(S::When("p".into(), first, third, false))
    }
    v.append(&mut fourth);
    run(&["X".into()], &["p".into()], &v)
}
/// Blocks in blocks.
fn p10_deep() {
    let (a, b, u) = (name(), name(), name());
    let n = if sym::thorough() { 2 + sym::choice(3) } else { 2 };
    let da = sym::choice(n + 1);
    let db = sym::choice(n + 1);
    let du = sym::choice(n + 1);
    let before = sym::choice(2) == 0;
    let side = sym::choice(2) == 0;
    let mut inner = vec![one("p")];
    for d in (0..=n).rev() {
        // from the inside out
        let mut v = vec![];
        if da == d {
            v.push(S::Wire(a.clone()))
        }
        if du == d && before {
            v.push(one(&u))
        }
        if inner.len() > 0 {
            let i = std::mem::take(&mut inner);
            v.push(if side { S::When("p".into(), i, vec![], false) } else { S::When("p".into(), vec![one("p")], { let mut i = i; i.push(one("p")); i }, false) })
        }
        if db == d {
            v.push(S::Wire(b.clone()))
        }
        if du == d && !before {
            v.push(one(&u))
        }
        inner = v
    }
    run(&[], &["p".into()], &inner)
}
/// A name in every place of an expression or statement.
fn p10_where() {
    let v = [
        "# <= p", "p <= #", "# <- p", "p <- #", "# is invalid", "attach(#)", "attach(p, #)", "attach(p, p, #)", "stop(#, p, 1)", "stop(p, #, 1)", "printf(#, p, \"\")",
        "printf(p, #, \"\")", "printf(p, p, \"%d\", #)", "printf(p, p, \"%d %x\", p, #)", "node n = #", "node n = #.x", "node n = #[1]", "node n = #[p]",
        "node n = p[#]", "node n = p[p[#]]", "node n = p.x[#].y", "node n = mux(#, p, p)", "node n = mux(p, #, p)", "node n = mux(p, p, #)", "node n = validif(#, p)",
        "node n = validif(p, #)", "node n = add(#, p)", "node n = add(p, #)", "node n = not(#)", "node n = bits(#, 1, 0)", "node n = asFixed(#, 1)", "node n = cat(p, #)",
        "reg r: UInt, #", "reg r: UInt, # with: (reset => (p, p))", "reg r: UInt, p with: (reset => (#, p))", "reg r: UInt, p with: (reset => (p, #))",
        "read mport m = S[#], p", "write mport m = S[p], #", "rdwr mport m = S[p.x[#]], p", "infer mport m = #[p], p", "inst i of #", "when #:\n      skip",
        "when p:\n      skip\n    else when #:\n      skip", "when p:\n      # is invalid", "when p:\n      skip\n    else:\n      # is invalid",
    ];
    let k = sym::choice(v.len() as u32) as usize;
    let n = sym::text(1 + sym::choice(2) as usize, IDENT1);
    let s = v[k];
    let want = if s.starts_with("infer") {
        "S"
    } else if s.starts_with("inst") {
        "X"
    } else {
        "p"
    };
    let t = format!(
        "circuit M:\n  extmodule X:\n    input xp: UInt\n  module M:\n    input p: UInt<1>\n    cmem S: UInt[2]\n    {}\n    wire ww: UInt\n",
        s.replace("#", &n)
    );
    sym::log(&t);
    match parse(&t) {
        Err(_) => {
            sym::check(n != want, "a declared name is not found");
            sym::reach(2)
        }
        Ok(c) => {
            sym::check(n == want, "a name resolves that is not declared");
            inspect(&c);
            sym::reach(1)
        }
    }
}
/// Memories and entities do not share names.
fn p10_mems() {
    let v = vec![
        S::Cmem(name()),
        if sym::flag() { S::Wire(name()) } else { S::When("p".into(), vec![S::Cmem(name())], if sym::flag() { vec![S::Cmem(name())] } else { vec![] }, false) },
        S::Mport("m".into(), name(), "p".into(), name()),
    ];
    run(&[], &["p".into()], &v)
}
/// Names of other modules mean nothing.
fn p10_modules() {
    let (a, b, u) = (name(), name(), name());
    let first = ["wire #: UInt", "node # = c", "reg #: UInt, c", "cmem #: UInt[2]", "inst # of A"][sym::choice(5) as usize].replace("#", &a);
    let last = match sym::choice(3) {
        0 => format!("{} is invalid", u),
        1 => format!("node m = {}", u),
        _ => format!("read mport m = {}[{}], {}", u, b, b),
    };
    let mport = last.starts_with("read");
    let decl = sym::flag();
    let s = format!(
        "circuit Z:\n  module A:\n    input i: UInt\n  module B:\n    input c: UInt\n    input d: UInt\n    {}\n    skip\n  module Z:\n    input {}: UInt<3>\n{}    {}\n  module C:\n    wire {}: UInt\n",
        first,
        b,
        if decl { "    cmem c: UInt[3]\n    wire e: UInt<4>\n" } else { "" },
        last,
        u
    );
    sym::log(&s);
    let ok = if mport { decl && u == "c" } else { u == b || (decl && u == "e") };
    match parse(&s) {
        Err(_) => {
            sym::check(!ok, "a declared name is not found");
            sym::reach(2)
        }
        Ok(c) => {
            sym::check(ok, "a name of another module resolves");
            let x = c.top_module().statements().last().unwrap();
            let r = match x.kind() {
                StmtKind::Invalidate(Expression::Reference(r)) => r,
                StmtKind::Declaration(d) => match d.as_ref() {
                    Entity::Node { value: Expression::Reference(r), .. } => r,
                    Entity::SimpleMemPort(p) => {
                        sym::check(mem_is(p.memory(), 3), "another memory");
                        sym::reach(1);
                        return;
                    }
                    _ => sym::fail("another statement"),
                },
                _ => sym::fail("another statement"),
            };
            let e = decl && u == "e";
            sym::check(denotes(&if e { D::Wire(4) } else { D::Port(3) }, r), "another entity");
            sym::reach(1)
        }
    }
}
/// Modules instantiate only modules before them.
fn p10_chain() {
    let n = if sym::thorough() { 4 } else { 3 };
    let names: Vec<_> = (0..n).map(|_| name()).collect();
    let mut s = format!("circuit {}:\n", names[n - 1]);
    let mut known: Vec<(N, u32)> = vec![];
    let mut ok = true;
    let mut uses = vec![];
    for i in 0..n {
        let ext = i + 1 < n && sym::choice(2) == 1;
        s.push_str(&format!("  {} {}:\n    input p: UInt<{}>\n", if ext { "extmodule" } else { "module" }, names[i], 60 + i));
        if !ext && sym::flag() {
            let u = name();
            s.push_str(&format!("    inst i of {}\n", u));
            let r = find(&known, &u);
            ok &= r.is_some();
            uses.push((i as u32, r))
        }
        known.push((names[i].clone(), 60 + i as u32))
    }
    // the first of several tops is the one
    let top = known.iter().find(|k| k.0 == names[n - 1]).unwrap().1;
    sym::log(&s);
    match circuit::parse(&s) {
        Err(_) => {
            sym::check(!ok, "a defined module is not found");
            sym::reach(2)
        }
        Ok(c) => {
            sym::check(ok, "a module resolves that is not defined before");
            sym::check(mod_width(c.top_module()) == top, "another top module");
            let ms: Vec<_> = circuit::consumer(&s).unwrap().map(|m| m.unwrap()).collect();
            sym::check(ms.len() == n, "number of modules");
            for (i, r) in uses {
                match ms[i as usize].statements()[0].kind() {
                    StmtKind::Declaration(d) => match d.as_ref() {
                        Entity::Instance(x) => sym::check(Some(mod_width(x.module())) == r, "an instance of another module"),
                        _ => sym::fail("no instance"),
                    },
                    _ => sym::fail("no declaration"),
                }
            }
            sym::reach(1)
        }
    }
}
/// Several instances in any block.
fn p10_instances() {
    let v = vec![
        S::Inst(if sym::thorough() { name() } else { "i".into() }, name()),
        S::When("p".into(), vec![S::Inst(name(), name())], vec![], false),
        one(if sym::thorough() { name() } else { "i".into() }.as_str()),
    ];
    run(&["X".into(), "Y".into()], &["p".into()], &v)
}
/// Longer names: only the whole name counts.
fn p10_prefix() {
    let m = if sym::thorough() { 3 } else { 2 };
    let (x, y, z) = (ident(1 + sym::choice(m) as usize), ident(1 + sym::choice(2) as usize), ident(1 + sym::choice(m) as usize));
    let k = sym::choice(3);
    // not a keyword of the places used
    let v = match k {
        0 => vec![S::Wire(x), S::Wire(y), S::Node("n".into(), z)],
        1 => vec![S::Cmem(x), S::Cmem(y), S::Mport("m".into(), z, "p".into(), "p".into())],
        _ => vec![S::Inst("i".into(), z)],
    };
    let mods: Vec<N> = if k == 2 { vec!["ab".into(), "a1".into(), "a".into()] } else { vec![] };
    run(&mods, &["p".into()], &v)
}
/// Keywords are names like any other.
fn p10_keyword() {
    let v = [
        "circuit", "module", "extmodule", "input", "output", "defname", "parameter", "wire", "reg", "with", "reset", "mem", "cmem", "smem", "read", "write", "rdwr",
        "infer", "mport", "inst", "of", "node", "is", "invalid", "attach", "when", "else", "stop", "printf", "skip", "old", "new", "undefined", "mux", "validif", "add",
        "UInt", "SInt", "Fixed", "Clock", "Reset", "AsyncReset", "Analog", "flip", "depth", "reader",
    ];
    let n = || -> N { v[sym::choice(v.len() as u32) as usize].into() };
    let w = n();
    let u = if sym::choice(2) == 0 { w.clone() } else { n() };
    let v = vec![declare(&w, sym::choice(3)), S::Node("n".into(), u.clone()), S::When(u.clone(), vec![S::Node("o".into(), u)], vec![], false)];
    run(&[], &["p".into()], &v)
}
/// Modules that were added are known, the latest of a name counts.
fn p10_known() {
    let mk = |n: &str, w: u16| module_of(n, vec![input("p", uint(w))], vec![]);
    let (a, b, u) = (name(), name(), name());
    let s = format!("  module {}:\n    input p: UInt<3>\n  module T:\n    input p: UInt<4>\n    inst i of {}\n", b, u);
    sym::log(&s);
    let mut ms = module::Modules::new(&s);
    ms.add_module(mk(&a, 1));
    if sym::flag() {
        ms.add_module(mk(&a, 2))
    }
    let known = ms.module(&a).map(|m| mod_width(m)).unwrap();
    let want = if u == b {
        Some(3)
    } else if u == a {
        Some(known)
    } else {
        None
    };
    ms.next().unwrap().unwrap();
    match ms.next() {
        Some(Ok(m)) => match m.statements()[0].kind() {
            StmtKind::Declaration(d) => match d.as_ref() {
                Entity::Instance(i) => {
                    sym::check(Some(mod_width(i.module())) == want, "an instance of another module");
                    sym::reach(1)
                }
                _ => sym::fail("no instance"),
            },
            _ => sym::fail("no declaration"),
        },
        Some(Err(_)) => {
            sym::check(want.is_none(), "a known module is not found");
            sym::reach(2)
        }
        None => sym::fail("a module is missing"),
    }
}
fn mem_is(m: &simple::Memory, k: u32) -> bool {
    match m.r#type() {
        Ok(t) => t == vec_t(GT::UInt(None).into(), k as u16),
        Err(_) => false,
    }
}

// --- large ---
/// Long names: only the whole name counts.
fn p10_long() {
    let n = size();
    let x = long_name(n);
    let mut y: String = x.clone();
    // the use: the same, or one character differs, or shorter or longer
    match sym::choice(5) {
        0 => {}
        1 => {
            let k = spot(n);
            y.replace_range(k..k + 1, &sym::text(1, IDENT));
            sym::assume(!y.as_bytes()[0].is_ascii_digit())
        }
        2 => y.push('a'),
        3 => {
            y.pop();
        }
        _ => y = long_name(n),
    }
    let k = sym::choice(3);
    let v = match k {
        0 => vec![S::Wire(x.clone()), S::Node("n".into(), y)],
        1 => vec![S::Cmem(x.clone()), S::Mport("m".into(), y, "p".into(), "p".into())],
        _ => vec![S::Inst("i".into(), y)],
    };
    run(&[if k == 2 { x } else { "X".into() }], &["p".into()], &v)
}
/// Many declarations, ports or modules of which one is used.
fn p10_many() {
    let n = half_size();
    let k = spot(n);
    let all = names(n);
    // one of the declared names, or another
    let u = match sym::choice(3) {
        0 => all[k].clone(),
        1 => all[n - 1 - k].clone(),
        _ => format!("{}_", ident(1)),
    };
    let p: N = "p".into();
    let (mut mods, mut ports) = (vec![], vec!["p".into()]);
    let mut v = vec![S::Cmem("S".into())];
    match sym::choice(6) {
        0 => {
            let w = [0, 3, 4, 5][sym::choice(4) as usize];
            mods.push("X".into());
            v.extend(all.iter().enumerate().map(|(i, s)| declare(s, if i == k { w } else { i as u32 % 4 })));
            v.push(one(&u))
        }
        1 => {
            v.extend(all.iter().map(|s| S::Cmem(s.clone())));
            v.push(S::Mport("m".into(), u, p.clone(), p))
        }
        2 => {
            ports.extend(all);
            v.push(one(&u))
        }
        3 => {
            mods = all;
            v.push(S::Inst("i".into(), u))
        }
        4 => {
            // the same name again and again
            v.extend((0..n).map(|i| declare("w", if i == k { 0 } else { 1 + i as u32 % 3 })));
            v.push(one(if sym::flag() { "w" } else { "v" }))
        }
        _ => {
            // each in a branch of its own
            v.extend(all.iter().map(|s| S::When(p.clone(), vec![S::Wire(s.clone())], vec![], false)));
            v.push(one(&u))
        }
    }
    run(&mods, &ports, &v)
}
/// A declaration and its use many levels apart.
fn p10_far() {
    let n = depth();
    let k = spot(n);
    let (a, u) = (name(), name());
    let way = sym::choice(3);
    let place = sym::choice(3);
    let mut v = vec![if place == 0 { one(&u) } else { one("p") }];
    for i in 0..n {
        if i == k {
            v.insert(0, S::Wire(a.clone()))
        }
        let p: N = "p".into();
        v = vec![match way {
            0 => S::When(p, v, vec![], false),
            1 => S::When(p, vec![one("p")], v, false),
            _ => S::When(p, vec![S::Wire(format!("n{}", i))], vec![one("p"), v.pop().unwrap()].into_iter().chain(v.into_iter().rev()).collect(), false),
        }];
        if i == n / 2 && place == 1 {
            v.push(one(&u))
        }
    }
    if place == 2 {
        v.push(one(&u))
    }
    run(&[], &["p".into()], &v)
}
