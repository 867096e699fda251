//! Traversals.
use super::{sym, util::*};

super::entries! { p21_operands, p21_references, p21_chain, p21_shared, p21_doubled, p21_plain, p21_statements, p21_else_chain, p21_branches, p21_modules, p21_many, p21_far, p21_deep }

/// Every element carries a free number.  Do both lists hold each number
/// equally often?
fn agree(got: &[u32], want: &[u32], what: &str) {
    sym::check(got.len() == want.len(), what);
    let t = sym::int(16) as u32;
    let count = |v: &[u32]| v.iter().fold(0u32, |n, x| n + (*x == t) as u32);
    sym::check(count(got) == count(want), what);
}
struct Names(u32);
impl Names {
    fn leaf(&mut self) -> Arc<Er> {
        rfn("x", Some(uint(u16_any())))
    }
}
fn width(t: &Type) -> u32 {
    match t {
        Type::GroundType(GT::UInt(Some(w))) => *w as u32,
        _ => 0x10000,
    }
}
fn number(r: &R) -> u32 {
    r.ty.as_ref().map_or(0x10000, width)
}

fn p21_operands() {
    let o = sym::choice(OPS_ALL);
    let mut n = Names(0);
    let (a, b) = (n.leaf(), n.leaf());
    let x = op(o, a.clone(), b.clone(), u16_any(), u16_any(), GT::Clock);
    let s = x.sub_exprs();
    sym::reach(1);
    sym::check(s.len() == if binary(o) { 2 } else { 1 }, "an operation has the wrong number of operands");
    sym::check(Arc::ptr_eq(s[0], &a), "the first operand is another");
    if binary(o) {
        sym::check(Arc::ptr_eq(s[1], &b), "the second operand is another");
    }
}

/// An expression with fresh names at its leaves.
fn any_expr(depth: u32, n: &mut Names) -> Arc<Er> {
    if depth == 0 {
        return n.leaf();
    }
    let k = sym::choice(9);
    let mut sub = |n: &mut Names| any_expr(depth - 1, n);
    Arc::new(match k {
        0 => return n.leaf(),
        1 => Expression::UIntLiteral { value: 1u8.into(), width: u16_any() },
        2 => Expression::SubField { base: sub(n), index: "a".into() },
        3 => Expression::SubIndex { base: sub(n), index: u16_any() },
        4 => {
            let base = sub(n);
            let index = n.leaf();
            Expression::SubAccess { base, index }
        }
        5 => {
            let base = n.leaf();
            Expression::SubAccess { base, index: sub(n) }
        }
        6 => {
            let mut v = [n.leaf(), n.leaf(), n.leaf()];
            v[sym::choice(3) as usize] = sub(n);
            let [sel, a, b] = v;
            Expression::Mux { sel, a, b }
        }
        7 => {
            let mut v = [n.leaf(), n.leaf()];
            v[sym::choice(2) as usize] = sub(n);
            let [sel, value] = v;
            Expression::ValidIf { sel, value }
        }
        _ => {
            let o = if depth > 1 { [0, 16, 26, 30][sym::choice(4) as usize] } else { sym::choice(OPS_ALL) };
            let mut v = [n.leaf(), n.leaf()];
            v[if binary(o) { sym::choice(2) as usize } else { 0 }] = sub(n);
            let [a, b] = v;
            op(o, a, b, 1, 2, GT::Clock).into()
        }
    })
}
/// The references inside, by structure.
fn inside(e: &Er, v: &mut Vec<u32>) {
    match e {
        Expression::Reference(r) => v.push(number(r)),
        Expression::UIntLiteral { .. } | Expression::SIntLiteral { .. } => {}
        Expression::SubField { base, .. } | Expression::SubIndex { base, .. } => inside(base, v),
        Expression::SubAccess { base, index } => {
            inside(base, v);
            inside(index, v)
        }
        Expression::Mux { sel, a, b } => {
            inside(sel, v);
            inside(a, v);
            inside(b, v)
        }
        Expression::ValidIf { sel, value } => {
            inside(sel, v);
            inside(value, v)
        }
        Expression::PrimitiveOp(o) => match o {
            Op::Add(a, b)
            | Op::Sub(a, b)
            | Op::Mul(a, b)
            | Op::Div(a, b)
            | Op::Rem(a, b)
            | Op::Lt(a, b)
            | Op::LEq(a, b)
            | Op::Gt(a, b)
            | Op::GEq(a, b)
            | Op::Eq(a, b)
            | Op::NEq(a, b)
            | Op::DShl(a, b)
            | Op::DShr(a, b)
            | Op::And(a, b)
            | Op::Or(a, b)
            | Op::Xor(a, b)
            | Op::Cat(a, b) => {
                inside(a, v);
                inside(b, v)
            }
            Op::Pad(a, _)
            | Op::Cast(a, _)
            | Op::Shl(a, _)
            | Op::Shr(a, _)
            | Op::Cvt(a)
            | Op::Neg(a)
            | Op::Not(a)
            | Op::AndReduce(a)
            | Op::OrReduce(a)
            | Op::XorReduce(a)
            | Op::Bits(a, _, _)
            | Op::IncPrecision(a, _)
            | Op::DecPrecision(a, _)
            | Op::SetPrecision(a, _) => inside(a, v),
        },
    }
}
fn refs(e: &Er) {
    let mut want = vec![];
    inside(e, &mut want);
    let got: Vec<u32> = e.references().map(number).collect();
    sym::reach(2);
    agree(&got, &want, "the references of an expression are not complete");
}
fn p21_references() {
    let mut n = Names(0);
    let e = any_expr(if sym::thorough() { 4 } else { 3 }, &mut n);
    refs(&e);
}

/// The same entity more than once, and literals only.
fn p21_chain() {
    let x = Names(0).leaf();
    let mut e = if sym::flag() { x.clone() } else { Arc::new(Expression::SIntLiteral { value: 1u8.into(), width: 2 }) };
    for _ in 0..sym::choice(if sym::thorough() { 5 } else { 4 }) {
        e = Arc::new(match sym::choice(5) {
            0 => Op::Xor(e.clone(), e).into(),
            1 => Expression::Mux { sel: x.clone(), a: e.clone(), b: e },
            2 => Expression::SubAccess { base: e.clone(), index: e },
            3 => Op::Neg(e).into(),
            _ => Expression::SubField { base: e, index: "1".into() },
        })
    }
    refs(&e);
}

/// The same expression in several places.
fn p21_shared() {
    let x = Names(0).leaf();
    let mut e = x.clone();
    let n = if sym::thorough() { 3 } else { 2 };
    for i in 0..n {
        let slot = || if sym::flag() { e.clone() } else { x.clone() };
        e = Arc::new(match sym::choice(4) {
            0 => Expression::Mux { sel: slot(), a: slot(), b: slot() },
            1 => Expression::ValidIf { sel: slot(), value: slot() },
            2 => Expression::SubAccess { base: slot(), index: slot() },
            _ => {
                let o = if i + 1 < n { 0 } else { sym::choice(OPS_ALL) };
                op(o, slot(), if binary(o) { slot() } else { x.clone() }, u16_any(), u16_any(), GT::Clock).into()
            }
        });
    }
    refs(&e)
}
/// An expression that contains others very many times.
fn p21_doubled() {
    let n = 8 + sym::choice(if sym::thorough() { 6 } else { 4 });
    let x = Names(0).leaf();
    let k = sym::choice(n);
    let w = sym::choice(3);
    let mut e = x.clone();
    for i in 0..n {
        e = Arc::new(match if i == k { w } else { 2 } {
            0 => Expression::SubAccess { base: e.clone(), index: e },
            1 => Expression::Mux { sel: e.clone(), a: x.clone(), b: e },
            _ => Op::Xor(e.clone(), e).into(),
        });
    }
    let m = if w == 1 { (1 << n) + (1 << (n - 1 - k)) } else { 1 << n };
    sym::check(e.references().count() == m, "the references are not complete")
}

fn wire(n: u32) -> Arc<Entity> {
    ent(Entity::Wire { name: "w".into(), r#type: uint(n as u16) })
}
/// Statements with numbered declarations; `all` collects what is declared,
/// `inst` the instances.
struct Gen {
    all: Vec<u32>,
    inst: Vec<u32>,
}
/// A module with the number in its port.
fn target(n: u32) -> Arc<Module> {
    module_of("N", vec![input("a", uint(n as u16))], vec![])
}
fn target_number(m: &Module) -> u32 {
    m.ports().next().map_or(0x10000, |p| width(p.r#type()))
}
impl Gen {
    fn new() -> Gen {
        Gen { all: vec![], inst: vec![] }
    }
    fn stmt(&mut self, depth: u32) -> Statement {
        let n = u16_any() as u32;
        let cond: Ex = Expression::Reference(wire(0));
        let wide = depth == 1 || sym::thorough();
        match sym::choice(if depth == 0 { 3 } else if wide { 5 } else { 4 }) {
            0 => {
                self.all.push(n);
                decl(&wire(n))
            }
            1 => {
                self.all.push(n);
                self.inst.push(n);
                decl(&ent(Entity::Instance(Instance::new("w".to_string(), target(n)))))
            }
            2 => StmtKind::Connection { from: cond.clone(), to: cond }.into(),
            k => {
                let when = self.list(depth - 1, k - 3);
                let r#else = self.list(depth - 1, 0);
                StmtKind::Conditional { cond, when: when.into(), r#else: r#else.into() }.into()
            }
        }
    }
    fn list(&mut self, depth: u32, min: u32) -> Vec<Statement> {
        let k = min + sym::choice(2);
        (0..k).map(|_| self.stmt(depth)).collect()
    }
}
fn check(s: &Statement, all: &[u32], inst: &[u32]) {
    let got: Vec<u32> = s
        .declarations()
        .map(|e| match e.as_ref() {
            Entity::Wire { r#type, .. } => width(r#type),
            Entity::Instance(i) => target_number(i.module()),
            _ => 1,
        })
        .collect();
    sym::reach(3);
    agree(&got, all, "the declarations of a statement are not complete");
    let got: Vec<u32> = s.instantiations().map(|i| target_number(i.module())).collect();
    agree(&got, inst, "the instantiations of a statement are not complete");
}

/// Every kind of statement at the top.
fn p21_plain() {
    let w = wire(1);
    let clock: Ex = Expression::Reference(wire(0));
    let cond: Ex = Expression::Reference(w.clone());
    let mem = Arc::new(simple::Memory::new("1", vec_t(uint(1), 2), simple::Kind::Combinatory));
    let all = [1];
    let decls = |e: Entity| check(&decl(&ent(e)), &all, &[]);
    let none = |k: StmtKind| check(&k.into(), &[], &[]);
    match sym::choice(13) {
        0 => decls(Entity::Port(input("1", uint(1)))),
        1 => decls(Entity::Register(Register::new("1", uint(1), cond))),
        2 => decls(Entity::Node { name: "1".into(), value: cond }),
        3 => decls(Entity::Memory(mem::Memory::new("1", uint(1), 1))),
        4 => decls(Entity::SimpleMemPort(simple::Port::new("1", mem, None, cond.clone(), cond))),
        5 => none(StmtKind::PartialConnection { from: cond.clone(), to: cond }),
        6 => none(StmtKind::Empty),
        7 => none(StmtKind::Invalidate(cond)),
        8 => none(StmtKind::Attach(vec![cond.clone(), cond])),
        9 => none(StmtKind::Stop { name: Some("1".into()), clock, cond, code: 1 }),
        10 => none(StmtKind::Print { name: None, clock, cond, msg: vec![] }),
        11 => none(StmtKind::SimpleMemDecl(mem)),
        _ => none(StmtKind::Connection { from: cond.clone(), to: cond }),
    }
}

fn p21_statements() {
    let mut g = Gen::new();
    let s = g.stmt(2);
    check(&s, &g.all, &g.inst);
}

/// Alternatives chained through `else`, declarations anywhere.
fn p21_else_chain() {
    let mut g = Gen::new();
    let depth = 1 + sym::choice(if sym::thorough() { 5 } else { 4 });
    let mut tail: Vec<Statement> = g.list(0, 0);
    for _ in 0..depth {
        let when = g.list(0, 0);
        let s = StmtKind::Conditional {
            cond: Expression::Reference(wire(0)),
            when: when.into(),
            r#else: tail.into(),
        };
        tail = vec![s.into()];
    }
    check(&tail[0], &g.all, &g.inst);
}

/// Branches of any content: nothing, something empty, declarations at any place.
fn p21_branches() {
    let mut g = Gen::new();
    let most = if sym::thorough() { 5 } else { 4 };
    let mut branch = |g: &mut Gen| -> Vec<Statement> {
        let n = sym::choice(most);
        (0..n)
            .map(|_| {
                let k = u16_any() as u32;
                match sym::choice(4) {
                    0 => StmtKind::Empty.into(),
                    1 => {
                        g.all.push(k);
                        decl(&wire(k))
                    }
                    2 => {
                        g.all.push(k);
                        g.inst.push(k);
                        decl(&ent(Entity::Instance(Instance::new("w".to_string(), target(k)))))
                    }
                    _ => StmtKind::Conditional { cond: Expression::Reference(wire(0)), when: vec![].into(), r#else: vec![].into() }.into(),
                }
            })
            .collect()
    };
    let (a, b) = (branch(&mut g), branch(&mut g));
    let s = StmtKind::Conditional { cond: Expression::Reference(wire(0)), when: a.into(), r#else: b.into() };
    check(&s.into(), &g.all, &g.inst);
}

/// Modules referenced from a module, once per instance.
fn p21_modules() {
    let (na, nb) = (u16_any() as u32, u16_any() as u32);
    let a = target(na);
    let b = Arc::new(Module::new("B".into(), vec![input("a", uint(nb as u16))], ModKind::empty_external()));
    let inst = |m: &Arc<Module>| decl(&ent(Entity::Instance(Instance::new("i", m.clone()))));
    let k = sym::choice(if sym::thorough() { 4 } else { 3 });
    let mut want = vec![];
    let mut stmts: Vec<Statement> = vec![];
    for _ in 0..k {
        let (m, id) = if sym::flag() { (&a, na) } else { (&b, nb) };
        let s = inst(m);
        match sym::choice(5) {
            0 => stmts.push(s),
            1 => {
                stmts.push(StmtKind::Empty.into());
                continue;
            }
            2 => stmts.push(
                StmtKind::Conditional {
                    cond: Expression::Reference(wire(0)),
                    when: vec![s].into(),
                    r#else: vec![].into(),
                }
                .into(),
            ),
            3 => stmts.push(
                StmtKind::Conditional {
                    cond: Expression::Reference(wire(0)),
                    when: vec![].into(),
                    r#else: vec![StmtKind::Empty.into(), s].into(),
                }
                .into(),
            ),
            _ => {
                want.push(na);
                stmts.push(
                    StmtKind::Conditional {
                        cond: Expression::Reference(wire(0)),
                        when: vec![inst(&a)].into(),
                        r#else: vec![s].into(),
                    }
                    .into(),
                )
            }
        }
        want.push(id);
    }
    let m = module_of("T", vec![], stmts);
    let got: Vec<u32> = m.referenced_modules().map(|m| target_number(m)).collect();
    sym::reach(4);
    agree(&got, &want, "the referenced modules are not complete");
    sym::check(b.referenced_modules().count() == 0, "an external module references modules");
}

// --- large ---
/// Do both lists hold the same (concrete) numbers equally often?
fn agree_large(mut got: Vec<u32>, mut want: Vec<u32>, what: &str) {
    got.sort();
    want.sort();
    sym::check(got == want, what)
}
fn check_large(s: &Statement, g: Gen) {
    let got = s.declarations().map(|e| match e.as_ref() {
        Entity::Wire { r#type, .. } => width(r#type),
        Entity::Instance(i) => target_number(i.module()),
        _ => 1,
    });
    agree_large(got.collect(), g.all, "the declarations of a statement are not complete");
    let got = s.instantiations().map(|i| target_number(i.module()));
    agree_large(got.collect(), g.inst, "the instantiations of a statement are not complete");
    sym::reach(3)
}
/// Many statements in a branch, many instances in a module.
fn p21_many() {
    let n = size();
    let k = spot(n);
    let mut g = Gen::new();
    let mut v: Vec<Statement> = vec![];
    for i in 0..n {
        let m = i as u32;
        match if i == k { sym::choice(4) } else { m % 3 } {
            0 => {
                g.all.push(m);
                v.push(decl(&wire(m)))
            }
            1 => {
                g.all.push(m);
                g.inst.push(m);
                v.push(decl(&ent(Entity::Instance(Instance::new("w".to_string(), target(m))))))
            }
            2 => v.push(StmtKind::Empty.into()),
            _ => {
                g.all.push(5000);
                let s = decl(&wire(5000));
                v.push(StmtKind::Conditional { cond: Expression::Reference(wire(0)), when: vec![].into(), r#else: vec![s].into() }.into())
            }
        }
    }
    let m = module_of("T", vec![], v.clone());
    let got: Vec<u32> = m.referenced_modules().map(|m| target_number(m)).collect();
    agree_large(got, g.inst.clone(), "the referenced modules are not complete");
    let (a, b) = if sym::flag() { (v, vec![]) } else { (vec![], v) };
    let s = StmtKind::Conditional { cond: Expression::Reference(wire(0)), when: a.into(), r#else: b.into() };
    check_large(&s.into(), g)
}
/// Deeply nested statements.
fn p21_far() {
    let n = depth();
    let k = spot(n);
    let mut g = Gen::new();
    let way = sym::choice(4);
    g.all.push(7000);
    g.inst.push(7000);
    let mut v: Vec<Statement> = vec![decl(&ent(Entity::Instance(Instance::new("w".to_string(), target(7000)))))];
    for i in 0..n {
        let mut one = |m: u32| {
            g.all.push(m);
            decl(&wire(m))
        };
        let (a, b) = match if i == k { sym::choice(4) } else { way } {
            0 => (v, vec![]),
            1 => (vec![], v),
            2 => (vec![one(i as u32)], v),
            _ => {
                v.push(one(i as u32));
                (v, vec![one(3)])
            }
        };
        v = vec![StmtKind::Conditional { cond: Expression::Reference(wire(0)), when: a.into(), r#else: b.into() }.into()]
    }
    check_large(&v[0], g)
}
/// Deeply nested expressions.
fn p21_deep() {
    let n = depth();
    let k = spot(n);
    let way = sym::choice(6);
    let mut e = rfn("x", Some(uint(7000)));
    for i in 0..n {
        let mut y = || rfn("y", Some(uint(i as u16)));
        e = Arc::new(match if i == k { sym::choice(6) } else { way } {
            0 => Expression::SubField { base: e, index: "a".into() },
            1 => Expression::SubAccess { base: y(), index: e },
            2 => Expression::SubAccess { base: e, index: y() },
            3 => Expression::Mux { sel: y(), a: e, b: y() },
            4 => Op::Cat(y(), e).into(),
            _ => Expression::ValidIf { sel: e, value: y() },
        })
    }
    let mut want = vec![];
    inside(&e, &mut want);
    sym::reach(2);
    agree_large(e.references().map(number).collect(), want, "the references of an expression are not complete")
}
