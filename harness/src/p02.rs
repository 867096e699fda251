//! Expressions survive printing and parsing.
use super::{sym, util::*};
use num_bigint::{BigInt, BigUint};

super::entries! { p02_ops, p02_names, p02_select, p02_uint, p02_sint, p02_big, p02_nested, p02_places, p02_long, p02_far }

struct Env {
    ports: Vec<Arc<Port>>,
    ents: Vec<Arc<Entity>>,
}
fn env(names: &[&str]) -> Env {
    let ports: Vec<_> = names.iter().map(|n| input(n, uint(1))).collect();
    let ents = ports.iter().map(|p| ent(Entity::Port(p.clone()))).collect();
    Env { ports, ents }
}
impl Env {
    fn r(&self, i: usize) -> Arc<Ex> {
        Arc::new(Expression::Reference(self.ents[i].clone()))
    }
    fn check(self, e: Ex) {
        let n = ent(Entity::Node { name: "n".into(), value: e });
        round_trip(&circuit_of(self.ports, vec![decl(&n)]), "expression changed")
    }
}

/// An operation that can be written: casts lose the width of the target and
/// exist for some kinds only.
pub fn op_dec(o: u32, a: Arc<Ex>, b: Arc<Ex>) -> Op<Arc<Entity>> {
    match o {
        12 => Op::Cast(
            a,
            match sym::choice(5) {
                0 => GT::UInt(None),
                1 => GT::SInt(None),
                2 => GT::Fixed(None, Some(i16_dec())),
                3 => GT::Clock,
                _ => GT::Reset(ResetKind::Async),
            },
        ),
        29 => Op::SetPrecision(a, i16_dec()),
        // one of both constants free at a time
        30 => {
            let (l, h) = if sym::flag() { (u16_dec(), 7) } else { (7, u16_dec()) };
            Op::Bits(a, Some(l), Some(h))
        }
        _ if binary(o) || (17..=19).contains(&o) || (23..=25).contains(&o) => op(o, a, b, 0, 0, GT::Clock),
        _ => op(o, a, b, u16_dec(), 0, GT::Clock),
    }
}

/// Every operation with every constant.
fn p02_ops() {
    let e = env(&["a", "b"]);
    let o = sym::choice(OPS_ALL);
    let (a, b) = (e.r(0), e.r(1));
    let x = if sym::flag() { op_dec(o, a, b) } else { op_dec(o, b, a) };
    e.check(x.into())
}

/// Every name, next to another one.
fn p02_names() {
    let n = 1 + sym::choice(if sym::thorough() { 5 } else { 4 }) as usize;
    let s = match sym::choice(3) {
        0 => ident(n),
        1 => {
            let k = ["mux", "validif", "UInt", "SInt", "add", "bits", "is", "not", "when", "inst", "a"];
            let k = k[sym::choice(k.len() as u32) as usize];
            // a keyword and something behind it
            if sym::flag() {
                format!("{}{}", k, sym::text(1, IDENT))
            } else {
                k.to_string()
            }
        }
        _ => format!("a{}", sym::text(n - 1, IDENT)),
    };
    sym::assume(s != "n");
    let e = env(&[&s, "aa"]);
    sym::assume(s != "aa");
    let (a, b) = (e.r(0), e.r(1));
    let x = match sym::choice(6) {
        0 => Expression::Reference(e.ents[0].clone()),
        1 => Op::Sub(a, b).into(),
        2 => Expression::SubField { base: a, index: "x".into() },
        3 => Expression::SubIndex { base: a, index: 1 },
        4 => Expression::SubAccess { base: b, index: a },
        _ => Expression::ValidIf { sel: b, value: a },
    };
    e.check(x)
}

/// Selections: every field name, every index.
fn p02_select() {
    let e = env(&["a", "b"]);
    let base = match sym::choice(5) {
        0 => e.r(0),
        1 => Arc::new(Expression::SubField { base: e.r(0), index: "0".into() }),
        2 => Arc::new(Expression::SubIndex { base: e.r(0), index: 0 }),
        3 => Arc::new(Expression::SubAccess { base: e.r(0), index: e.r(1) }),
        // not only references can be selected from
        _ => Arc::new(Expression::Mux { sel: e.r(0), a: e.r(1), b: e.r(0) }),
    };
    let x = match sym::choice(4) {
        0 => {
            let n = 1 + sym::choice(if sym::thorough() { 4 } else { 3 }) as usize;
            Expression::SubField { base, index: field_ident(n).into() }
        }
        1 => Expression::SubIndex { base, index: u16_dec() },
        2 => Expression::SubAccess {
            base,
            index: match sym::choice(4) {
                0 => e.r(1),
                1 => Arc::new(Expression::UIntLiteral { value: u16_dec().into(), width: 16 }),
                2 => Arc::new(Expression::SubIndex { base: e.r(1), index: u16_dec() }),
                _ => Arc::new(Op::Pad(e.r(1), u16_dec()).into()),
            },
        },
        _ => Expression::SubAccess {
            base: e.r(1),
            index: Arc::new(Expression::SubAccess { base: e.r(1), index: base }),
        },
    };
    e.check(x)
}

fn wide() -> u64 {
    if sym::thorough() {
        9_999_999
    } else {
        99_999
    }
}
fn p02_uint() {
    let e = env(&["a"]);
    let (value, width) = match sym::choice(2) {
        0 => (BigUint::from(sym::upto(wide())), 64),
        _ => (BigUint::from(5u8), u16_dec()),
    };
    e.check(Expression::UIntLiteral { value, width })
}
fn p02_sint() {
    let e = env(&["a"]);
    let (value, width) = match sym::choice(3) {
        0 => (BigInt::from(sym::upto(wide())), 64),
        1 => (-BigInt::from(sym::within(1, wide())), 64),
        _ => (BigInt::from(-5), u16_dec()),
    };
    e.check(Expression::SIntLiteral { value, width })
}
/// Literals of several machine words.
fn p02_big() {
    let e = env(&["a"]);
    let s = 64 * (1 + sym::choice(if sym::thorough() { 5 } else { 3 }));
    let v = (BigUint::from(sym::choice(3)) << s) + BigUint::from(sym::choice(3));
    let x = match sym::choice(3) {
        0 => Expression::UIntLiteral { value: v, width: 333 },
        1 => Expression::SIntLiteral { value: v.into(), width: 333 },
        _ => Expression::SIntLiteral { value: -BigInt::from(v), width: 333 },
    };
    e.check(x)
}

fn any_expr(e: &Env, depth: u32, wide: bool) -> Arc<Ex> {
    let leaf = || e.r(sym::choice(2) as usize);
    if depth == 0 {
        return if wide && sym::choice(3) == 0 {
            Arc::new(Expression::UIntLiteral { value: 3u8.into(), width: 2 })
        } else {
            leaf()
        };
    }
    let sub = || any_expr(e, depth - 1, wide);
    Arc::new(match sym::choice(10) {
        0 => Expression::SubField { base: sub(), index: "x".into() },
        1 => Expression::SubIndex { base: sub(), index: 2 },
        2 => Expression::SubAccess { base: sub(), index: e.r(1) },
        3 => Expression::SubAccess { base: e.r(0), index: sub() },
        4 => {
            let mut v = [e.r(0), e.r(1), e.r(0)];
            v[sym::choice(3) as usize] = sub();
            let [sel, a, b] = v;
            Expression::Mux { sel, a, b }
        }
        5 => Expression::ValidIf { sel: sub(), value: e.r(1) },
        6 => Expression::ValidIf { sel: e.r(1), value: sub() },
        7 => Expression::SIntLiteral { value: (-1i8).into(), width: 1 },
        _ => {
            let o = if depth > 1 && !wide {
                [0, 11, 17, 30][sym::choice(4) as usize]
            } else {
                sym::choice(OPS_ALL)
            };
            let (a, b) = if sym::flag() { (sub(), e.r(1)) } else { (e.r(0), sub()) };
            op(o, a, b, 1, 2, GT::Clock).into()
        }
    })
}
/// Every expression inside every other.
fn p02_nested() {
    let e = env(&["a", "b"]);
    let d = if sym::thorough() { 3 } else { 2 };
    let x = any_expr(&e, d, !sym::thorough());
    let x = Expression::clone(&x);
    e.check(x)
}

/// The same in every place where an expression can stand.
fn p02_places() {
    let e = env(&["a", "b"]);
    let o = sym::choice(OPS_ALL);
    let x: Ex = match sym::choice(4) {
        0 => Expression::clone(&e.r(0)),
        1 => Expression::SubIndex { base: e.r(1), index: 1 },
        2 => Expression::UIntLiteral { value: 3u8.into(), width: 2 },
        _ => op(o, e.r(0), e.r(1), 1, 2, GT::SInt(None)).into(),
    };
    let y = Expression::Reference(e.ents[1].clone());
    let k: StmtKind = match sym::choice(9) {
        0 => StmtKind::Connection { from: x, to: y },
        1 => StmtKind::Connection { from: y, to: x },
        2 => StmtKind::PartialConnection { from: x, to: y },
        3 => StmtKind::PartialConnection { from: y, to: x },
        4 => StmtKind::Invalidate(x),
        5 => StmtKind::Attach(vec![y, x]),
        6 => StmtKind::Stop { name: None, clock: x, cond: y, code: 1 },
        7 => StmtKind::Print { name: None, clock: y, cond: x, msg: vec![PrintElement::Literal("t".into())] },
        _ => StmtKind::Conditional { cond: x, when: vec![StmtKind::Empty.into()].into(), r#else: vec![].into() },
    };
    round_trip(&circuit_of(e.ports, vec![k.into()]), "expression changed")
}

/// Long names of entities and fields.
fn p02_long() {
    let n = size();
    let s = long_name(n);
    let e = env(&[&*s, "b"]);
    let (a, b) = (e.r(0), e.r(1));
    let x = match sym::choice(4) {
        0 => Expression::SubField { base: b, index: s.into() },
        1 => Expression::SubIndex { base: a, index: 3 },
        2 => Expression::SubAccess { base: b, index: a },
        _ => Op::Add(a, b).into(),
    };
    e.check(x)
}
/// Deeply nested expressions of one kind each, one of them different.
fn p02_far() {
    let e = env(&["a", "b"]);
    let n = depth();
    let k = spot(n);
    let way = sym::choice(10);
    let side = sym::choice(2) == 1;
    let mut x = e.r(0);
    for i in 0..n {
        let y = e.r(1);
        let w = if i == k { sym::choice(10) } else { way };
        x = Arc::new(match w {
            0 => Expression::SubField { base: x, index: format!("f{}", i).into() },
            1 => Expression::SubIndex { base: x, index: i as u16 },
            2 if side => Expression::SubAccess { base: x, index: y },
            2 => Expression::SubAccess { base: y, index: x },
            3 if side => Expression::Mux { sel: y.clone(), a: x, b: y },
            3 => Expression::Mux { sel: y.clone(), a: y, b: x },
            4 => Expression::Mux { sel: x, a: y.clone(), b: y },
            5 if side => Expression::ValidIf { sel: y, value: x },
            5 => Expression::ValidIf { sel: x, value: y },
            6 => Op::Not(x).into(),
            7 => Op::Bits(x, Some(1), Some(i as u16 + 2)).into(),
            8 => Op::Pad(x, i as u16).into(),
            _ if side => Op::Cat(y, x).into(),
            _ => Op::Cat(x, y).into(),
        });
    }
    e.check((*x).clone())
}
