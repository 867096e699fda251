//! Builders and comparison helpers shared by the harnesses.
pub use firrtl_ast::circuit::{self, Circuit};
pub use firrtl_ast::error::ParseError;
pub use firrtl_ast::expr::{primitive::Operation as Op, Expression, Flow, Reference};
pub use firrtl_ast::info::WithInfo;
pub use firrtl_ast::memory::common::{PortDir, ReadUnderWrite};
pub use firrtl_ast::memory::{mem, simple, Memory, Register};
pub use firrtl_ast::module::{self, Direction, Instance, Kind as ModKind, Module, ParamValue, Port};
pub use firrtl_ast::named::Named;
pub use firrtl_ast::stmt::{print::Format, print::PrintElement, Entity, Kind as StmtKind, Statement};
pub use firrtl_ast::types::{
    BitWidth, BundleField, Combinator, GroundType as GT, MaxWidth, Orientation, OrientedType,
    ResetKind, SBits, Type, TypeExt, Typed, UBits,
};
pub use std::sync::Arc;

use super::sym;

pub type Ex = Expression<Arc<Entity>>;

pub const IDENT: &str = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_$";
pub const IDENT1: &str = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_$";

/// An identifier of n characters (does not start with a digit).
pub fn ident(n: usize) -> String {
    let mut s = sym::text(1, IDENT1);
    if n > 1 {
        s.push_str(&sym::text(n - 1, IDENT));
    }
    s
}
/// A field name of n characters.
pub fn field_ident(n: usize) -> String {
    sym::text(n, IDENT)
}

pub fn u16_any() -> u16 {
    sym::int(16) as u16
}
pub fn i16_any() -> i16 {
    sym::int(16) as u16 as i16
}
/// Unknown, or any width.
pub fn width_any() -> BitWidth {
    if sym::flag() {
        Some(u16_any())
    } else {
        None
    }
}
pub fn point_any() -> Option<SBits> {
    if sym::flag() {
        Some(i16_any())
    } else {
        None
    }
}

/// Every 16-bit number, prepared for printing and parsing.
pub fn u16_dec() -> u16 {
    sym::upto(65535) as u16
}
pub fn i16_dec() -> i16 {
    if sym::flag() {
        sym::upto(32767) as i16
    } else {
        (-(sym::within(1, 32768) as i32)) as i16
    }
}
pub fn width_dec() -> BitWidth {
    if sym::flag() {
        Some(u16_dec())
    } else {
        None
    }
}
pub fn point_dec() -> Option<SBits> {
    if sym::flag() {
        Some(i16_dec())
    } else {
        None
    }
}

/// The number of wires of a ground type.
pub fn wires(g: &GT) -> BitWidth {
    match g {
        GT::UInt(w) | GT::SInt(w) | GT::Fixed(w, _) | GT::Analog(w) => *w,
        GT::Clock | GT::Reset(_) => Some(1),
    }
}
/// Any ground type, prepared for printing.
pub fn ground_dec() -> GT {
    match sym::choice(7) {
        0 => GT::UInt(width_dec()),
        1 => GT::SInt(width_dec()),
        2 => GT::Fixed(width_dec(), point_dec()),
        3 => GT::Clock,
        4 => GT::Reset(ResetKind::Regular),
        5 => GT::Reset(ResetKind::Async),
        _ => GT::Analog(width_dec()),
    }
}
/// Any ground type.
pub fn ground_any() -> GT {
    match sym::choice(7) {
        0 => GT::UInt(width_any()),
        1 => GT::SInt(width_any()),
        2 => GT::Fixed(width_any(), point_any()),
        3 => GT::Clock,
        4 => GT::Reset(ResetKind::Regular),
        5 => GT::Reset(ResetKind::Async),
        _ => GT::Analog(width_any()),
    }
}

pub fn uint(w: u16) -> Type {
    GT::UInt(Some(w)).into()
}
pub fn clock_t() -> Type {
    GT::Clock.into()
}
pub fn vec_t(t: Type, n: u16) -> Type {
    Type::Vector(Arc::new(t), n)
}
pub fn field(n: &str, t: Type, flip: bool) -> BundleField {
    let f = BundleField::new(n, t);
    if flip {
        f.with_orientation(Orientation::Flipped)
    } else {
        f
    }
}
pub fn bundle(f: Vec<BundleField>) -> Type {
    Type::Bundle(f.into())
}

pub fn port(n: &str, t: Type, d: Direction) -> Arc<Port> {
    Arc::new(Port::new(n, t, d))
}
pub fn input(n: &str, t: Type) -> Arc<Port> {
    port(n, t, Direction::Input)
}
pub fn output(n: &str, t: Type) -> Arc<Port> {
    port(n, t, Direction::Output)
}
pub fn module_of(name: &str, ports: Vec<Arc<Port>>, stmts: Vec<Statement>) -> Arc<Module> {
    Arc::new(Module::new(name.into(), ports, ModKind::Regular { stmts }))
}
pub fn circuit_of(ports: Vec<Arc<Port>>, stmts: Vec<Statement>) -> Circuit {
    Circuit::new(module_of("M", ports, stmts))
}
pub fn ent(e: Entity) -> Arc<Entity> {
    Arc::new(e)
}
pub fn decl(e: &Arc<Entity>) -> Statement {
    StmtKind::Declaration(e.clone()).into()
}

/// Parses; the caller's log records whether that worked.
pub fn parse(s: &str) -> Result<Circuit, ParseError> {
    circuit::parse(s)
}

/// Prints a circuit, reads it back and compares.
pub fn round_trip(c: &Circuit, what: &str) {
    let s = c.to_string();
    sym::log(&s);
    match parse(&s) {
        Ok(d) => {
            sym::reach(1);
            if d != *c {
                sym::fail(what);
            }
        }
        Err(_) => sym::fail("printed text is not accepted"),
    }
}

/// A reference with a freely chosen type and flow.
#[derive(Clone, Debug, PartialEq)]
pub struct R {
    pub name: Arc<str>,
    pub ty: Option<Type>,
    pub flow: Option<Flow>,
}
impl Named for R {
    type Name = Arc<str>;
    fn name(&self) -> &Arc<str> {
        &self.name
    }
}
impl Reference for R {
    fn flow(&self) -> Option<Flow> {
        self.flow
    }
}
impl Typed for R {
    type Err = ();
    type Type = Type;
    fn r#type(&self) -> Result<Type, ()> {
        self.ty.clone().ok_or(())
    }
}
pub type Er = Expression<R>;
pub fn rf(t: Type) -> Arc<Er> {
    rfn("x", Some(t))
}
pub fn rfn(name: &str, ty: Option<Type>) -> Arc<Er> {
    Arc::new(Expression::Reference(R { name: name.into(), ty, flow: Some(Flow::Duplex) }))
}

pub const OPS: u32 = 31;
/// The operation number k (in declaration order).
pub fn op<T: Reference>(k: u32, a: Arc<Expression<T>>, b: Arc<Expression<T>>, n: u16, m: u16, t: GT) -> Op<T> {
    match k {
        0 => Op::Add(a, b),
        1 => Op::Sub(a, b),
        2 => Op::Mul(a, b),
        3 => Op::Div(a, b),
        4 => Op::Rem(a, b),
        5 => Op::Lt(a, b),
        6 => Op::LEq(a, b),
        7 => Op::Gt(a, b),
        8 => Op::GEq(a, b),
        9 => Op::Eq(a, b),
        10 => Op::NEq(a, b),
        11 => Op::Pad(a, n),
        12 => Op::Cast(a, t),
        13 => Op::Shl(a, n),
        14 => Op::Shr(a, n),
        15 => Op::DShl(a, b),
        16 => Op::DShr(a, b),
        17 => Op::Cvt(a),
        18 => Op::Neg(a),
        19 => Op::Not(a),
        20 => Op::And(a, b),
        21 => Op::Or(a, b),
        22 => Op::Xor(a, b),
        23 => Op::AndReduce(a),
        24 => Op::OrReduce(a),
        25 => Op::XorReduce(a),
        26 => Op::Cat(a, b),
        27 => Op::IncPrecision(a, n),
        28 => Op::DecPrecision(a, n),
        29 => Op::SetPrecision(a, n as i16),
        30 => Op::Bits(a, Some(n), Some(m)),
        31 => Op::Bits(a, None, Some(n)),
        _ => Op::Bits(a, Some(n), None),
    }
}
/// All operations, `bits` in its three forms.
pub const OPS_ALL: u32 = 33;
pub fn binary(k: u32) -> bool {
    k <= 10 || k == 15 || k == 16 || (20..=22).contains(&k) || k == 26
}

/// An orientation that stays symbolic.
pub fn orient_any() -> Orientation {
    let b = (sym::int(1) & 1) as u8;
    // 0 and 1 are the two variants
    unsafe { std::mem::transmute::<u8, Orientation>(b) }
}

/// Do the types agree except for widths, with u stating everything t does?
pub fn refines(t: &Type, u: &Type) -> bool {
    match (t, u) {
        (Type::GroundType(a), Type::GroundType(b)) => ground_refines(a, b),
        (Type::Vector(a, n), Type::Vector(b, m)) => n == m && refines(a, b),
        (Type::Bundle(a), Type::Bundle(b)) => {
            a.len() == b.len()
                && a.iter().zip(b.iter()).all(|(f, g)| {
                    f.name() == g.name() && f.orientation() == g.orientation() && refines(f.r#type(), g.r#type())
                })
        }
        _ => false,
    }
}
fn w_refines<T: PartialEq>(a: &Option<T>, b: &Option<T>) -> bool {
    a.is_none() || a == b
}
pub fn ground_refines(a: &GT, b: &GT) -> bool {
    match (a, b) {
        (GT::UInt(a), GT::UInt(b)) => w_refines(a, b),
        (GT::SInt(a), GT::SInt(b)) => w_refines(a, b),
        (GT::Analog(a), GT::Analog(b)) => w_refines(a, b),
        (GT::Fixed(a, p), GT::Fixed(b, q)) => w_refines(a, b) && w_refines(p, q),
        (GT::Clock, GT::Clock) => true,
        (GT::Reset(ResetKind::Regular), GT::Reset(ResetKind::Regular)) => true,
        (GT::Reset(ResetKind::Async), GT::Reset(ResetKind::Async)) => true,
        _ => false,
    }
}
/// Fills every unknown width with an arbitrary one.
pub fn instantiate(g: &GT) -> GT {
    let w = |w: BitWidth| Some(match w {
        Some(w) => w,
        None => u16_any(),
    });
    match *g {
        GT::UInt(x) => GT::UInt(w(x)),
        GT::SInt(x) => GT::SInt(w(x)),
        GT::Analog(x) => GT::Analog(w(x)),
        GT::Fixed(x, p) => GT::Fixed(w(x), Some(match p {
            Some(p) => p,
            None => i16_any(),
        })),
        g => g,
    }
}

/// The narrowest format for both, in unbounded arithmetic.
pub fn format(lw: u16, lp: i16, rw: u16, rp: i16) -> (i32, i32) {
    let (lw, lp, rw, rp) = (lw as i32, lp as i32, rw as i32, rp as i32);
    let int = if lw - lp > rw - rp { lw - lp } else { rw - rp };
    let frac = if lp > rp { lp } else { rp };
    (int + frac, frac)
}

/// Leaf-wise larger width.
pub fn ground_max(a: &GT, b: &GT) -> Option<GT> {
    let m = |a: &BitWidth, b: &BitWidth| match (a, b) {
        (Some(a), Some(b)) => Some(if a > b { *a } else { *b }),
        _ => None,
    };
    match (a, b) {
        (GT::UInt(a), GT::UInt(b)) => Some(GT::UInt(m(a, b))),
        (GT::SInt(a), GT::SInt(b)) => Some(GT::SInt(m(a, b))),
        (GT::Analog(a), GT::Analog(b)) => Some(GT::Analog(m(a, b))),
        (GT::Clock, GT::Clock) => Some(GT::Clock),
        (GT::Reset(ResetKind::Regular), GT::Reset(ResetKind::Regular)) => Some(*a),
        (GT::Reset(ResetKind::Async), GT::Reset(ResetKind::Async)) => Some(*a),
        (GT::Fixed(Some(lw), Some(lp)), GT::Fixed(Some(rw), Some(rp))) => {
            let (w, p) = format(*lw, *lp, *rw, *rp);
            let w = if (0..=65535).contains(&w) { Some(w as u16) } else { None };
            Some(GT::Fixed(w, Some(p as i16)))
        }
        (GT::Fixed(..), GT::Fixed(..)) => Some(GT::Fixed(None, None)),
        _ => None,
    }
}
pub fn same<T>(a: &T, b: &T) -> bool {
    std::ptr::eq(a, b)
}

pub fn type_max(a: &Type, b: &Type) -> Option<Type> {
    match (a, b) {
        (Type::GroundType(a), Type::GroundType(b)) => ground_max(a, b).map(Into::into),
        (Type::Vector(a, n), Type::Vector(b, m)) => {
            if n == m {
                type_max(a, b).map(|t| vec_t(t, *n))
            } else {
                None
            }
        }
        (Type::Bundle(a), Type::Bundle(b)) => {
            if a.len() != b.len() {
                return None;
            }
            let mut v = vec![];
            for i in 0..a.len() {
                if a[i].name() != b[i].name() || a[i].orientation() != b[i].orientation() {
                    return None;
                }
                let t = type_max(a[i].r#type(), b[i].r#type())?;
                v.push(BundleField::new(a[i].name().clone(), t).with_orientation(a[i].orientation()));
            }
            Some(bundle(v))
        }
        _ => None,
    }
}

fn look_expr(e: &Ex) -> u64 {
    let mut n = 0;
    if let Ok(t) = e.r#type() {
        n += 1;
        let _ = t.is_passive();
    }
    if e.flow().is_ok() {
        n += 1
    }
    n + e.references().count() as u64 + e.to_string().len() as u64
}
fn look_stmt(s: &Statement) -> u64 {
    let mut n = 0;
    match s.kind() {
        StmtKind::Connection { from, to } | StmtKind::PartialConnection { from, to } => {
            n += look_expr(from) + look_expr(to)
        }
        StmtKind::Empty => {}
        StmtKind::Declaration(d) => {
            if d.r#type().is_ok() {
                n += 1
            }
            n += d.name().len() as u64;
            if d.flow().is_some() {
                n += 1
            }
            match d.as_ref() {
                Entity::Node { value, .. } => n += look_expr(value),
                Entity::Register(r) => {
                    n += look_expr(r.clock());
                    if let (Some(a), Some(b)) = (r.reset_signal(), r.reset_value()) {
                        n += look_expr(a) + look_expr(b)
                    }
                }
                Entity::SimpleMemPort(p) => n += look_expr(p.address()) + look_expr(p.clock()),
                _ => {}
            }
        }
        StmtKind::SimpleMemDecl(m) => n += m.name().len() as u64,
        StmtKind::Invalidate(e) => n += look_expr(e),
        StmtKind::Attach(v) => n += v.iter().map(look_expr).sum::<u64>(),
        StmtKind::Conditional { cond, when, r#else } => {
            n += look_expr(cond);
            n += when.iter().chain(r#else.iter()).map(look_stmt).sum::<u64>()
        }
        StmtKind::Stop { clock, cond, .. } => n += look_expr(clock) + look_expr(cond),
        StmtKind::Print { clock, cond, msg, .. } => {
            n += look_expr(clock) + look_expr(cond);
            for m in msg {
                if let PrintElement::Value(e, _) = m {
                    n += look_expr(e)
                }
            }
        }
    }
    n + s.declarations().count() as u64 + s.instantiations().count() as u64 + s.info().map_or(0, |i| i.len()) as u64
}
/// Looks at everything in a circuit.
pub fn inspect(c: &Circuit) -> u64 {
    let mut n = c.to_string().len() as u64;
    let m = c.top_module();
    n += m.referenced_modules().count() as u64;
    for m in m.referenced_modules().chain(Some(m)) {
        for p in m.ports() {
            n += p.r#type().to_string().len() as u64 + p.r#type().is_passive() as u64;
            if let Some(q) = m.port_by_name(p.name()) {
                n += q.name().len() as u64
            }
        }
        n += m.statements().iter().map(look_stmt).sum::<u64>();
    }
    n
}
/// One character of k bytes, every one there is.
pub fn wide_char(k: u32) -> String {
    let r = |lo: u8, hi: u8| sym::from_set(1, &(lo..=hi).collect::<Vec<u8>>())[0];
    let c = || r(0x80, 0xbf);
    let v = match k {
        2 => vec![r(0xc2, 0xdf), c()],
        3 => match sym::choice(4) {
            0 => vec![0xe0, r(0xa0, 0xbf), c()],
            1 => vec![r(0xe1, 0xec), c(), c()],
            2 => vec![0xed, r(0x80, 0x9f), c()],
            _ => vec![r(0xee, 0xef), c(), c()],
        },
        _ => match sym::choice(3) {
            0 => vec![0xf0, r(0x90, 0xbf), c(), c()],
            1 => vec![r(0xf1, 0xf3), c(), c(), c()],
            _ => vec![0xf4, r(0x80, 0x8f), c(), c()],
        },
    };
    // the encodings above are exactly the valid ones
    unsafe { String::from_utf8_unchecked(v) }
}

/// A size well beyond that of the small cases.
pub fn size() -> usize {
    let v = [7, 11, 18, 34, 66, 130, 260, 520, 1030, 2060];
    v[sym::choice(if sym::thorough() { 10 } else { 9 }) as usize]
}
/// The same, up to half of it in the quick tier.
pub fn half_size() -> usize {
    let v = [7, 11, 18, 34, 66, 130, 260, 520, 1030, 2060];
    v[sym::choice(if sym::thorough() { 10 } else { 8 }) as usize]
}
/// A depth of nesting.
pub fn depth() -> usize {
    let v = [7, 11, 18, 34, 66, 130];
    v[sym::choice(if sym::thorough() { 6 } else { 5 }) as usize]
}
/// The first of n places, one in the middle, or the last.
pub fn spot(n: usize) -> usize {
    match sym::choice(3) {
        0 => 0,
        1 => n / 2,
        _ => n - 1,
    }
}
/// A text of n characters, all but one of them fixed.
pub fn long_text(n: usize, set: &str) -> String {
    let k = spot(n);
    let fixed = |i: usize| (b'a' + (i * 7 % 26) as u8) as char;
    let mut s: String = (0..k).map(fixed).collect();
    s.push_str(&sym::text(1, set));
    s.extend((k + 1..n).map(fixed));
    s
}
/// A name of n characters, all but one of them fixed.
pub fn long_name(n: usize) -> String {
    let s = long_text(n, IDENT);
    sym::assume(!s.as_bytes()[0].is_ascii_digit());
    s
}
/// n names, of which one is free.
pub fn names(n: usize) -> Vec<String> {
    let k = spot(n);
    (0..n).map(|i| if i == k { format!("{}_", ident(1)) } else { format!("n{}", i) }).collect()
}

/// A large type with `leaf` at one place: many fields, or deep.  Some of the
/// other fields are flipped, the one at the place k is if o is.
pub fn large(way: u32, n: usize, k: usize, leaf: Type, o: Orientation) -> Type {
    let flip = |i: usize| if i % 3 == 1 { Orientation::Flipped } else { Orientation::Normal };
    if way == 0 {
        let f = (0..n).map(|i| {
            if i == k {
                BundleField::new("x", leaf.clone()).with_orientation(o)
            } else {
                BundleField::new(format!("n{}", i), uint(i as u16)).with_orientation(flip(i))
            }
        });
        return bundle(f.collect());
    }
    let mut t = leaf;
    for i in 0..n {
        let vec = way == 1 || way == 2 && i % 2 == 0;
        t = if vec && i != k {
            vec_t(t, (i + 1) as u16)
        } else {
            let y = BundleField::new("y", clock_t()).with_orientation(flip(i + 1));
            let x = BundleField::new("x", t).with_orientation(if i == k { o } else { flip(i) });
            bundle(if i % 2 == 0 { vec![x, y] } else { vec![y, x] })
        }
    }
    t
}
/// How to get from a large type to its leaf, from the outside in: a field, or
/// an element.
pub fn large_path(way: u32, n: usize, k: usize) -> Vec<bool> {
    if way == 0 {
        return vec![true];
    }
    (0..n).rev().map(|i| !((way == 1 || way == 2 && i % 2 == 0) && i != k)).collect()
}
/// Is the leaf flipped?
pub fn large_odd(way: u32, n: usize, k: usize, o: bool) -> bool {
    if way == 0 {
        return o;
    }
    let mut odd = false;
    for i in 0..n {
        let vec = way == 1 || way == 2 && i % 2 == 0;
        odd ^= if i == k { o } else { !vec && i % 3 == 1 }
    }
    odd
}
/// The way, a size for it and a place.
pub fn large_kind() -> (u32, usize, usize) {
    let way = sym::choice(4);
    let n = if way == 0 { size() } else { depth() };
    (way, n, spot(n))
}

/// A type of one of several kinds.
pub fn mixed_type() -> Type {
    match sym::choice(6) {
        0 => GT::SInt(Some(5)).into(),
        1 => GT::Analog(None).into(),
        2 => vec_t(GT::Fixed(Some(3), None).into(), 3),
        3 => vec_t(bundle(vec![BundleField::new("z", clock_t()).with_orientation(orient_any())]), 2),
        4 => bundle(vec![BundleField::new("z", GT::Reset(ResetKind::Async)).with_orientation(orient_any())]),
        _ => bundle(vec![]),
    }
}
/// A bundle of up to `most` fields of different kinds.
pub fn mixed_fields(most: u32) -> Vec<BundleField> {
    let n = sym::choice(most + 1);
    (0..n).map(|i| BundleField::new(["a", "b", "c", "d", "e"][i as usize], mixed_type()).with_orientation(orient_any())).collect()
}
