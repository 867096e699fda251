//! Types survive printing and parsing.
use super::{sym, util::*};

super::entries! { p01_ground, p01_vector, p01_names, p01_shape, p01_mixed, p01_long, p01_many, p01_far }

fn check(t: Type) {
    let c = circuit_of(vec![input("p", t)], vec![]);
    round_trip(&c, "type changed");
}

/// Every ground type with every width and point.
fn p01_ground() {
    check(ground_dec().into())
}

/// Vectors of every size, nested.
fn p01_vector() {
    let mut t: Type = GT::UInt(width_dec()).into();
    for _ in 0..1 + sym::choice(if sym::thorough() { 3 } else { 2 }) {
        t = vec_t(t, u16_dec());
    }
    check(t)
}

/// Every field name.
fn p01_names() {
    let n = 1 + sym::choice(if sym::thorough() { 6 } else { 5 }) as usize;
    let a = field_ident(n);
    let flip = sym::flag();
    let inner = match sym::choice(3) {
        0 => GT::Clock.into(),
        1 => vec_t(GT::SInt(None).into(), 3),
        _ => bundle(vec![field(&field_ident(2), GT::Clock.into(), sym::flag())]),
    };
    check(bundle(vec![field(&a, inner, flip)]))
}

fn shape(depth: u32, names: &mut u32) -> Type {
    let n = if depth == 0 { 3 } else { 6 };
    match sym::choice(n) {
        0 => GT::UInt(None).into(),
        1 => GT::Fixed(None, Some(-3)).into(),
        2 => GT::Reset(ResetKind::Async).into(),
        3 => vec_t(shape(depth - 1, names), 7),
        _ => {
            let k = sym::choice(3);
            let f = (0..k)
                .map(|i| {
                    let flip = sym::flag();
                    *names += 1;
                    let name = ["a", "flip", "UInt", "_x", "0", "Clock", "b$", "input"][(*names % 8) as usize];
                    let name = if i > 0 { format!("{}{}", name, i) } else { name.to_string() };
                    field(&name, shape(depth - 1, names), flip)
                })
                .collect();
            bundle(f)
        }
    }
}

/// Every nesting of vectors and bundles.
fn p01_shape() {
    check(shape(if sym::thorough() { 3 } else { 2 }, &mut 0))
}

/// Long field names.
fn p01_long() {
    let n = size();
    let a = long_name(n);
    check(bundle(vec![field(&a, GT::Clock.into(), sym::flag()), field("b", uint(1), false)]))
}
/// Bundles of many fields.
fn p01_many() {
    let n = size();
    let k = spot(n);
    let f = names(n)
        .iter()
        .enumerate()
        .map(|(i, s)| {
            let t = if i == k { ground_kind() } else { uint((i % 100) as u16) };
            field(s, t, if i == k { sym::flag() } else { i % 3 == 1 })
        })
        .collect();
    check(bundle(f))
}
fn ground_kind() -> Type {
    match sym::choice(6) {
        0 => GT::SInt(None).into(),
        1 => GT::Fixed(Some(3), Some(-2)).into(),
        2 => GT::Reset(ResetKind::Async).into(),
        3 => GT::Analog(Some(7)).into(),
        4 => bundle(vec![]),
        _ => vec_t(uint(3), 4),
    }
}
/// Deeply nested.
fn p01_far() {
    let n = depth();
    let k = spot(n);
    let way = sym::choice(3);
    let mut t = ground_kind();
    for i in 0..n {
        let v = if i == k { sym::flag() } else { way == 0 || way == 1 && i % 2 == 0 };
        t = if v {
            vec_t(t, (i + 2) as u16)
        } else {
            bundle(vec![field("a", uint(2), i % 2 == 0), field("b", t, i % 3 == 0)])
        };
    }
    check(t)
}
/// Several fields of different kinds.
fn p01_mixed() {
    let b = bundle(mixed_fields(if sym::thorough() { 4 } else { 3 }));
    check(if sym::flag() { vec_t(b, 2) } else { b })
}
