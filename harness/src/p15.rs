//! Orientation and passivity.
use super::{sym, util::*};

super::entries! { p15_orient, p15_types, p15_deep, p15_mixed, p15_large }

fn flip(o: Orientation) -> bool {
    o == Orientation::Flipped
}
/// Does the oriented type have the leaves of t, flipped by parity?
fn oriented(t: &Type, parity: bool, o: &OrientedType) -> bool {
    match (t, o) {
        (Type::GroundType(g), OrientedType::GroundType(h, x)) => g == h && flip(*x) == parity,
        (Type::Vector(t, n), OrientedType::Vector(o, m)) => n == m && oriented(t, parity, o),
        (Type::Bundle(f), OrientedType::Bundle(g)) => {
            f.len() == g.len()
                && (0..f.len()).all(|i| {
                    f[i].name() == &g[i].0 && oriented(f[i].r#type(), parity ^ flip(f[i].orientation()), &g[i].1)
                })
        }
        _ => false,
    }
}
fn any_flip(t: &Type) -> bool {
    match t {
        Type::GroundType(_) => false,
        Type::Vector(t, _) => any_flip(t),
        Type::Bundle(f) => f.iter().any(|f| flip(f.orientation()) || any_flip(f.r#type())),
    }
}
fn leaf_flip(t: &OrientedType) -> bool {
    match t {
        OrientedType::GroundType(_, o) => flip(*o),
        OrientedType::Vector(t, _) => leaf_flip(t),
        OrientedType::Bundle(f) => f.iter().any(|(_, t)| leaf_flip(t)),
    }
}

fn p15_orient() {
    let (a, b, c) = (orient_any(), orient_any(), orient_any());
    sym::reach(1);
    sym::check(flip(a + b) == (flip(a) ^ flip(b)), "orientations do not combine like parity");
    sym::check((a + b) + c == a + (b + c), "orientations are not associative");
    sym::check(a + b == b + a, "orientations are not commutative");
    sym::check(Orientation::default() + a == a, "the default orientation is not neutral");
    let f = BundleField::new("f", ground_any()).with_orientation(a);
    let g = f.clone().flipped();
    sym::check(flip(g.orientation()) != flip(a), "flipping a field does not flip it");
    sym::check(g.flipped() == f, "flipping a field twice changes it");
    // the setters change nothing else
    let h = f.clone().with_type(vec_t(clock_t(), 3));
    sym::check(h.orientation() == a && *h.r#type() == vec_t(clock_t(), 3) && &**h.name() == "f", "setting a field's type changes more");
    let h = f.clone().with_orientation(b);
    sym::check(h.orientation() == b && h.r#type() == f.r#type() && h.name() == f.name(), "setting a field's orientation changes more");
    sym::check(flip(BundleField::new("f", clock_t()).orientation()) == false, "a new field is flipped");
}

fn check(t: &Type) {
    let root = orient_any();
    let o = t.with_orientation(root);
    sym::reach(2);
    sym::check(oriented(t, flip(root), &o), "orienting a type misplaces a flip");
    let f = o.flipped();
    sym::check(oriented(t, !flip(root), &f), "flipping a type does not flip every leaf");
    sym::check(f.flipped() == o, "flipping a type twice changes it");
    sym::check(f == t.with_orientation(root + Orientation::Flipped), "flipping differs from orienting the other way");
    sym::check(OrientedType::from(t) == t.with_orientation(Orientation::Normal), "the default orientation is not normal");
    let p = t.is_passive();
    sym::reach(if p { 3 } else { 4 });
    sym::check(p == !any_flip(t), "passivity is wrong");
    sym::check(o.is_passive() == !leaf_flip(&o), "passivity of an oriented type is wrong");
    sym::check(t.ground_type() == if let Type::GroundType(g) = t { Some(*g) } else { None }, "ground type is wrong");
    sym::check(o.ground_type() == t.ground_type(), "ground type of an oriented type is wrong");
}

fn any_type(depth: u32, arity: u32) -> Type {
    match if depth == 0 { 0 } else { sym::choice(3) } {
        0 => match sym::choice(3) {
            0 => GT::Fixed(Some(u16_any()), Some(i16_any())),
            1 => GT::UInt(None),
            _ => GT::Reset(ResetKind::Regular),
        }
        .into(),
        1 => vec_t(any_type(depth - 1, arity), u16_any()),
        _ => {
            let n = sym::choice(arity + 1);
            bundle(
                (0..n)
                    .map(|_| {
                        let t = any_type(depth - 1, arity);
                        BundleField::new(sym::text(1, IDENT), t).with_orientation(orient_any())
                    })
                    .collect(),
            )
        }
    }
}

fn p15_types() {
    check(&any_type(2, 2))
}

/// A long path of nested flips.
fn p15_deep() {
    let depth = 1 + sym::choice(if sym::thorough() { 7 } else { 5 });
    let mut t: Type = GT::SInt(width_any()).into();
    for _ in 0..depth {
        t = match sym::choice(2) {
            0 => vec_t(t, u16_any()),
            _ => bundle(vec![
                BundleField::new("a", clock_t()).with_orientation(orient_any()),
                BundleField::new("b", t).with_orientation(orient_any()),
            ]),
        }
    }
    check(&t)
}

/// Several fields of different kinds.
fn p15_mixed() {
    check(&bundle(mixed_fields(if sym::thorough() { 5 } else { 4 })))
}

// --- large ---
/// Many fields, or deep nesting.
fn p15_large() {
    let (way, n, k) = large_kind();
    let leaf = match sym::choice(2) {
        0 => GT::SInt(width_any()).into(),
        _ => bundle(vec![BundleField::new("z", clock_t()).with_orientation(orient_any())]),
    };
    // with no other flip
    if sym::flag() {
        let o = orient_any();
        let t = match way {
            0 => bundle((0..n).map(|i| BundleField::new(format!("n{}", i), leaf.clone()).with_orientation(if i == k { o } else { Orientation::Normal })).collect()),
            _ => (0..n).fold(leaf, |t, i| match way {
                1 => vec_t(t, i as u16),
                _ => bundle(vec![BundleField::new("a", t).with_orientation(if i == k { o } else { Orientation::Normal })]),
            }),
        };
        return check(&t);
    }
    check(&large(way, n, k, leaf, orient_any()))
}
