//! Type equivalence and weak equivalence.
use super::{sym, util::*};

super::entries! { p14_ground, p14_pairs, p14_weak, p14_transitive, p14_nested, p14_names, p14_wide, p14_leaf, p14_oriented, p14_mixed, p14_large, p14_long }

pub fn leaf(k: u32) -> GT {
    match sym::choice(k) {
        0 => GT::UInt(width_any()),
        1 => GT::Reset(ResetKind::Regular),
        2 => GT::Reset(ResetKind::Async),
        3 => GT::Clock,
        4 => GT::SInt(width_any()),
        5 => GT::Fixed(width_any(), point_any()),
        _ => GT::Analog(width_any()),
    }
}
fn kind(g: &GT) -> u32 {
    match g {
        GT::UInt(_) => 0,
        GT::SInt(_) => 1,
        GT::Fixed(..) => 2,
        GT::Clock => 3,
        GT::Reset(ResetKind::Regular) => 4,
        GT::Reset(ResetKind::Async) => 5,
        GT::Analog(_) => 6,
    }
}
/// Field names of one symbolic letter, symbolic flips and vector sizes.
pub fn any_type(depth: u32, leaves: u32, arity: u32) -> Type {
    match if depth == 0 { 0 } else { sym::choice(3) } {
        0 => leaf(leaves).into(),
        1 => vec_t(any_type(depth - 1, leaves, arity), u16_any()),
        _ => {
            let n = sym::choice(arity + 1);
            let fs = (0..n)
                .map(|_| {
                    let t = any_type(depth - 1, leaves, arity);
                    BundleField::new(sym::text(1, "ab"), t).with_orientation(orient_any())
                })
                .collect();
            bundle(fs)
        }
    }
}
/// Equivalence as the specification has it.
fn equal(a: &Type, b: &Type) -> bool {
    match (a, b) {
        (Type::GroundType(a), Type::GroundType(b)) => kind(a) == kind(b),
        (Type::Vector(a, n), Type::Vector(b, m)) => n == m && equal(a, b),
        (Type::Bundle(a), Type::Bundle(b)) => {
            if a.len() != b.len() {
                return false;
            }
            for i in 0..a.len() {
                if a[i].name() != b[i].name()
                    || a[i].orientation() != b[i].orientation()
                    || !equal(a[i].r#type(), b[i].r#type())
                {
                    return false;
                }
            }
            true
        }
        _ => false,
    }
}
/// Equivalence with flips counted at the leaves.
fn weak(a: &Type, fa: bool, b: &Type, fb: bool) -> bool {
    let flip = |o: Orientation| o == Orientation::Flipped;
    match (a, b) {
        (Type::GroundType(a), Type::GroundType(b)) => kind(a) == kind(b) && fa == fb,
        (Type::Vector(a, n), Type::Vector(b, m)) => n == m && weak(a, fa, b, fb),
        (Type::Bundle(a), Type::Bundle(b)) => {
            a.len() == b.len()
                && (0..a.len()).all(|i| {
                    a[i].name() == b[i].name()
                        && weak(
                            a[i].r#type(),
                            fa ^ flip(a[i].orientation()),
                            b[i].r#type(),
                            fb ^ flip(b[i].orientation()),
                        )
                })
        }
        _ => false,
    }
}

fn pair(a: &Type, b: &Type) {
    let e = TypeExt::eq(a, b);
    sym::reach(if e { 1 } else { 2 });
    sym::check(e == equal(a, b), "equivalence is wrong");
    sym::check(e == TypeExt::eq(b, a), "equivalence is not symmetric");
    if e {
        sym::check(a.weak_eq(b), "equivalent types are not weakly equivalent");
    }
}

fn p14_ground() {
    let (a, b) = (ground_any(), ground_any());
    sym::check(TypeExt::eq(&a, &b) == (kind(&a) == kind(&b)), "equivalence of ground types is wrong");
    sym::check(TypeExt::eq(&a, &a), "equivalence of ground types is not reflexive");
    let (t, u) = (Type::from(a), Type::from(b));
    sym::reach(3);
    pair(&t, &u);
    sym::check(t.weak_eq(&u) == (kind(&a) == kind(&b)), "weak equivalence of ground types is wrong");
}

fn p14_pairs() {
    let a = any_type(2, 2, 2);
    let b = any_type(if sym::thorough() { 2 } else { 1 }, 2, 2);
    pair(&a, &b);
    sym::check(TypeExt::eq(&a, &a), "equivalence is not reflexive");
}

fn p14_weak() {
    let a = any_type(2, 1, 2);
    let b = any_type(2, 1, 2);
    let e = a.weak_eq(&b);
    sym::reach(if e { 4 } else { 5 });
    sym::check(e == weak(&a, false, &b, false), "weak equivalence is wrong");
    sym::check(e == b.weak_eq(&a), "weak equivalence is not symmetric");
}

fn p14_transitive() {
    let l = if sym::thorough() { 2 } else { 1 };
    let a = any_type(1, l, 2);
    let b = any_type(1, l, 2);
    let c = any_type(1, l, 2);
    if TypeExt::eq(&a, &b) && TypeExt::eq(&b, &c) {
        sym::reach(6);
        sym::check(TypeExt::eq(&a, &c), "equivalence is not transitive");
    }
    if a.weak_eq(&b) && b.weak_eq(&c) {
        sym::reach(7);
        sym::check(a.weak_eq(&c), "weak equivalence is not transitive");
    }
}

fn both(a: &Type, b: &Type) {
    pair(a, b);
    let e = a.weak_eq(b);
    sym::check(e == weak(a, false, b, false), "weak equivalence is wrong");
    sym::check(e == b.weak_eq(a), "weak equivalence is not symmetric");
}
/// Fields of any names.
fn p14_names() {
    let most = if sym::thorough() { 4 } else { 3 };
    let mk = || {
        let n = sym::choice(most + 1) as usize;
        let name = if n == 0 { String::new() } else { field_ident(n) };
        let f = vec![BundleField::new(name, clock_t()).with_orientation(orient_any())];
        bundle(f)
    };
    let (a, b) = (mk(), mk());
    both(&a, &b)
}
/// Wide bundles that differ in one place, in a swapped pair or in length.
fn p14_wide() {
    let most = if sym::thorough() { 12 } else { 9 };
    let n = 1 + sym::choice(most) as usize;
    let names = ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"];
    let fields: Vec<BundleField> =
        (0..n).map(|i| BundleField::new(names[i], if i % 2 == 0 { clock_t() } else { uint(1) })).collect();
    let mut other = fields.clone();
    let k = sym::choice(n as u32) as usize;
    match sym::choice(5) {
        0 => other[k] = BundleField::new(sym::text(1, IDENT), fields[k].r#type().clone()).with_orientation(orient_any()),
        1 => other[k] = BundleField::new(names[k], leaf(7)).with_orientation(orient_any()),
        2 => {
            let l = sym::choice(n as u32) as usize;
            other.swap(k, l)
        }
        3 => {
            other.remove(k);
        }
        _ => {
            let f = other[k].clone();
            other.insert(sym::choice(n as u32) as usize, f)
        }
    }
    let (a, b) = (bundle(fields), bundle(other));
    match sym::choice(3) {
        0 => both(&a, &b),
        1 => both(&vec_t(a, u16_any()), &vec_t(b, u16_any())),
        _ => {
            let w = |t| bundle(vec![BundleField::new("x", t).with_orientation(orient_any())]);
            both(&w(a), &w(b))
        }
    }
}
/// A difference far inside, and only there.
fn p14_nested() {
    let depth = 1 + sym::choice(if sym::thorough() { 4 } else { 3 });
    let wrap: Vec<u32> = (0..depth).map(|_| sym::choice(2)).collect();
    let mk = |l: GT| {
        let mut t: Type = l.into();
        for w in &wrap {
            t = match w {
                0 => vec_t(t, (sym::int(1) as u16) + 1),
                _ => bundle(vec![
                    BundleField::new("x", clock_t()),
                    BundleField::new(sym::text(2, "ab"), t).with_orientation(orient_any()),
                    BundleField::new("y", clock_t()).with_orientation(orient_any()),
                ]),
            }
        }
        t
    };
    let a = mk(leaf(3));
    let b = mk(leaf(3));
    pair(&a, &b);
    sym::check(a.weak_eq(&b) == weak(&a, false, &b, false), "weak equivalence is wrong");
}

/// Leaves of every kind, with flips on the way.
fn p14_leaf() {
    let mk = || {
        let n = 1 + sym::choice(2);
        let fs = (0..n).map(|i| {
            let t: Type = if i == 0 { leaf(7).into() } else { clock_t() };
            let t = if sym::flag() { vec_t(t, 2) } else { t };
            BundleField::new(if i == 0 { "a" } else { "b" }, t).with_orientation(orient_any())
        });
        bundle(fs.collect())
    };
    both(&mk(), &mk())
}
/// Types with an orientation of their own.
fn p14_oriented() {
    let (a, b) = (any_type(1, 7, 1), any_type(1, 7, 1));
    let (o, p) = (orient_any(), orient_any());
    let (x, y) = (a.with_orientation(o), b.with_orientation(p));
    let flip = |o: Orientation| o == Orientation::Flipped;
    let e = TypeExt::eq(&x, &y);
    sym::reach(if e { 4 } else { 5 });
    sym::check(e == weak(&a, flip(o), &b, flip(p)), "equivalence of oriented types is wrong");
    sym::check(e == TypeExt::eq(&y, &x), "equivalence of oriented types is not symmetric");
    sym::check(TypeExt::eq(&x, &x), "equivalence of oriented types is not reflexive");
    sym::check(e == TypeExt::eq(&x.flipped(), &y.flipped()), "equivalence of flipped types is another one");
}

/// Several fields of different kinds, one of them another one.
fn p14_mixed() {
    let f = mixed_fields(if sym::thorough() { 4 } else { 3 });
    let mut g = f.clone();
    if !g.is_empty() {
        let k = sym::choice(g.len() as u32) as usize;
        g[k] = g[k].clone().with_type(mixed_type()).with_orientation(orient_any());
    }
    match sym::choice(3) {
        0 => both(&bundle(f), &bundle(g)),
        1 => both(&vec_t(bundle(f), 2), &vec_t(bundle(g), 2)),
        _ => {
            let w = |t| bundle(vec![BundleField::new("x", t).with_orientation(orient_any())]);
            both(&w(bundle(f)), &w(bundle(g)))
        }
    }
}

// --- large ---
/// Many fields, or deep nesting.
fn p14_large() {
    let (way, n, k) = large_kind();
    let a = large(way, n, k, leaf(3).into(), orient_any());
    let b = match sym::choice(3) {
        0 => large(way, n, k, leaf(3).into(), orient_any()),
        1 => large(way, n + 1, k, clock_t(), orient_any()),
        _ => large(way, n, spot(n), clock_t(), orient_any()),
    };
    both(&a, &b)
}
/// Long names.
fn p14_long() {
    let n = size();
    let mk = |s: String| bundle(vec![BundleField::new(s, clock_t()).with_orientation(orient_any())]);
    let x = long_text(n, IDENT);
    let y = match sym::choice(3) {
        0 => long_text(n, IDENT),
        1 => long_text(n + 1, IDENT),
        _ => x.clone(),
    };
    both(&mk(x), &mk(y))
}
