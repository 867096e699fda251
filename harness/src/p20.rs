//! Combining widths and types.
use super::{sym, util::*};
use firrtl_ast::types::{combinator::FnWidth, combine_fixed_max};

super::entries! { p20_fixed_max, p20_widths, p20_ground, p20_ground_assoc, p20_types, p20_mixed, p20_large, p20_custom, p20_custom_types, p20_fields }

fn p20_fixed_max() {
    let (lw, lp, rw, rp) = (u16_any(), i16_any(), u16_any(), i16_any());
    let (w, _) = format(lw, lp, rw, rp);
    let r = combine_fixed_max((lw, lp), (rw, rp));
    match r {
        Some(x) => {
            sym::reach(1);
            sym::check(x as i32 == w, "maximum of two fixed formats is wrong")
        }
        None => sym::check(w < 0 || w > 65535, "maximum of two fixed formats is unknown"),
    }
    sym::check(combine_fixed_max((rw, rp), (lw, lp)) == r, "fixed maximum is not commutative");
}

fn p20_widths() {
    let (a, b, c) = (width_any(), width_any(), width_any());
    let m = MaxWidth::combine_widths;
    let want = match (a, b) {
        (Some(a), Some(b)) => Some(if a > b { a } else { b }),
        _ => None,
    };
    sym::reach(1);
    sym::check(m(a, b) == want, "larger width is wrong");
    sym::check(m(b, a) == want, "larger width is not commutative");
    sym::check(m(a, a) == a, "larger width is not idempotent");
    sym::check(m(m(a, b), c) == m(a, m(b, c)), "larger width is not associative");
    // a function over widths is applied to known widths, in order
    let f = FnWidth::from(|l: u16, r: u16| l.checked_sub(r));
    let want = match (a, b) {
        (Some(a), Some(b)) if a >= b => Some(a - b),
        _ => None,
    };
    sym::check(f.combine_widths(a, b) == want, "width function is misapplied");
    sym::check(f.combine(&a, &b) == Ok(want), "width function is misapplied by the combinator");
}

fn known_and_fits(a: &GT, b: &GT) -> bool {
    match (a, b) {
        (GT::Fixed(Some(lw), Some(lp)), GT::Fixed(Some(rw), Some(rp))) => {
            (0..=65535).contains(&format(*lw, *lp, *rw, *rp).0)
        }
        (GT::Fixed(..), _) => false,
        _ => true,
    }
}
fn p20_ground() {
    let (a, b) = (ground_any(), ground_any());
    let r = Combinator::<GT>::combine(&MaxWidth::new(), &a, &b);
    match (ground_max(&a, &b), &r) {
        (Some(w), Ok(g)) => {
            sym::reach(1);
            sym::check(*g == w, "combined type is wrong");
        }
        (None, Err((x, y))) => {
            sym::reach(2);
            sym::check(same(*x, &a) && same(*y, &b), "failure reports another pair");
        }
        (Some(_), Err(_)) => sym::fail("types of the same kind do not combine"),
        (None, Ok(_)) => sym::fail("types of different kinds combine"),
    }
    let s = Combinator::<GT>::combine(&MaxWidth::new(), &b, &a);
    sym::check(r.ok() == s.ok(), "combination is not commutative");
    if known_and_fits(&a, &a) {
        let i = Combinator::<GT>::combine(&MaxWidth::new(), &a, &a);
        sym::check(i == Ok(a), "combination is not idempotent");
    }
}

fn p20_ground_assoc() {
    let k = sym::choice(3);
    let g = || match k {
        0 => GT::UInt(width_any()),
        1 => GT::Analog(width_any()),
        _ => GT::Fixed(Some(u16_any()), Some(i16_any())),
    };
    let (a, b, c) = (g(), g(), g());
    let m = |a: &GT, b: &GT| Combinator::<GT>::combine(&MaxWidth::new(), a, b).ok();
    let (ab, bc) = match (m(&a, &b), m(&b, &c)) {
        (Some(x), Some(y)) => (x, y),
        _ => sym::fail("types of the same kind do not combine"),
    };
    if k == 2 && !(known_and_fits(&a, &b) && known_and_fits(&b, &c)) {
        return;
    }
    let (l, r) = (m(&ab, &c), m(&a, &bc));
    // the intermediate results fit; the final ones then agree
    sym::reach(1);
    sym::check(l == r, "combination is not associative");
}

fn leaf() -> GT {
    match sym::choice(4) {
        0 => GT::UInt(width_any()),
        1 => GT::Fixed(Some(u16_any()), Some(i16_any())),
        2 => GT::Reset(ResetKind::Async),
        _ => GT::SInt(Some(u16_any())),
    }
}
fn any_type(depth: u32) -> Type {
    match if depth == 0 { 0 } else { sym::choice(3) } {
        0 => leaf().into(),
        1 => vec_t(any_type(depth - 1), sym::int(1) as u16),
        _ => {
            let n = sym::choice(3);
            let t = any_type(depth - 1);
            let fs = (0..n)
                .map(|i| {
                    let t = if i == 0 { t.clone() } else { GT::UInt(Some(u16_any())).into() };
                    BundleField::new(sym::text(1, "ab"), t).with_orientation(orient_any())
                })
                .collect();
            bundle(fs)
        }
    }
}
/// Is (x, y) the pair (a, b) or a pair of types inside, at the same place?
fn pair_inside(x: &Type, y: &Type, a: &Type, b: &Type) -> bool {
    (same(x, a) && same(y, b))
        || match (a, b) {
            (Type::Vector(a, _), Type::Vector(b, _)) => pair_inside(x, y, a, b),
            (Type::Bundle(a), Type::Bundle(b)) => {
                a.iter().zip(b.iter()).any(|(f, g)| pair_inside(x, y, f.r#type(), g.r#type()))
            }
            _ => false,
        }
}

fn p20_types() {
    let d = if sym::thorough() { 3 } else { 2 };
    let a = any_type(d);
    let b = if sym::flag() { a.clone() } else { any_type(d) };
    let r = Combinator::<Type>::combine(&MaxWidth::new(), &a, &b);
    match (type_max(&a, &b), &r) {
        (Some(w), Ok(g)) => {
            sym::reach(1);
            sym::check(*g == w, "combined type is wrong");
        }
        (None, Err((x, y))) => {
            sym::reach(2);
            sym::check(pair_inside(x, y, &a, &b), "failure reports another pair");
        }
        (Some(_), Err(_)) => sym::fail("types of the same shape do not combine"),
        (None, Ok(_)) => sym::fail("types of different shape combine"),
    }
    let s = Combinator::<Type>::combine(&MaxWidth::new(), &b, &a);
    sym::check(r.ok() == s.ok(), "combination is not commutative");
}

// --- large ---
/// Many fields, or deep nesting.
fn p20_large() {
    let (way, n, k) = large_kind();
    let a = large(way, n, k, leaf().into(), orient_any());
    let b = match sym::choice(4) {
        3 => a.clone(),
        0 => large(way, n, k, leaf().into(), orient_any()),
        1 => large(way, n + 1, k, leaf().into(), orient_any()),
        _ => large(way, n, spot(n), leaf().into(), orient_any()),
    };
    let r = Combinator::<Type>::combine(&MaxWidth::new(), &a, &b);
    match (type_max(&a, &b), &r) {
        (Some(w), Ok(g)) => {
            sym::reach(1);
            sym::check(*g == w, "combined type is wrong")
        }
        (None, Err((x, y))) => {
            sym::reach(2);
            sym::check(pair_inside(x, y, &a, &b), "failure reports another pair")
        }
        (Some(_), Err(_)) => sym::fail("types of the same shape do not combine"),
        (None, Ok(_)) => sym::fail("types of different shape combine"),
    }
    let s = Combinator::<Type>::combine(&MaxWidth::new(), &b, &a);
    sym::check(r.ok() == s.ok(), "combination is not commutative")
}

// --- combinators of somebody else ---
/// Combines equal widths only, and the second one of two that are both known.
struct Strict(u32);
impl Strict {
    fn of(&self, l: BitWidth, r: BitWidth) -> Option<BitWidth> {
        match (self.0, l, r) {
            (0, l, r) if l == r => Some(l),
            (0, ..) => None,
            (1, Some(l), Some(r)) => Some(Some(l & r)),
            (1, ..) => None,
            (_, Some(_), None) => None,
            (_, l, r) => Some(l.and(r)),
        }
    }
}
impl Combinator<BitWidth> for Strict {
    fn combine<'a>(&self, l: &'a BitWidth, r: &'a BitWidth) -> Result<BitWidth, (&'a BitWidth, &'a BitWidth)> {
        self.of(*l, *r).ok_or((l, r))
    }
}
fn strict(c: &Strict, a: &GT, b: &GT) -> Option<GT> {
    match (a, b) {
        (GT::UInt(l), GT::UInt(r)) => c.of(*l, *r).map(GT::UInt),
        (GT::SInt(l), GT::SInt(r)) => c.of(*l, *r).map(GT::SInt),
        (GT::Analog(l), GT::Analog(r)) => c.of(*l, *r).map(GT::Analog),
        (GT::Clock, GT::Clock) => Some(GT::Clock),
        (GT::Reset(l), GT::Reset(r)) if l == r => Some(GT::Reset(*l)),
        _ => None,
    }
}
fn strict_type(c: &Strict, a: &Type, b: &Type) -> Option<Type> {
    match (a, b) {
        (Type::GroundType(a), Type::GroundType(b)) => strict(c, a, b).map(Into::into),
        (Type::Vector(a, n), Type::Vector(b, m)) if n == m => strict_type(c, a, b).map(|t| vec_t(t, *n)),
        (Type::Bundle(a), Type::Bundle(b)) if a.len() == b.len() => {
            let mut v = vec![];
            for (f, g) in a.iter().zip(b.iter()) {
                if f.name() != g.name() || f.orientation() != g.orientation() {
                    return None;
                }
                v.push(BundleField::new(f.name().clone(), strict_type(c, f.r#type(), g.r#type())?).with_orientation(f.orientation()))
            }
            Some(bundle(v))
        }
        _ => None,
    }
}
fn p20_custom() {
    let c = Strict(sym::choice(3));
    let (a, b) = (ground_any(), ground_any());
    let (a, b) = if sym::flag() { (&a, &a) } else { (&a, &b) };
    match (Combinator::<GT>::combine(&c, a, b), strict(&c, a, b)) {
        (Ok(x), Some(y)) => {
            sym::reach(3);
            sym::check(x == y, "combined type is wrong")
        }
        (Err((x, y)), None) => {
            sym::reach(4);
            sym::check(same(x, a) && same(y, b), "failure reports another pair")
        }
        (Ok(_), None) => sym::fail("types that do not combine are combined"),
        (Err(_), Some(_)) => sym::fail("types that combine are not combined"),
    }
}
fn custom_type(depth: u32) -> Type {
    match if depth == 0 { 0 } else { sym::choice(3) } {
        0 => match sym::choice(3) {
            0 => GT::UInt(width_any()).into(),
            1 => GT::Clock.into(),
            _ => GT::Analog(width_any()).into(),
        },
        1 => vec_t(custom_type(depth - 1), 1 + sym::choice(2) as u16),
        _ => bundle(
            (0..sym::choice(3))
                .map(|k| {
                    let t = if k == 1 { custom_type(depth - 1) } else { GT::SInt(width_any()).into() };
                    BundleField::new(if k == 0 { "a" } else { "b" }, t).with_orientation(orient_any())
                })
                .collect(),
        ),
    }
}
fn p20_custom_types() {
    let c = Strict(sym::choice(3));
    let d = 2;
    let a = custom_type(d);
    // both may share what is inside
    let b = if sym::flag() { a.clone() } else { custom_type(d) };
    match (Combinator::<Type>::combine(&c, &a, &b), strict_type(&c, &a, &b)) {
        (Ok(x), Some(y)) => {
            sym::reach(5);
            sym::check(x == y, "combined type is wrong")
        }
        (Err((x, y)), None) => {
            sym::reach(6);
            sym::check(pair_inside(x, y, &a, &b), "failure reports another pair")
        }
        (Ok(_), None) => sym::fail("types that do not combine are combined"),
        (Err(_), Some(_)) => sym::fail("types that combine are not combined"),
    }
}
/// Single fields.
fn p20_fields() {
    let c = Strict(sym::choice(2));
    let any = || BundleField::new(sym::text(sym::choice(3) as usize, "ab"), ground_any()).with_orientation(orient_any());
    let (f, g) = (any(), any());
    let fits = f.name() == g.name() && f.orientation() == g.orientation();
    match (Combinator::<BundleField>::combine(&c, &f, &g), strict_type(&c, f.r#type(), g.r#type())) {
        (Ok(h), Some(t)) if fits => {
            sym::reach(7);
            sym::check(h.name() == f.name() && h.orientation() == f.orientation() && *h.r#type() == t, "combined field is wrong")
        }
        (Err((x, y)), t) if !fits || t.is_none() => {
            sym::reach(8);
            sym::check(same(x, &f) && same(y, &g), "failure reports another pair")
        }
        _ => sym::fail("fields are combined, or not, wrongly"),
    }
    match (Combinator::<BundleField>::combine(&MaxWidth::new(), &f, &g), type_max(f.r#type(), g.r#type())) {
        (Ok(h), Some(t)) if fits => sym::check(h.name() == f.name() && h.orientation() == f.orientation() && *h.r#type() == t, "maximum of two fields is wrong"),
        (Err((x, y)), t) if !fits || t.is_none() => sym::check(same(x, &f) && same(y, &g), "failure reports another pair"),
        _ => sym::fail("fields are combined, or not, wrongly"),
    }
}
/// Several fields of different kinds, one of them another one.
fn p20_mixed() {
    let f = mixed_fields(3);
    let mut g = f.clone();
    if !g.is_empty() {
        let k = sym::choice(g.len() as u32) as usize;
        g[k] = g[k].clone().with_type(mixed_type()).with_orientation(orient_any());
    }
    let (a, b) = (bundle(f), bundle(g));
    match (Combinator::<Type>::combine(&MaxWidth::new(), &a, &b), type_max(&a, &b)) {
        (Ok(x), Some(y)) => sym::check(x == y, "combined type is wrong"),
        (Err((x, y)), None) => sym::check(pair_inside(x, y, &a, &b), "failure reports another pair"),
        (Ok(_), None) => sym::fail("types of different shape combine"),
        (Err(_), Some(_)) => sym::fail("types of the same shape do not combine"),
    }
}
