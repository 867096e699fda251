//! Reported types stay true when unknown widths are filled in.
use super::{sym, util::*};

super::entries! { p13_op1, p13_op2, p13_mux, p13_nested, p13_far }

/// A partially known ground type and an instance of it.
fn partial() -> (GT, GT) {
    let g = match sym::choice(5) {
        0 => GT::UInt(width_any()),
        1 => GT::SInt(width_any()),
        2 => GT::Fixed(width_any(), point_any()),
        3 => GT::Analog(width_any()),
        _ => GT::Clock,
    };
    (g, instantiate(&g))
}
fn target() -> GT {
    match sym::choice(3) {
        0 => GT::UInt(None),
        1 => GT::Fixed(None, Some(i16_any())),
        _ => GT::Clock,
    }
}
fn compare(before: Result<Type, Er>, after: Result<Type, Er>) {
    match (before, after) {
        (Ok(t), Ok(u)) => {
            sym::reach(1);
            sym::check(refines(&t, &u), "a stated width or kind changes once unknown widths are filled in");
        }
        (Err(_), Err(_)) => sym::log("error"),
        (Ok(_), Err(_)) => sym::fail("an expression loses its type once unknown widths are filled in"),
        (Err(_), Ok(_)) => sym::fail("an expression gains a type once unknown widths are filled in"),
    }
}

fn p13_op1() {
    let o = sym::choice(OPS_ALL);
    if binary(o) {
        return;
    }
    let (g, h) = partial();
    let (n, m) = (u16_any(), u16_any());
    let t = if o == 12 { target() } else { GT::Clock };
    let f = |g: GT| {
        let x = rf(g.into());
        let e: Er = op(o, x.clone(), x, n, m, t).into();
        e.r#type()
    };
    compare(f(g), f(h))
}

fn p13_op2() {
    let o = sym::choice(27);
    if !binary(o) {
        return;
    }
    let (ga, ha) = partial();
    let (gb, hb) = partial();
    let shared = sym::flag();
    let f = |a: GT, b: GT| {
        let x = rf(a.into());
        let y = if shared { x.clone() } else { rf(b.into()) };
        let e: Er = op(o, x, y, 0, 0, GT::Clock).into();
        e.r#type()
    };
    compare(f(ga, gb), f(ha, hb))
}

fn p13_mux() {
    let (ga, ha) = partial();
    let (gb, hb) = partial();
    let (gc, hc) = partial();
    let wrap = sym::choice(4);
    let n = u16_any();
    let flip = sym::flag();
    let shared = sym::flag();
    let f = |a: GT, b: GT, c: GT| {
        let w = |g: GT| -> Type {
            match wrap {
                0 => g.into(),
                1 => vec_t(g.into(), n),
                2 => bundle(vec![field("a", g.into(), flip), field("b", c.into(), !flip)]),
                _ => vec_t(bundle(vec![field("a", c.into(), false), field("b", vec_t(g.into(), n), flip)]), 2),
            }
        };
        let x = rf(w(a));
        let y = if shared { x.clone() } else { rf(w(b)) };
        let e = Expression::Mux { sel: rf(uint(1)), a: x, b: y };
        let e = Expression::ValidIf { sel: rf(c.into()), value: Arc::new(e) };
        e.r#type()
    };
    compare(f(ga, gb, gc), f(ha, hb, hc))
}

/// Operations over operations.
fn p13_nested() {
    let o1 = sym::choice(OPS_ALL);
    let o2 = sym::choice(OPS_ALL);
    let (g, h) = partial();
    // comparisons and reductions hide their operand
    if !sym::thorough() && ((5..=10).contains(&o1) || (23..=25).contains(&o1) || (21..=22).contains(&o1) || o1 == 1) {
        return;
    }
    let (n, m, k) = (u16_any(), u16_any(), u16_any());
    let t = GT::SInt(None);
    let left = binary(o2) && sym::flag();
    let f = |g: GT| {
        let x = rf(g.into());
        let inner: Arc<Er> = Arc::new(op(o1, x.clone(), x.clone(), n, m, t).into());
        let (a, b) = if left { (x, inner) } else { (inner, x) };
        let e: Er = op(o2, a, b, k, m, t).into();
        e.r#type()
    };
    compare(f(g), f(h))
}

// --- large ---
/// A chain of operations over an operand, and a selection far inside.
fn p13_far() {
    let n = if sym::thorough() { 12 } else { 7 };
    let k = spot(n);
    let (g, h) = partial();
    let (way, other) = (sym::choice(6), sym::choice(6));
    let f = |g: GT| {
        let x = rf(g.into());
        let mut e = x.clone();
        for i in 0..n {
            e = Arc::new(match if i == k { other } else { way } {
                0 => Op::Add(e, x.clone()).into(),
                1 => Op::Cvt(e).into(),
                2 => Expression::Mux { sel: rf(uint(1)), a: e, b: x.clone() },
                3 => Op::Pad(e, i as u16).into(),
                4 => Op::Shl(e, 1).into(),
                _ => Op::Not(e).into(),
            })
        }
        e.r#type()
    };
    compare(f(g), f(h))
}
