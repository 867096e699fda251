//! Types of selections, multiplexers and conditionally valid values.
use super::{sym, util::*};

super::entries! { p16_field, p16_vector, p16_path, p16_mux, p16_errors, p16_literals, p16_mixed, p16_large, p16_long }

fn leaf() -> GT {
    match sym::choice(4) {
        0 => GT::UInt(width_any()),
        1 => GT::Fixed(width_any(), point_any()),
        2 => GT::Reset(ResetKind::Async),
        _ => GT::Clock,
    }
}
fn small_type() -> Type {
    match sym::choice(3) {
        0 => GT::SInt(width_any()).into(),
        1 => vec_t(GT::UInt(width_any()).into(), u16_any()),
        _ => bundle(vec![
            BundleField::new(sym::text(1, "ab"), clock_t()).with_orientation(orient_any()),
            BundleField::new("b", GT::Analog(width_any())).with_orientation(orient_any()),
        ]),
    }
}

/// The field with exactly that name, the first if several have it.
fn p16_field() {
    let n = sym::choice(if sym::thorough() { 5 } else { 4 }) as usize;
    let fs: Vec<BundleField> = (0..n)
        .map(|i| {
            let t = if i == 0 { small_type() } else { uint(i as u16) };
            let l = 1 + sym::choice(2) as usize;
            BundleField::new(sym::text(l, "aB_"), t).with_orientation(orient_any())
        })
        .collect();
    let l = sym::choice(3) as usize;
    let q: Arc<str> = sym::text(l, "aB_").into();
    let base = rf(bundle(fs.clone()));
    let e: Er = Expression::SubField { base, index: q.clone() };
    let mut want = None;
    for f in fs.iter().rev() {
        if f.name().as_bytes() == q.as_bytes() {
            want = Some(f.r#type().clone());
        }
    }
    match (e.r#type(), want) {
        (Ok(t), Some(u)) => {
            sym::reach(1);
            sym::check(t == u, "a field selection has another type than the field")
        }
        (Err(x), None) => {
            sym::reach(2);
            sym::check(x == e, "the error names another expression")
        }
        (Ok(_), None) => sym::fail("a missing field is selected"),
        (Err(_), Some(_)) => sym::fail("an existing field is not found"),
    }
}

fn p16_vector() {
    let t = match sym::choice(2) {
        0 => small_type(),
        _ => vec_t(small_type(), u16_any()),
    };
    let base = rf(t.clone());
    let e: Er = match sym::choice(2) {
        0 => Expression::SubIndex { base, index: u16_any() },
        _ => Expression::SubAccess { base, index: rf(small_type()) },
    };
    match (e.r#type(), &t) {
        (Ok(u), Type::Vector(el, _)) => {
            sym::reach(3);
            sym::check(u == **el, "an element has another type than the vector's elements")
        }
        (Err(x), Type::Vector(..)) => sym::fail(if x == e { "a vector cannot be indexed" } else { "wrong error" }),
        (Err(x), _) => {
            sym::reach(4);
            sym::check(x == e, "the error names another expression")
        }
        (Ok(_), _) => sym::fail("something that is no vector is indexed"),
    }
    sym::check(t.vector_base().is_some() == matches!(t, Type::Vector(..)), "vector base is wrong");
    sym::check(t.vector().is_some() == matches!(t, Type::Vector(..)), "vector is wrong");
    sym::check(t.fields().is_some() == matches!(t, Type::Bundle(..)), "fields are wrong");
}

/// Selections of selections.
fn p16_path() {
    let depth = 1 + sym::choice(if sym::thorough() { 6 } else { 4 });
    let inner = GT::Fixed(width_any(), point_any());
    let mut t: Type = inner.into();
    let mut steps = vec![];
    for i in 0..depth {
        let k = sym::choice(4);
        let (name, other) = if i % 2 == 0 { ("x", "xx") } else { ("y", "x") };
        t = match k {
            0 | 1 => vec_t(t, u16_any()),
            _ => {
                let f = BundleField::new(name, t).with_orientation(orient_any());
                let g = BundleField::new(other, vec_t(clock_t(), 4)).with_orientation(orient_any());
                bundle(if k == 2 { vec![f, g] } else { vec![g, f] })
            }
        };
        steps.push((k, name));
    }
    let mut e = rf(t);
    for (k, name) in steps.iter().rev() {
        e = Arc::new(match k {
            0 => Expression::SubIndex { base: e, index: u16_any() },
            1 => Expression::SubAccess { base: e, index: rf(uint(3)) },
            _ => Expression::SubField { base: e, index: (*name).into() },
        });
    }
    sym::reach(5);
    sym::check(e.r#type() == Ok(inner.into()), "a selection path has the wrong type");
    // the same below a conditionally valid value
    let v: Er = Expression::ValidIf { sel: rf(uint(1)), value: e };
    sym::check(v.r#type() == Ok(inner.into()), "a conditionally valid value has another type than its value");
}

fn branch(depth: u32) -> Type {
    match if depth == 0 { 0 } else { sym::choice(3) } {
        0 => leaf().into(),
        1 => vec_t(branch(depth - 1), 1 + sym::int(1) as u16),
        _ => {
            let n = sym::choice(3);
            let t = branch(depth - 1);
            bundle(
                (0..n)
                    .map(|i| {
                        let t = if i == 0 { t.clone() } else { GT::SInt(Some(u16_any())).into() };
                        BundleField::new(sym::text(1, "ab"), t).with_orientation(orient_any())
                    })
                    .collect(),
            )
        }
    }
}

fn p16_mux() {
    let d = if sym::thorough() { 2 } else { 1 };
    let a = branch(d);
    let x = rf(a.clone());
    // an expression may stand in several places
    let (b, y) = if sym::flag() {
        (a.clone(), x.clone())
    } else {
        let b = branch(d);
        (b.clone(), rf(b))
    };
    let sel = if sym::flag() { x.clone() } else { rf(uint(1)) };
    let e: Er = Expression::Mux { sel, a: x, b: y };
    match (e.r#type(), type_max(&a, &b)) {
        (Ok(t), Some(u)) => {
            sym::reach(6);
            sym::check(t == u, "a multiplexer has the wrong type")
        }
        (Err(x), None) => {
            sym::reach(7);
            sym::check(x == e, "the error names another expression")
        }
        (Ok(_), None) => sym::fail("branches of different shape are multiplexed"),
        (Err(_), Some(_)) => sym::fail("branches of the same shape are not multiplexed"),
    }
}

/// What is wrong inside is what the error names.
fn p16_errors() {
    let bad: Arc<Er> = match sym::choice(5) {
        0 => rfn("u", None),
        1 => Arc::new(Expression::SubField { base: rf(uint(1)), index: "a".into() }),
        2 => Arc::new(Expression::SubIndex { base: rf(clock_t()), index: u16_any() }),
        3 => Arc::new(Expression::SubAccess { base: rf(bundle(vec![])), index: rf(uint(1)) }),
        _ => Arc::new(Expression::Mux { sel: rf(uint(1)), a: rf(uint(1)), b: rf(clock_t()) }),
    };
    let good = rf(uint(1));
    let mut e = bad.clone();
    for _ in 0..1 + sym::choice(if sym::thorough() { 3 } else { 2 }) {
        e = Arc::new(match sym::choice(6) {
            0 => Expression::SubField { base: e, index: "a".into() },
            1 => Expression::SubIndex { base: e, index: u16_any() },
            2 => Expression::SubAccess { base: e, index: good.clone() },
            3 => Expression::Mux { sel: good.clone(), a: e, b: good.clone() },
            4 => Expression::Mux { sel: good.clone(), a: good.clone(), b: e },
            _ => Expression::ValidIf { sel: if sym::flag() { good.clone() } else { e.clone() }, value: e },
        });
    }
    sym::reach(8);
    match e.r#type() {
        Ok(_) => sym::fail("an expression with an untyped part has a type"),
        Err(x) => sym::check(x == *bad, "the error names another expression"),
    }
}

fn p16_literals() {
    let w = u16_any();
    let v = sym::int(64);
    let u: Er = Expression::UIntLiteral { value: v.into(), width: w };
    let s: Er = Expression::SIntLiteral { value: (v as i64).into(), width: w };
    sym::reach(9);
    sym::check(u.r#type() == Ok(GT::UInt(Some(w)).into()), "a literal has another type than written");
    sym::check(s.r#type() == Ok(GT::SInt(Some(w)).into()), "a literal has another type than written");
    let t = small_type();
    sym::check(rf(t.clone()).r#type() == Ok(t), "a reference has another type than its entity");
}

// --- large ---
/// A selection far inside, and a multiplexer of what is large.
fn p16_large() {
    let (way, n, k) = large_kind();
    let inner = leaf();
    let t = large(way, n, k, inner.into(), orient_any());
    if sym::flag() {
        let o = match sym::choice(3) {
            0 => large(way, n, k, leaf().into(), orient_any()),
            1 => large(way, n + 1, k, leaf().into(), orient_any()),
            _ => large(way, n, spot(n), leaf().into(), orient_any()),
        };
        let e: Er = Expression::Mux { sel: rf(uint(1)), a: rf(t.clone()), b: rf(o.clone()) };
        return match (e.r#type(), type_max(&t, &o)) {
            (Ok(t), Some(u)) => sym::check(t == u, "a multiplexer has the wrong type"),
            (Err(x), None) => sym::check(x == e, "the error names another expression"),
            (Ok(_), None) => sym::fail("branches of different shape are multiplexed"),
            (Err(_), Some(_)) => sym::fail("branches of the same shape are not multiplexed"),
        };
    }
    let mut e = rf(t);
    for (i, f) in large_path(way, n, k).into_iter().enumerate() {
        e = Arc::new(match (f, i % 2) {
            (true, _) => Expression::SubField { base: e, index: "x".into() },
            (false, 0) => Expression::SubIndex { base: e, index: i as u16 },
            _ => Expression::SubAccess { base: e, index: rf(uint(3)) },
        })
    }
    sym::reach(5);
    sym::check(e.r#type() == Ok(inner.into()), "a selection path has the wrong type");
    let bad: Arc<Er> = Arc::new(Expression::SubField { base: e, index: "x".into() });
    let mut f = bad.clone();
    for i in 0..depth() {
        f = Arc::new(if i % 2 == 0 { Expression::SubIndex { base: f, index: 0 } } else { Expression::ValidIf { sel: rf(uint(1)), value: f } })
    }
    match f.r#type() {
        Ok(_) => sym::fail("an expression with an untyped part has a type"),
        Err(x) => sym::check(x == *bad, "the error names another expression"),
    }
}
/// Long field names.
fn p16_long() {
    let n = size();
    let x = long_text(n, "aB_");
    let q = match sym::choice(4) {
        0 => x.clone(),
        1 => long_text(n, "aB_"),
        2 => format!("{}a", x),
        _ => x[1..].to_string(),
    };
    let base = rf(bundle(vec![field("a", clock_t(), false), field(&x, uint(3), true)]));
    let e: Er = Expression::SubField { base, index: q.as_str().into() };
    let want = q.as_bytes() == x.as_bytes();
    sym::check(e.r#type() == if want { Ok(uint(3)) } else { Err(e.clone()) }, "a field selection has another type than the field")
}
/// Several fields of different kinds, one of them another one.
fn p16_mixed() {
    let f = mixed_fields(3);
    let mut g = f.clone();
    if !g.is_empty() {
        let k = sym::choice(g.len() as u32) as usize;
        g[k] = g[k].clone().with_type(mixed_type()).with_orientation(orient_any());
    }
    let (t, o) = (bundle(f.clone()), bundle(g));
    let e: Er = Expression::Mux { sel: rf(uint(1)), a: rf(t.clone()), b: rf(o.clone()) };
    match (e.r#type(), type_max(&t, &o)) {
        (Ok(t), Some(u)) => sym::check(t == u, "a multiplexer has the wrong type"),
        (Err(x), None) => sym::check(x == e, "the error names another expression"),
        (Ok(_), None) => sym::fail("branches of different shape are multiplexed"),
        (Err(_), Some(_)) => sym::fail("branches of the same shape are not multiplexed"),
    }
    for x in f.iter() {
        let e: Er = Expression::SubField { base: rf(t.clone()), index: x.name().clone() };
        sym::check(e.r#type().as_ref() == Ok(x.r#type()), "a field selection has the wrong type");
        let v: Er = Expression::ValidIf { sel: rf(uint(1)), value: Arc::new(e) };
        sym::check(v.r#type().as_ref() == Ok(x.r#type()), "a conditionally valid value has the wrong type");
    }
}
