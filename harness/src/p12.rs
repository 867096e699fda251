//! Result types of primitive operations.
use super::{sym, util::*};

super::entries! { p12_unary, p12_binary, p12_aggregate, p12_nested, p12_far }

#[derive(Clone, Copy, PartialEq)]
enum K {
    U,
    S,
    F,
    C,
    R,
    A,
}
#[derive(Clone, Copy)]
struct V {
    k: K,
    async_: bool,
    w: i64,
    p: i64,
}
/// The parts of a fully known ground type.
fn known(g: GT) -> Option<V> {
    let v = |k, w: BitWidth, p| w.map(|w| V { k, async_: false, w: w as i64, p });
    match g {
        GT::UInt(w) => v(K::U, w, 0),
        GT::SInt(w) => v(K::S, w, 0),
        GT::Analog(w) => v(K::A, w, 0),
        GT::Fixed(w, Some(p)) => v(K::F, w, p as i64),
        GT::Fixed(..) => None,
        GT::Clock => v(K::C, Some(1), 0),
        GT::Reset(ResetKind::Regular) => v(K::R, Some(1), 0),
        GT::Reset(ResetKind::Async) => Some(V { k: K::R, async_: true, w: 1, p: 0 }),
    }
}
fn kind(g: GT) -> K {
    match g {
        GT::UInt(_) => K::U,
        GT::SInt(_) => K::S,
        GT::Analog(_) => K::A,
        GT::Fixed(..) => K::F,
        GT::Clock => K::C,
        GT::Reset(_) => K::R,
    }
}

enum Want {
    Type(K, i64, i64),
    Error,
    Free,
}
use Want::*;

/// The result type in the FIRRTL specification, in unbounded arithmetic.
fn spec(o: u32, ga: GT, gb: GT, n: i64, m: i64) -> Want {
    let (ka, kb) = (kind(ga), kind(gb));
    // kinds that cannot be combined
    match o {
        0..=2 => {
            if ka != kb || matches!(ka, K::C | K::R | K::A) {
                return Error;
            }
        }
        4 => {
            if ka != kb {
                return Error;
            }
        }
        3 | 17 => {
            if !matches!(ka, K::U | K::S) {
                return Error;
            }
        }
        14 => {
            if !matches!(ka, K::U | K::S | K::F) {
                return Error;
            }
        }
        27..=29 => {
            if ka != K::F {
                return Error;
            }
        }
        _ => {}
    }
    let a = match known(ga) {
        Some(a) => a,
        None => return Free,
    };
    let b = match known(gb) {
        Some(b) => b,
        None if binary(o) => return Free,
        None => a,
    };
    let int = matches!(ka, K::U | K::S);
    let num = int || ka == K::F;
    match o {
        0 | 1 if ka == K::F => Type(K::F, (a.w - a.p).max(b.w - b.p) + a.p.max(b.p) + 1, a.p.max(b.p)),
        0 | 1 => Type(ka, a.w.max(b.w) + 1, 0),
        2 => Type(ka, a.w + b.w, a.p + b.p),
        3 if kb != ka => Free,
        3 if ka == K::U => Type(K::U, a.w, 0),
        3 => Type(K::S, a.w + 1, 0),
        4 if int => Type(ka, a.w.min(b.w), 0),
        5..=10 if num && ka == kb => Type(K::U, 1, 0),
        11 if num => Type(ka, a.w.max(n), a.p),
        13 if num => Type(ka, a.w + n, a.p),
        14 if ka == K::F => Type(K::F, (a.w - n).max(a.p.max(1)), a.p),
        14 => Type(ka, (a.w - n).max(1), 0),
        15 if num && kb == K::U && b.w > 30 => Type(ka, 1 << 30, a.p),
        15 if num && kb == K::U => Type(ka, a.w + (1i64 << b.w) - 1, a.p),
        16 if num && kb == K::U => Type(ka, a.w, a.p),
        17 if ka == K::U => Type(K::S, a.w + 1, 0),
        17 => Type(K::S, a.w, 0),
        18 if int => Type(K::S, a.w + 1, 0),
        19 if int => Type(K::U, a.w, 0),
        20..=22 if int && ka == kb => Type(K::U, a.w.max(b.w), 0),
        23..=25 if int => Type(K::U, 1, 0),
        26 if num && ka == kb => Type(K::U, a.w + b.w, 0),
        27 => Type(K::F, a.w + n, a.p + n),
        28 => Type(K::F, a.w - n, a.p - n),
        29 => Type(K::F, a.w - a.p + n, n),
        // operands are (value, low, high)
        30 if num && n <= m && m < a.w => Type(K::U, m - n + 1, 0),
        31 if num && n <= a.w => Type(K::U, n, 0),
        32 if num && n <= a.w => Type(K::U, a.w - n, 0),
        _ => Free,
    }
}

fn matches(r: Result<GT, Er>, want: Want) {
    match (r, want) {
        (_, Free) => sym::log("free"),
        (Err(_), Error) => {
            sym::reach(1);
            sym::log("error")
        }
        (Ok(_), Error) => sym::fail("operand kinds that cannot be combined are accepted"),
        (Err(_), Type(..)) => sym::fail("accepted operand kinds are reported as an error"),
        (Ok(g), Type(k, w, p)) => {
            sym::reach(2);
            sym::check(kind(g) == k, "result has the wrong kind");
            let (gw, gp) = match g {
                GT::Fixed(w, p) => (w, p.map(|p| p as i64)),
                g => (wires(&g), Some(0)),
            };
            if let Some(x) = gw {
                sym::check(x as i64 == w, "result has the wrong width");
            }
            if k == K::F {
                if let Some(x) = gp {
                    sym::check(x == p, "result has the wrong binary point");
                }
            }
            let fits = (0..=65535).contains(&w) && (k != K::F || (-32768..=32767).contains(&p));
            if fits {
                sym::reach(3);
                sym::check(gw.is_some(), "width is reported as unknown");
                sym::check(k != K::F || gp.is_some(), "binary point is reported as unknown");
            }
        }
    }
}

fn run(o: u32, ga: GT, gb: Option<GT>) {
    let (n, m) = (u16_any(), u16_any());
    let (sn, sm) = if o == 29 { (n as i16 as i64, 0) } else { (n as i64, m as i64) };
    let target = if o == 12 { ground_any() } else { GT::Clock };
    let a = rf(ga.into());
    // an expression may be both operands
    let b = gb.map_or(a.clone(), |g| rf(g.into()));
    let gb = gb.unwrap_or(ga);
    let e = op(o, a, b, n, m, target);
    let r = e.r#type();
    if o == 12 {
        // a cast has the kind of the target and keeps the operand's width
        let w = wires(&ga);
        let want = match target {
            GT::UInt(_) => GT::UInt(w),
            GT::SInt(_) => GT::SInt(w),
            GT::Analog(_) => GT::Analog(w),
            GT::Fixed(_, p) => GT::Fixed(w, p),
            t => t,
        };
        sym::check(r == Ok(want), "cast has the wrong type");
        return;
    }
    matches(r, spec(o, ga, gb, sn, sm))
}

/// Unary operations, constant operands included.
fn p12_unary() {
    let o = sym::choice(OPS_ALL);
    if binary(o) {
        return;
    }
    let a = ground_any();
    run(o, a, Some(GT::Clock))
}

/// Binary operations.
fn p12_binary() {
    let o = sym::choice(27);
    if !binary(o) {
        return;
    }
    let a = ground_any();
    let b = if sym::flag() { Some(ground_any()) } else { None };
    run(o, a, b)
}

/// Aggregates and operands without a type are no operands.
fn p12_aggregate() {
    let o = sym::choice(OPS_ALL);
    let bad = || match sym::choice(4) {
        0 => rf(vec_t(uint(1), u16_any())),
        1 => rf(bundle(vec![])),
        2 => rf(bundle(vec![field("a", uint(2), sym::flag())])),
        _ => rfn("y", None),
    };
    let good = || {
        rf(match sym::choice(3) {
            0 => GT::Fixed(width_any(), point_any()),
            1 => GT::SInt(width_any()),
            _ => GT::UInt(width_any()),
        }
        .into())
    };
    let (first, second) = if !binary(o) {
        (true, false)
    } else {
        match sym::choice(3) {
            0 => (true, false),
            1 => (false, true),
            _ => (true, true),
        }
    };
    let a = if first { bad() } else { good() };
    let b = if second { bad() } else { good() };
    let r = op(o, a, b, u16_any(), u16_any(), GT::UInt(None)).r#type();
    // comparisons and reductions have the same type whatever the operands;
    // a divisor and a shift amount do not matter either
    let lenient = (5..=10).contains(&o) || (23..=25).contains(&o) || (!first && matches!(o, 3 | 16));
    if lenient {
        sym::log("free")
    } else {
        sym::reach(4);
        sym::check(r.is_err(), "an aggregate operand is accepted");
    }
}

/// An operand counts by its type only.
fn p12_nested() {
    let o = sym::choice(OPS_ALL);
    let g = match sym::choice(4) {
        0 => GT::UInt(width_any()),
        1 => GT::SInt(width_any()),
        2 => GT::Fixed(width_any(), point_any()),
        _ => GT::Clock,
    };
    let x = rf(g.into());
    let c = rf(uint(1));
    let (n, m) = (u16_any(), u16_any());
    let inner: Arc<Er> = Arc::new(match sym::choice(10) {
        0 => Expression::UIntLiteral { value: 5u8.into(), width: u16_any() },
        1 => Expression::SIntLiteral { value: (-5i8).into(), width: u16_any() },
        2 => Expression::SubField {
            base: rf(bundle(vec![field("b", clock_t(), false), field("a", g.into(), true)])),
            index: "a".into(),
        },
        3 => Expression::SubIndex { base: rf(vec_t(g.into(), 3)), index: u16_any() },
        4 => Expression::SubAccess { base: rf(vec_t(g.into(), 3)), index: c },
        5 => Expression::Mux { sel: c, a: x.clone(), b: x },
        6 => Expression::ValidIf { sel: c, value: x },
        7 => Op::Neg(x).into(),
        8 => Op::Add(x.clone(), x).into(),
        _ => Op::Cast(x, GT::Reset(ResetKind::Async)).into(),
    });
    let t = inner.r#type();
    let flat = rfn("z", t.ok());
    let gb = GT::UInt(width_any());
    let (ea, eb, fa, fb) = if binary(o) && sym::flag() {
        (rf(gb.into()), inner, rf(gb.into()), flat)
    } else {
        (inner, rf(gb.into()), flat, rf(gb.into()))
    };
    let r = op(o, ea, eb, n, m, GT::UInt(None)).r#type();
    let s = op(o, fa, fb, n, m, GT::UInt(None)).r#type();
    sym::reach(5);
    sym::check(r.ok() == s.ok(), "the type depends on more than the operand types");
}

// --- large ---
/// Far inside: only the operand's type counts.
fn p12_far() {
    let n = depth();
    let g = GT::UInt(Some(u16_any()));
    let (way, k) = (sym::choice(4), spot(n));
    let t = large(way, n, k, g.into(), orient_any());
    let mut e = rf(t);
    for f in large_path(way, n, k) {
        e = Arc::new(match f {
            true => Expression::SubField { base: e, index: "x".into() },
            false => Expression::SubIndex { base: e, index: 0 },
        })
    }
    // conversions that keep the type
    let o = match sym::choice(3) {
        0 => Op::Add(e.clone(), rf(uint(3))),
        1 => Op::Shl(e.clone(), 2),
        _ => Op::Not(e.clone()),
    };
    let x: Er = o.clone().into();
    let r = rf(g.into());
    let y: Er = match o {
        Op::Add(_, b) => Op::Add(r, b),
        Op::Shl(_, n) => Op::Shl(r, n),
        _ => Op::Not(r),
    }
    .into();
    sym::reach(5);
    match (x.r#type(), y.r#type()) {
        (Ok(t), Ok(u)) => sym::check(t == u, "an operand does not count by its type"),
        (Err(_), Err(_)) => {}
        _ => sym::fail("an operand does not count by its type"),
    }
    // many operations one over the other
    let w = 3;
    let mut e = rf(uint(w));
    let step = sym::choice(3);
    for i in 0..n {
        e = Arc::new(match if i == k { sym::choice(3) } else { step } {
            0 => Op::Not(e).into(),
            1 => Op::And(e, rf(uint(2))).into(),
            _ => Expression::Mux { sel: rf(uint(1)), a: e, b: rf(uint(1)) },
        })
    }
    sym::check(e.r#type() == Ok(uint(w)), "an operation over many has another type")
}
