//! Data flow.
use super::{sym, util::*};

super::entries! { p17_roots, p17_path, p17_values, p17_entities, p17_flow, p17_large }

fn flow_any() -> Option<Flow> {
    match sym::choice(4) {
        0 => Some(Flow::Source),
        1 => Some(Flow::Sink),
        2 => Some(Flow::Duplex),
        _ => None,
    }
}
/// Source and sink exchanged an odd number of times?
fn exchanged(f: Flow, odd: bool) -> Flow {
    match f {
        Flow::Source if odd => Flow::Sink,
        Flow::Sink if odd => Flow::Source,
        f => f,
    }
}

fn p17_flow() {
    for f in [Flow::Source, Flow::Sink, Flow::Duplex] {
        let o = orient_any();
        sym::check(f + o == exchanged(f, o == Orientation::Flipped), "adding an orientation to a flow is wrong");
        sym::check(f.is_source() == (f != Flow::Sink), "is_source is wrong");
        sym::check(f.is_sink() == (f != Flow::Source), "is_sink is wrong");
    }
    sym::reach(1);
}

fn wire(n: &str, t: Type) -> Arc<Entity> {
    ent(Entity::Wire { name: n.into(), r#type: t })
}
fn r(e: &Arc<Entity>) -> Ex {
    Expression::Reference(e.clone())
}

fn p17_roots() {
    let t = match sym::choice(3) {
        0 => ground_any().into(),
        1 => vec_t(uint(3), u16_any()),
        _ => bundle(vec![BundleField::new("a", clock_t()).with_orientation(orient_any())]),
    };
    let clk = wire("clk", clock_t());
    let (e, want) = match sym::choice(14) {
        0 => (Entity::Port(input("p", t)), Some(Flow::Source)),
        1 => (Entity::Port(output("p", t)), Some(Flow::Sink)),
        2 => (Entity::Wire { name: "w".into(), r#type: t }, Some(Flow::Duplex)),
        3 => (Entity::Register(Register::new("r", t, r(&clk))), Some(Flow::Duplex)),
        4 => (
            Entity::Register(Register::new("r", t, r(&clk)).with_reset(r(&clk), r(&clk))),
            Some(Flow::Duplex),
        ),
        // a node is a source whatever it is made from
        5 => (Entity::Node { name: "n".into(), value: r(&wire("v", t)) }, Some(Flow::Source)),
        6 => (Entity::Node { name: "n".into(), value: r(&ent(Entity::Port(output("o", t)))) }, Some(Flow::Source)),
        7 => (Entity::Memory(mem::Memory::new("m", t, sym::int(64))), Some(Flow::Source)),
        8 => (
            Entity::Instance(Instance::new("i", module_of("N", vec![input("p", t)], vec![]))),
            Some(Flow::Source),
        ),
        k => {
            let (d, want) = match sym::choice(4) {
                0 => (Some(PortDir::Read), Some(Flow::Source)),
                1 => (Some(PortDir::Write), Some(Flow::Sink)),
                2 => (Some(PortDir::ReadWrite), Some(Flow::Duplex)),
                _ => (None, None),
            };
            let kind = match k {
                9 => simple::Kind::Combinatory,
                10 => simple::Kind::Sequential(None),
                11 => simple::Kind::Sequential(Some(ReadUnderWrite::New)),
                12 => simple::Kind::Sequential(Some(ReadUnderWrite::Old)),
                _ => simple::Kind::Sequential(Some(ReadUnderWrite::Undefined)),
            };
            let m = Arc::new(simple::Memory::new("m", vec_t(t, u16_any()), kind));
            (Entity::SimpleMemPort(simple::Port::new("p", m, d, r(&clk), r(&clk))), want)
        }
    };
    let e = ent(e);
    sym::check(Reference::flow(&e) == want, "an entity has the wrong flow");
    let x = r(&e);
    sym::reach(2);
    match (x.flow(), want) {
        (Ok(f), Some(w)) => sym::check(f == w, "a reference has the wrong flow"),
        (Err(y), None) => sym::check(y == x, "the error names another expression"),
        (Ok(_), None) => sym::fail("an undetermined flow is reported"),
        (Err(_), Some(_)) => sym::fail("a determined flow is not reported"),
    }
}

/// A path of selections from a root.
fn p17_path() {
    let depth = sym::choice(if sym::thorough() { 7 } else { 5 });
    let mut t: Type = GT::UInt(width_any()).into();
    let mut steps = vec![];
    let mut odd = false;
    for i in 0..depth {
        let k = sym::choice(5);
        t = match k {
            0 | 1 | 4 => vec_t(t, u16_any()),
            _ => {
                let o = orient_any();
                odd ^= o == Orientation::Flipped;
                let name = if i % 2 == 0 { "x" } else { "y" };
                let f = BundleField::new(name, t).with_orientation(o);
                let g = BundleField::new("z", clock_t()).with_orientation(orient_any());
                bundle(if k == 2 { vec![f, g] } else { vec![g, f] })
            }
        };
        steps.push((k, i));
    }
    let root = flow_any();
    let base: Arc<Er> = Arc::new(Expression::Reference(R { name: "r".into(), ty: Some(t), flow: root }));
    let mut e = base.clone();
    for (k, i) in steps.iter().rev() {
        e = Arc::new(match k {
            0 => Expression::SubIndex { base: e, index: u16_any() },
            // the flow of the index does not matter
            1 => Expression::SubAccess {
                base: e,
                index: Arc::new(Expression::Reference(R { name: "i".into(), ty: Some(uint(2)), flow: None })),
            },
            // nor does it matter whether it is known
            // it may be the value itself
            4 if i % 2 == 1 && sym::flag() => Expression::SubAccess { base: e.clone(), index: e },
            4 => Expression::SubAccess {
                base: e,
                index: Arc::new(match i % 3 {
                    0 => Expression::UIntLiteral { value: 1u8.into(), width: u16_any() },
                    1 => Op::Add(base.clone(), base.clone()).into(),
                    _ => Expression::SubIndex { base: base.clone(), index: u16_any() },
                }),
            },
            _ => Expression::SubField { base: e, index: if i % 2 == 0 { "x" } else { "y" }.into() },
        });
    }
    match (e.flow(), root) {
        (Ok(f), Some(w)) => {
            sym::reach(3);
            sym::check(f == exchanged(w, odd), "the flow of a selection is wrong")
        }
        (Err(y), None) => {
            sym::reach(4);
            sym::check(y == *base, "the error names another expression")
        }
        (Ok(_), None) => sym::fail("an undetermined flow is reported"),
        (Err(_), Some(_)) => sym::fail("a determined flow is not reported"),
    }
    // a field that is not there
    let bad: Er = Expression::SubField { base: e, index: "missing".into() };
    sym::check(bad.flow().is_err(), "a missing field has a flow");
}

/// Literals and computed values.
fn p17_values() {
    let x: Arc<Er> = Arc::new(Expression::Reference(R { name: "x".into(), ty: Some(uint(2)), flow: flow_any() }));
    let e: Er = match sym::choice(5) {
        0 => Expression::UIntLiteral { value: 1u8.into(), width: u16_any() },
        1 => Expression::SIntLiteral { value: 1u8.into(), width: u16_any() },
        2 => Expression::Mux { sel: x.clone(), a: x.clone(), b: x.clone() },
        3 => Expression::ValidIf { sel: x.clone(), value: x.clone() },
        _ => op(sym::choice(OPS_ALL), x.clone(), x.clone(), u16_any(), u16_any(), GT::Clock).into(),
    };
    sym::reach(5);
    sym::check(e.flow() == Ok(Flow::Source), "a computed value is not a source");
    // and so is everything indexed out of one
    let v: Er = Expression::SubIndex { base: Arc::new(e), index: u16_any() };
    sym::check(v.flow() == Ok(Flow::Source), "an element of a computed value is not a source");
}

/// Memory and instance ports: flips of the derived bundles count.
fn p17_entities() {
    let data = bundle(vec![BundleField::new("q", uint(1)).with_orientation(orient_any())]);
    match sym::choice(2) {
        0 => {
            let mut m = mem::Memory::new("m", data, sym::int(64));
            m.add_port(mem::Port { name: "r".into(), dir: PortDir::Read });
            m.add_port(mem::Port { name: "w".into(), dir: PortDir::Write });
            m.add_port(mem::Port { name: "x".into(), dir: PortDir::ReadWrite });
            let root = Arc::new(Expression::Reference(ent(Entity::Memory(m))));
            let sel = |p: &str, f: &str| -> Ex {
                let b = Expression::SubField { base: root.clone(), index: p.into() };
                Expression::SubField { base: Arc::new(b), index: f.into() }
            };
            for (p, f, w) in [
                ("r", "data", Flow::Source),
                ("r", "addr", Flow::Sink),
                ("r", "en", Flow::Sink),
                ("r", "clk", Flow::Sink),
                ("w", "data", Flow::Sink),
                ("w", "mask", Flow::Sink),
                ("w", "addr", Flow::Sink),
                ("w", "en", Flow::Sink),
                ("w", "clk", Flow::Sink),
                ("x", "rdata", Flow::Source),
                ("x", "wdata", Flow::Sink),
                ("x", "wmask", Flow::Sink),
                ("x", "wmode", Flow::Sink),
                ("x", "addr", Flow::Sink),
                ("x", "en", Flow::Sink),
                ("x", "clk", Flow::Sink),
            ] {
                sym::check(sel(p, f).flow() == Ok(w), "the flow of a memory port is wrong");
            }
            sym::reach(6);
        }
        _ => {
            let (din, dout) = (input("a", data.clone()), output("b", data.clone()));
            let m = module_of("N", vec![din, dout], vec![]);
            let root = Arc::new(Expression::Reference(ent(Entity::Instance(Instance::new("i", m)))));
            let f = |p: &str| Arc::new(Expression::SubField { base: root.clone(), index: p.into() });
            sym::reach(7);
            sym::check(f("a").flow() == Ok(Flow::Sink), "an instance's input is not a sink");
            sym::check(f("b").flow() == Ok(Flow::Source), "an instance's output is not a source");
            let odd = data.field("q").map(|f| f.orientation()) == Some(Orientation::Flipped);
            let q = |p: &str| Expression::SubField { base: f(p), index: "q".into() };
            sym::check(q("a").flow() == Ok(exchanged(Flow::Sink, odd)), "the flow of an instance's port field is wrong");
            sym::check(q("b").flow() == Ok(exchanged(Flow::Source, odd)), "the flow of an instance's port field is wrong");
        }
    }
}

// --- large ---
/// Far inside: every flip on the way counts.
fn p17_large() {
    let (way, n, k) = large_kind();
    let o = orient_any();
    let t = large(way, n, k, uint(1), o);
    let root = [Flow::Source, Flow::Sink, Flow::Duplex][sym::choice(3) as usize];
    let mut e: Arc<Er> = Arc::new(Expression::Reference(R { name: "r".into(), ty: Some(t), flow: Some(root) }));
    for f in large_path(way, n, k) {
        e = Arc::new(match f {
            true => Expression::SubField { base: e, index: "x".into() },
            false => Expression::SubIndex { base: e, index: 0 },
        })
    }
    sym::reach(3);
    let odd = large_odd(way, n, k, o == Orientation::Flipped);
    sym::check(e.flow() == Ok(exchanged(root, odd)), "the flow of a selection is wrong")
}
