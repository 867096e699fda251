//! Memory types.
use super::{sym, util::*};
use firrtl_ast::types::required_address_width;

super::entries! { p18_address, p18_wide, p18_ports, p18_data, p18_mixed, p18_simple, p18_many }

/// As narrow as possible while still addressing every element.
fn exact(w: u16, depth: u128) -> bool {
    let addressed = w >= 128 || depth <= 1u128 << w;
    let narrower = w > 0 && (w > 128 || depth <= 1u128 << (w - 1));
    addressed && !narrower
}

fn p18_address() {
    let d = sym::int(64);
    let mut m = mem::Memory::new("m", uint(3), d);
    m.add_port(mem::Port { name: "r".into(), dir: PortDir::Read });
    sym::check(m.depth() == d, "depth is wrong");
    let w = required_address_width(d);
    sym::reach(1);
    sym::check(exact(w, d as u128), "the address is not as narrow as possible");
    let t = m.r#type();
    let want = bundle(vec![field("r", port_type(PortDir::Read, &uint(3), w), true)]);
    sym::check(t == Ok(want), "a memory has another address width");
}

/// Numbers beyond 64 bits.
fn p18_wide() {
    let d = (sym::int(64) as u128) << 64 | sym::int(64) as u128;
    let w = required_address_width(d);
    sym::reach(2);
    sym::check(exact(w, d), "the address is not as narrow as possible");
}

fn mask(t: &Type) -> Type {
    match t {
        Type::GroundType(_) => uint(1),
        Type::Vector(t, n) => vec_t(mask(t), *n),
        Type::Bundle(f) => bundle(
            f.iter()
                .map(|f| BundleField::new(f.name().clone(), mask(f.r#type())).with_orientation(f.orientation()))
                .collect(),
        ),
    }
}
fn port_type(d: PortDir, data: &Type, addr: u16) -> Type {
    let n = |n: &str, t: Type| field(n, t, false);
    let mut v = match d {
        PortDir::Read => vec![field("data", data.clone(), true)],
        PortDir::Write => vec![n("data", data.clone()), n("mask", mask(data))],
        PortDir::ReadWrite => vec![
            n("wmode", uint(1)),
            field("rdata", data.clone(), true),
            n("wdata", data.clone()),
            n("wmask", mask(data)),
        ],
    };
    v.push(n("addr", uint(addr)));
    v.push(n("en", uint(1)));
    v.push(n("clk", clock_t()));
    bundle(v)
}
fn dir() -> PortDir {
    match sym::choice(3) {
        0 => PortDir::Read,
        1 => PortDir::Write,
        _ => PortDir::ReadWrite,
    }
}
/// Fields by name: their order inside a port carries no meaning.
fn same_port(t: &Type, want: &Type) -> bool {
    match (t, want) {
        (Type::Bundle(a), Type::Bundle(b)) => {
            a.len() == b.len()
                && b.iter().all(|f| {
                    t.field(f.name()).map_or(false, |g| g.orientation() == f.orientation() && g.r#type() == f.r#type())
                })
        }
        _ => false,
    }
}

/// Every list of ports.
fn p18_ports() {
    let n = sym::choice(if sym::thorough() { 5 } else { 4 }) as usize;
    let ps: Vec<(String, PortDir)> = (0..n)
        .map(|_| (sym::text(1, IDENT), dir()))
        .collect();
    let data: Type = GT::SInt(width_any()).into();
    let mut m = mem::Memory::new("m", data.clone(), 5)
        .with_read_latency(u16_any())
        .with_write_latency(u16_any())
        .with_read_under_write(ReadUnderWrite::Old);
    // one at a time or in bulk
    let k = sym::choice(n as u32 + 1) as usize;
    for (n, d) in &ps[..k] {
        m.add_port(mem::Port { name: n.as_str().into(), dir: *d });
    }
    m.add_ports(ps[k..].iter().map(|(n, d)| mem::Port { name: n.as_str().into(), dir: *d }));
    sym::check(m.ports().count() == n, "a port is lost");
    match m.r#type() {
        Ok(Type::Bundle(f)) => {
            sym::reach(3);
            sym::check(f.len() == n, "a memory has not one field per port");
            for (f, (n, d)) in f.iter().zip(&ps) {
                sym::check(f.name().as_ref() == n.as_str(), "a port field has another name");
                sym::check(f.orientation() == Orientation::Flipped, "a port field is not flipped");
                sym::check(same_port(f.r#type(), &port_type(*d, &data, 3)), "a port has the wrong fields");
            }
        }
        _ => sym::fail("a memory's type is no bundle"),
    }
}

fn data_type(depth: u32) -> Type {
    match if depth == 0 { 0 } else { sym::choice(3) } {
        0 => match sym::choice(3) {
            0 => GT::UInt(width_any()),
            1 => GT::Fixed(width_any(), point_any()),
            _ => GT::Clock,
        }
        .into(),
        1 => vec_t(data_type(depth - 1), u16_any()),
        _ => {
            let n = sym::choice(3);
            bundle(
                (0..n)
                    .map(|_| {
                        let t = data_type(depth - 1);
                        BundleField::new(sym::text(1, IDENT), t).with_orientation(orient_any())
                    })
                    .collect(),
            )
        }
    }
}

/// Every data type, with its mask.
fn p18_data() {
    let data = data_type(2);
    let d = dir();
    let mut m = mem::Memory::new("m", data.clone(), 1);
    m.add_port(mem::Port { name: "p".into(), dir: d });
    sym::check(*m.data_type() == data, "data type is wrong");
    match m.r#type() {
        Ok(Type::Bundle(f)) => {
            sym::reach(4);
            sym::check(f.len() == 1 && same_port(f[0].r#type(), &port_type(d, &data, 0)), "a port has the wrong fields")
        }
        _ => sym::fail("a memory's type is no bundle"),
    }
}

/// Ports of combinational and sequential memories.
fn p18_simple() {
    let el = data_type(1);
    let t = match sym::choice(3) {
        0 => el.clone(),
        _ => vec_t(el.clone(), u16_any()),
    };
    let kind = match sym::choice(3) {
        0 => simple::Kind::Combinatory,
        1 => simple::Kind::Sequential(None),
        _ => simple::Kind::Sequential(Some(ReadUnderWrite::Undefined)),
    };
    let m = Arc::new(simple::Memory::new("m", t.clone(), kind));
    let clk = Expression::Reference(R { name: "c".into(), ty: None, flow: None });
    let d = if sym::flag() { Some(dir()) } else { None };
    let p = simple::Port::new("p", m.clone(), d, clk.clone(), clk);
    sym::check(m.r#type() == Ok(t.clone()), "a memory's type is wrong");
    match (p.r#type(), t.vector_base()) {
        (Ok(x), Some(b)) => {
            sym::reach(5);
            sym::check(x == **b, "a memory port has another type than the memory's elements")
        }
        (Err(x), None) => sym::check(Arc::ptr_eq(&x, &m), "the error names another memory"),
        (Ok(_), None) => sym::fail("a port of a memory without elements has a type"),
        (Err(_), Some(_)) => sym::fail("a memory port has no type"),
    }
}

// --- large ---
/// Many ports, large data.
fn p18_many() {
    let n = size();
    let k = spot(n);
    let ps: Vec<(String, PortDir)> = names(n)
        .into_iter()
        .enumerate()
        .map(|(i, s)| (s, if i == k { dir() } else { [PortDir::Read, PortDir::ReadWrite, PortDir::Write][i % 3] }))
        .collect();
    let (way, l, at) = (sym::choice(4), depth(), sym::choice(2) as usize);
    let (data, some) = match sym::flag() {
        true => (uint(7), ps),
        false => (large(way, l, at, uint(3), orient_any()), vec![ps[k].clone()]),
    };
    let mut m = mem::Memory::new("m", data.clone(), 300);
    m.add_ports(some.iter().map(|(n, d)| mem::Port { name: n.as_str().into(), dir: *d }));
    match m.r#type() {
        Ok(Type::Bundle(f)) => {
            sym::reach(3);
            sym::check(f.len() == some.len(), "a memory has not one field per port");
            for (f, (n, d)) in f.iter().zip(&some) {
                sym::check(f.name().as_ref() == n.as_str(), "a port field has another name");
                sym::check(f.orientation() == Orientation::Flipped, "a port field is not flipped");
                sym::check(same_port(f.r#type(), &port_type(*d, &data, 9)), "a port has the wrong fields");
            }
        }
        _ => sym::fail("a memory's type is no bundle"),
    }
}
/// Data of several fields of different kinds.
fn p18_mixed() {
    let data = bundle(mixed_fields(4));
    let data = if sym::flag() { vec_t(data, 2) } else { data };
    let d = dir();
    let mut m = mem::Memory::new("m", data.clone(), 9);
    m.add_port(mem::Port { name: "p".into(), dir: d });
    match m.r#type() {
        Ok(Type::Bundle(f)) => {
            sym::reach(4);
            sym::check(f.len() == 1 && same_port(f[0].r#type(), &port_type(d, &data, 4)), "a port has the wrong fields")
        }
        _ => sym::fail("a memory's type is no bundle"),
    }
}
