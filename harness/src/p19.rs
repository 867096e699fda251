//! Instances, ports and lookups by name.
use super::{sym, util::*};

super::entries! { p19_instance, p19_ports, p19_modules, p19_lookup, p19_external, p19_many, p19_long }

fn small_type() -> Type {
    match sym::choice(4) {
        0 => ground_any().into(),
        1 => vec_t(GT::UInt(width_any()).into(), u16_any()),
        2 => vec_t(vec_t(GT::Analog(width_any()).into(), u16_any()), u16_any()),
        _ => bundle(vec![BundleField::new(sym::text(1, "ab"), clock_t()).with_orientation(orient_any())]),
    }
}
fn any_dir() -> Direction {
    if sym::flag() {
        Direction::Input
    } else {
        Direction::Output
    }
}
fn check(m: Arc<Module>, want: &[(String, Type, Direction)]) {
    let i = Instance::new("i", m.clone());
    sym::check(Arc::ptr_eq(i.module(), &m) && &**i.name() == "i", "an instance is of another module");
    let f = match i.r#type() {
        Ok(Type::Bundle(f)) => f,
        _ => sym::fail("an instance's type is no bundle"),
    };
    sym::reach(1);
    sym::check(f.len() == want.len(), "an instance has not one field per port");
    for (f, (n, t, d)) in f.iter().zip(want) {
        sym::check(f.name().as_ref() == n.as_str(), "a port has another name");
        sym::check(f.r#type() == t, "a port has another type");
        let flipped = f.orientation() == Orientation::Flipped;
        sym::check(flipped == matches!(d, Direction::Input), "a port has the wrong direction");
    }
    // through the entity and a selection
    let e = Expression::Reference(ent(Entity::Instance(i)));
    sym::check(e.r#type() == Ok(Type::Bundle(f)), "a reference to an instance has another type");
}

fn p19_instance() {
    let n = sym::choice(if sym::thorough() { 6 } else { 5 }) as usize;
    let ps: Vec<(String, Type, Direction)> = (0..n)
        .map(|i| {
            let t = if i == 0 { small_type() } else { uint(u16_any()) };
            (sym::text(1 + i % 2, IDENT), t, any_dir())
        })
        .collect();
    let ports: Vec<_> = ps.iter().map(|(n, t, d)| port(n, t.clone(), *d)).collect();
    let kind = if sym::flag() {
        ModKind::Regular { stmts: vec![StmtKind::Empty.into()] }
    } else {
        ModKind::empty_external()
    };
    let m = Arc::new(Module::new("N".into(), ports.clone(), kind));
    sym::check(m.ports().count() == n, "a port is lost");
    for (p, q) in m.ports().zip(&ports) {
        sym::check(Arc::ptr_eq(p, q), "ports are reordered");
    }
    check(m, &ps);
}

/// The first port with precisely that name, or nothing.
fn p19_ports() {
    let n = sym::choice(if sym::thorough() { 5 } else { 4 }) as usize;
    let name = || {
        let l = sym::choice(3) as usize;
        sym::text(l, "aA")
    };
    let ports: Vec<_> = (0..n).map(|i| port(&name(), uint(i as u16), any_dir())).collect();
    let m = module_of("N", ports.clone(), vec![]);
    let q = name();
    let mut want = None;
    for (i, p) in ports.iter().enumerate() {
        if want.is_none() && p.name().as_bytes() == q.as_bytes() {
            want = Some(i);
        }
    }
    sym::reach(2);
    match (m.port_by_name(&q), want) {
        (Some(p), Some(i)) => sym::check(Arc::ptr_eq(p, &ports[i]), "another port is found"),
        (None, None) => sym::reach(3),
        (Some(_), None) => sym::fail("a port of another name is found"),
        (None, Some(_)) => sym::fail("a port is not found"),
    }
}

/// Modules by name, added or parsed.
fn p19_modules() {
    let (a, b) = (1 + sym::choice(2) as usize, 1 + sym::choice(2) as usize);
    let (a, b) = (sym::text(a, "aB"), sym::text(b, "aB"));
    let text = format!("  module {} :\n    skip\n", a);
    let mut ms = module::Modules::new(&text);
    let other = module_of(&b, vec![], vec![]);
    sym::check(ms.module(&b).is_none() && ms.module(&a).is_none(), "a module is known before it is read");
    let added = sym::flag();
    if added {
        ms.add_module(other.clone());
        sym::check(ms.module(&b).map_or(false, |m| Arc::ptr_eq(m, &other)), "an added module is not found");
        sym::check(ms.module(&a).is_some() == (a == b), "a module is known before it is read");
    }
    match ms.next() {
        Some(Ok(m)) => {
            sym::reach(4);
            sym::check(m.name().as_ref() == a.as_str(), "a module has another name");
            sym::check(ms.module(&a).map_or(false, |n| Arc::ptr_eq(n, &m)), "a parsed module is not found");
            if a != b {
                sym::check(ms.module(&b).is_some() == added, "a module of another name is found");
            }
        }
        _ => sym::fail("a module is not accepted"),
    }
    sym::check(ms.next().is_none(), "more modules than written");
    let q = sym::text(1, "aBc");
    let known = ms.module(&q).is_some();
    sym::check(known == (q == a || added && q == b), "lookup is not by the precise name");
}

/// Only precisely the name finds a module or a port.
fn p19_lookup() {
    let names = ["a", "B", "aB", "a1", "_", "$x"];
    let name = names[sym::choice(6) as usize];
    let mut ms = module::Modules::new("");
    let p = input(name, uint(1));
    let m = module_of(name, vec![p.clone()], vec![]);
    ms.add_module(m.clone());
    let n = sym::choice(if sym::thorough() { 5 } else { 4 }) as usize;
    let q = sym::text(n, sym::ASCII);
    let same = q.as_bytes() == name.as_bytes();
    let is_m = |x: Option<&Arc<Module>>| x.map_or(false, |x| Arc::ptr_eq(x, &m));
    sym::check(ms.module(&q).is_some() == same && is_m(ms.module(&q)) == same, "lookup of modules is not by the precise name");
    let is_p = |x: Option<&Arc<Port>>| x.map_or(false, |x| Arc::ptr_eq(x, &p));
    sym::check(m.port_by_name(&q).is_some() == same && is_p(m.port_by_name(&q)) == same, "lookup of ports is not by the precise name");
    sym::reach(if same { 7 } else { 8 });
    // the latest one of that name
    let other = module_of(name, vec![], vec![]);
    ms.add_module(other.clone());
    sym::check(ms.module(name).map_or(false, |x| Arc::ptr_eq(x, &other)), "an added module is not found");
}

/// Instances in a parsed circuit are of the module that was named.
fn p19_external() {
    let n = 1 + sym::choice(2) as usize;
    let q = sym::text(n, "NMx");
    let text = format!(
        "circuit T :\n  extmodule N :\n    input a : UInt<1>\n  module M :\n    output a : UInt<1>\n  module T :\n    inst i of {}\n",
        q
    );
    match parse(&text) {
        Ok(c) => {
            sym::reach(5);
            sym::check(q == "N" || q == "M", "an instance of an unknown module is accepted");
            let m: Vec<_> = c.top_module().referenced_modules().collect();
            sym::check(m.len() == 1 && m[0].name().as_ref() == q, "an instance is of another module");
            let d = if q == "N" { Direction::Input } else { Direction::Output };
            check(m[0].clone(), &[("a".to_string(), uint(1), d)]);
        }
        Err(_) => {
            sym::reach(6);
            sym::check(q != "N" && q != "M", "an instance of a known module is not accepted")
        }
    }
}

// --- large ---
/// Many ports, many modules.
fn p19_many() {
    let n = size();
    let k = spot(n);
    let all = names(n);
    let ps: Vec<(String, Type, Direction)> = all
        .iter()
        .enumerate()
        .map(|(i, s)| (s.clone(), uint(i as u16), if i == k { any_dir() } else if i % 3 == 0 { Direction::Output } else { Direction::Input }))
        .collect();
    let ports: Vec<_> = ps.iter().map(|(n, t, d)| port(n, t.clone(), *d)).collect();
    let m = Arc::new(Module::new("N".into(), ports.clone(), ModKind::empty_external()));
    check(m.clone(), &ps);
    let q = match sym::choice(3) {
        0 => all[k].clone(),
        1 => all[spot(n)].clone(),
        _ => format!("{}_", ident(1)),
    };
    let want = all.iter().position(|s| s.as_bytes() == q.as_bytes());
    sym::reach(2);
    match (m.port_by_name(&q), want) {
        (Some(p), Some(i)) => sym::check(Arc::ptr_eq(p, &ports[i]), "another port is found"),
        (None, None) => {}
        (Some(_), None) => sym::fail("a port of another name is found"),
        (None, Some(_)) => sym::fail("a port is not found"),
    }
    // as modules, half of them added, half of them read
    let mut text = String::new();
    for s in &all[n / 2..] {
        text.push_str(&format!("  module {}:\n    skip\n", s))
    }
    let mut ms = module::Modules::new(&text);
    let added: Vec<_> = all[..n / 2].iter().map(|s| module_of(s, vec![], vec![])).collect();
    for m in &added {
        ms.add_module(m.clone())
    }
    let mut read = vec![];
    while let Some(m) = ms.next() {
        match m {
            Ok(m) => read.push(m),
            Err(_) => sym::fail("a module is not accepted"),
        }
    }
    sym::check(read.len() == n - n / 2, "another number of modules");
    match (ms.module(&q), want) {
        (Some(m), Some(i)) => {
            let w = if i < n / 2 { &added[i] } else { &read[i - n / 2] };
            sym::check(Arc::ptr_eq(m, w), "another module is found")
        }
        (None, None) => {}
        (Some(_), None) => sym::fail("a module of another name is found"),
        (None, Some(_)) => sym::fail("a module is not found"),
    }
}
/// Long names.
fn p19_long() {
    let n = size();
    let x = long_name(n);
    let q = match sym::choice(4) {
        0 => x.clone(),
        1 => long_name(n),
        2 => format!("{}a", x),
        _ => x[..n - 1].to_string(),
    };
    let p = input(&x, uint(1));
    let m = module_of(&x, vec![input("a", uint(2)), p.clone()], vec![]);
    let mut ms = module::Modules::new("");
    ms.add_module(m.clone());
    let want = q.as_bytes() == x.as_bytes();
    sym::reach(2);
    sym::check(ms.module(&q).map_or(false, |x| Arc::ptr_eq(x, &m)) == want && ms.module(&q).is_some() == want, "lookup of modules is not by the precise name");
    sym::check(m.port_by_name(&q).map_or(false, |x| Arc::ptr_eq(x, &p)) == want, "lookup of ports is not by the precise name");
}
