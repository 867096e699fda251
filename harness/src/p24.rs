//! Items are what they were built from, and equal exactly if that is equal.
use super::{sym, util::*};
use firrtl_ast::types::OrientedType;

super::entries! { p24_memory, p24_ports, p24_register, p24_simple, p24_port, p24_field, p24_type, p24_oriented, p24_module, p24_params, p24_info, p24_entity, p24_stmt, p24_expr, p24_circuit, p24_large }

fn w1(n: u16) -> Type {
    uint(n)
}
fn num(n: u16) -> Ex {
    Expression::UIntLiteral { value: 1u8.into(), width: n }
}
fn ruw() -> ReadUnderWrite {
    match sym::choice(3) {
        0 => ReadUnderWrite::Old,
        1 => ReadUnderWrite::New,
        _ => ReadUnderWrite::Undefined,
    }
}
fn ruw_no(r: ReadUnderWrite) -> u32 {
    match r {
        ReadUnderWrite::Old => 0,
        ReadUnderWrite::New => 1,
        ReadUnderWrite::Undefined => 2,
    }
}
fn dir() -> PortDir {
    match sym::choice(3) {
        0 => PortDir::Read,
        1 => PortDir::Write,
        _ => PortDir::ReadWrite,
    }
}
fn opt_dir() -> Option<PortDir> {
    if sym::flag() {
        Some(dir())
    } else {
        None
    }
}
fn dir_no(d: Option<PortDir>) -> u32 {
    match d {
        None => 0,
        Some(PortDir::Read) => 1,
        Some(PortDir::Write) => 2,
        Some(PortDir::ReadWrite) => 3,
    }
}
fn name() -> String {
    let n = sym::choice(3) as usize;
    sym::text(n, "aA_")
}
fn same_name(a: &str, b: &str) -> bool {
    a.as_bytes() == b.as_bytes()
}
/// The comparison of two items built from parts: equal exactly if `want`.
fn compare<T: PartialEq>(a: &T, b: &T, want: bool, what: &str) {
    sym::reach(if want { 1 } else { 2 });
    sym::check((a == b) == want, what);
    sym::check((b == a) == want, what);
    sym::check(a == a && !(a != a), what);
}

#[derive(Clone)]
struct M {
    name: String,
    ty: u16,
    depth: u64,
    rl: u16,
    wl: u16,
    ruw: ReadUnderWrite,
}
fn build(m: &M, steps: &[u32]) -> mem::Memory {
    let mut r = mem::Memory::new(m.name.as_str(), w1(m.ty), m.depth);
    for s in steps {
        r = match s {
            0 => r.with_read_latency(m.rl),
            1 => r.with_write_latency(m.wl),
            _ => r.with_read_under_write(m.ruw),
        }
    }
    r
}
/// Attributes of a memory, set in any order, or not at all.
fn p24_memory() {
    let m = M { name: name(), ty: u16_any(), depth: sym::int(64), rl: u16_any(), wl: u16_any(), ruw: ruw() };
    let n = sym::choice(if sym::thorough() { 5 } else { 4 });
    let steps: Vec<u32> = (0..n).map(|_| sym::choice(3)).collect();
    // what was set before does not count
    let mut first = m.clone();
    first.rl = u16_any();
    first.wl = u16_any();
    first.ruw = ReadUnderWrite::Old;
    let mut r = mem::Memory::new(m.name.as_str(), w1(m.ty), m.depth);
    for (i, s) in steps.iter().enumerate() {
        let v = if steps[i + 1..].contains(s) { &first } else { &m };
        r = match s {
            0 => r.with_read_latency(v.rl),
            1 => r.with_write_latency(v.wl),
            _ => r.with_read_under_write(v.ruw),
        }
    }
    sym::check(same_name(r.name(), &m.name), "a memory has another name");
    sym::check(*r.data_type() == w1(m.ty), "a memory has another data type");
    sym::check(r.depth() == m.depth, "a memory has another depth");
    sym::check(r.read_latency() == if steps.contains(&0) { m.rl } else { 0 }, "a memory has another read latency");
    sym::check(r.write_latency() == if steps.contains(&1) { m.wl } else { 0 }, "a memory has another write latency");
    let want = if steps.contains(&2) { m.ruw } else { ReadUnderWrite::Undefined };
    sym::check(ruw_no(r.read_under_write()) == ruw_no(want), "a memory has another read-under-write behaviour");
    sym::check(r.ports().count() == 0, "a memory has a port");
    sym::reach(3);
    // only one thing differs
    let mut o = m.clone();
    let k = sym::choice(6);
    match k {
        0 => o.name = name(),
        1 => o.ty = u16_any(),
        2 => o.depth = sym::int(64),
        3 => o.rl = u16_any(),
        4 => o.wl = u16_any(),
        _ => o.ruw = ruw(),
    }
    let same = same_name(&o.name, &m.name) && o.ty == m.ty && o.depth == m.depth && o.rl == m.rl && o.wl == m.wl && ruw_no(o.ruw) == ruw_no(m.ruw);
    compare(&build(&m, &[0, 1, 2]), &build(&o, &[2, 1, 0]), same, "equality of memories is wrong")
}

/// Ports of a memory, one by one or several at once.
fn p24_ports() {
    let n = sym::choice(if sym::thorough() { 5 } else { 4 }) as usize;
    let mut m = mem::Memory::new("m", w1(1), 1);
    let mut all = vec![];
    for _ in 0..n {
        let mut p = vec![];
        for _ in 0..sym::choice(3) {
            p.push((name(), dir()))
        }
        let v: Vec<mem::Port> = p.iter().map(|(n, d)| mem::Port { name: n.as_str().into(), dir: *d }).collect();
        if p.len() == 1 && sym::flag() {
            m.add_port(v[0].clone())
        } else {
            m.add_ports(v)
        }
        all.extend(p);
        if all.len() > 3 {
            break;
        }
    }
    let got: Vec<&mem::Port> = m.ports().collect();
    sym::check(got.len() == all.len(), "a memory has another number of ports");
    sym::reach(4);
    for (p, (n, d)) in got.iter().zip(&all) {
        sym::check(same_name(&p.name, n) && dir_no(Some(p.dir)) == dir_no(Some(*d)), "a memory has another port");
    }
    // the order counts
    if all.len() == 2 {
        let mut o = mem::Memory::new("m", w1(1), 1);
        for (n, d) in all.iter().rev() {
            o.add_port(mem::Port { name: n.as_str().into(), dir: *d })
        }
        let same = same_name(&all[0].0, &all[1].0) && dir_no(Some(all[0].1)) == dir_no(Some(all[1].1));
        compare(&m, &o, same, "equality of memories is wrong")
    }
}

fn p24_register() {
    let (t, c, s, v) = (u16_any(), u16_any(), u16_any(), u16_any());
    let n = name();
    let r = Register::new(n.as_str(), w1(t), num(c));
    let old = || Register::with_reset(r.clone(), num(c), num(t));
    let k = sym::choice(7);
    let (x, want) = match k {
        0 => (r.clone(), false),
        1 => (r.clone().with_reset(num(s), num(v)), true),
        2 => (r.clone().with_optional_reset(Some((num(s), num(v)))), true),
        3 => (old().with_optional_reset(None), false),
        4 => (old().without_reset(), false),
        5 => (old().with_reset(num(s), num(v)), true),
        _ => (old().with_optional_reset(Some((num(s), num(v)))), true),
    };
    sym::reach(5);
    sym::check(same_name(x.name(), &n), "a register has another name");
    sym::check(Typed::r#type(&x) == Ok(w1(t)), "a register has another type");
    sym::check(*x.clock() == num(c), "a register has another clock");
    let (ns, nv) = (num(s), num(v));
    sym::check(x.reset_signal() == if want { Some(&ns) } else { None }, "a register has another reset signal");
    sym::check(x.reset_value() == if want { Some(&nv) } else { None }, "a register has another reset value");
    let mut o = [t, c, s, v];
    let i = sym::choice(5) as usize;
    let mut m = n.clone();
    if i < 4 {
        o[i] = u16_any()
    } else {
        m = name()
    }
    let mut y = Register::new(m.as_str(), w1(o[0]), num(o[1]));
    let both = sym::flag() == want;
    if both == want {
        y = y.with_reset(num(o[2]), num(o[3]))
    }
    let same = both && same_name(&n, &m) && o[0] == t && o[1] == c && (!want || o[2] == s && o[3] == v);
    compare(&x, &y, same, "equality of registers is wrong")
}

fn skind() -> simple::Kind {
    match sym::choice(3) {
        0 => simple::Kind::Combinatory,
        1 => simple::Kind::Sequential(None),
        _ => simple::Kind::Sequential(Some(ruw())),
    }
}
fn skind_no(k: simple::Kind) -> u32 {
    match k {
        simple::Kind::Combinatory => 0,
        simple::Kind::Sequential(None) => 1,
        simple::Kind::Sequential(Some(r)) => 2 + ruw_no(r),
    }
}
fn p24_simple() {
    let mk = || (name(), u16_any(), skind());
    let (a, b) = (mk(), mk());
    let f = |x: &(String, u16, simple::Kind)| simple::Memory::new(x.0.as_str(), vec_t(w1(x.1), 2), x.2);
    let (x, y) = (f(&a), f(&b));
    sym::reach(6);
    sym::check(same_name(x.name(), &a.0), "a memory has another name");
    sym::check(skind_no(x.kind()) == skind_no(a.2), "a memory has another kind");
    let word = if skind_no(a.2) == 0 { "cmem" } else { "smem" };
    sym::check(x.kind().keyword() == word, "a kind of memory has another keyword");
    let same = same_name(&a.0, &b.0) && a.1 == b.1 && skind_no(a.2) == skind_no(b.2);
    compare(&x, &y, same, "equality of memories is wrong")
}
fn p24_port() {
    let k = simple::Kind::Combinatory;
    let mems: Vec<_> = (0..2).map(|i| Arc::new(simple::Memory::new(["s", "t"][i], vec_t(w1(1), 2), k))).collect();
    let mk = |i: usize, n: &str, d, a, c| simple::Port::<Arc<Entity>>::new(n, mems[i].clone(), d, num(a), num(c));
    let (n, d, a, c) = (name(), opt_dir(), u16_any(), u16_any());
    let x = mk(0, &n, d, a, c);
    sym::reach(7);
    sym::check(same_name(x.name(), &n), "a port has another name");
    sym::check(Arc::ptr_eq(x.memory(), &mems[0]), "a port is of another memory");
    sym::check(dir_no(x.direction()) == dir_no(d), "a port has another direction");
    sym::check(*x.address() == num(a), "a port has another address");
    sym::check(*x.clock() == num(c), "a port has another clock");
    let (mut m, mut e, mut b, mut g, mut i) = (n.clone(), d, a, c, 0);
    match sym::choice(5) {
        0 => m = name(),
        1 => e = opt_dir(),
        2 => b = u16_any(),
        3 => g = u16_any(),
        _ => i = 1,
    }
    let same = same_name(&n, &m) && dir_no(d) == dir_no(e) && a == b && c == g && i == 0;
    compare(&x, &mk(i, &m, e, b, g), same, "equality of memory ports is wrong");
    let word = ["mport", "read mport", "write mport", "rdwr mport"];
    let _ = word;
}

fn p24_field() {
    let (n, t, u) = (name(), u16_any(), u16_any());
    let f = BundleField::new(n.as_str(), w1(t));
    sym::check(f.orientation() == Orientation::Normal, "a new field is flipped");
    let o = orient_any();
    let (g, want_t, want_o) = match sym::choice(5) {
        0 => (f.clone(), t, Orientation::Normal),
        1 => (f.clone().with_orientation(o), t, o),
        2 => (f.clone().with_orientation(o).flipped(), t, o + Orientation::Flipped),
        3 => (f.clone().with_orientation(o).with_type(w1(u)), u, o),
        _ => (f.clone().flipped().with_orientation(o), t, o),
    };
    sym::reach(8);
    sym::check(same_name(g.name(), &n), "a field has another name");
    sym::check(*g.r#type() == w1(want_t), "a field has another type");
    sym::check(g.orientation() == want_o, "a field has another orientation");
    let (m, p) = (name(), orient_any());
    let h = BundleField::new(m.as_str(), w1(u)).with_orientation(p);
    compare(&g, &h, same_name(&n, &m) && want_t == u && want_o == p, "equality of fields is wrong")
}

fn gno(g: &GT) -> u32 {
    match g {
        GT::UInt(_) => 0,
        GT::SInt(_) => 1,
        GT::Fixed(..) => 2,
        GT::Clock => 3,
        GT::Reset(ResetKind::Regular) => 4,
        GT::Reset(ResetKind::Async) => 5,
        GT::Analog(_) => 6,
    }
}
fn parts(g: &GT) -> (BitWidth, Option<SBits>) {
    match *g {
        GT::UInt(w) | GT::SInt(w) | GT::Analog(w) => (w, None),
        GT::Fixed(w, p) => (w, p),
        _ => (None, None),
    }
}
fn p24_type() {
    let g = ground_any();
    let (w, p) = parts(&g);
    let fixed_one = (3..=5).contains(&gno(&g));
    sym::check(g.width() == if fixed_one { Some(1) } else { w }, "a ground type has another width");
    let v = width_any();
    let h = g.with_width(v);
    sym::check(gno(&h) == gno(&g), "setting the width changes the kind of type");
    sym::check(parts(&h) == (if fixed_one { None } else { v }, p), "setting the width has another effect");
    let k = ground_any();
    let same = gno(&g) == gno(&k) && parts(&g) == parts(&k);
    compare(&g, &k, same, "equality of ground types is wrong");
    let t = Type::from(g);
    sym::check(TypeExt::ground_type(&t) == Some(g) && t == g, "a type is of another ground type");
    sym::check((t == k) == same, "equality of a type and a ground type is wrong");
    sym::check(t.vector().is_none() && t.vector_base().is_none() && t.field("").is_none() && t.fields().is_none(), "a ground type is an aggregate");
    // vectors
    let (n, m) = (u16_any(), u16_any());
    let x = vec_t(t.clone(), n);
    sym::reach(9);
    match (x.vector(), x.vector_base()) {
        (Some((b, l)), Some(c)) => sym::check(**b == t && l == n && **c == t, "a vector is of another type"),
        _ => sym::fail("a vector is no vector"),
    }
    sym::check(TypeExt::ground_type(&x).is_none() && x.field("").is_none() && x.fields().is_none() && !(x == g), "a vector is another type");
    compare(&x, &vec_t(k.into(), m), same && n == m, "equality of vectors is wrong");
    compare(&x, &t, false, "equality of types is wrong")
}
fn p24_oriented() {
    let n = sym::choice(if sym::thorough() { 4 } else { 3 }) as usize;
    let f: Vec<(String, u16, Orientation)> = (0..n).map(|_| (name(), u16_any(), orient_any())).collect();
    let mk = |f: &[(String, u16, Orientation)]| -> Vec<BundleField> {
        f.iter().map(|(n, t, o)| BundleField::new(n.as_str(), w1(*t)).with_orientation(*o)).collect()
    };
    let t: Type = if sym::flag() { mk(&f).into() } else { mk(&f).into_iter().collect() };
    sym::check(TypeExt::ground_type(&t).is_none() && t.vector().is_none(), "a bundle is another type");
    let v: Vec<&BundleField> = t.fields().map_or(vec![], |v| v.collect());
    sym::check(v.len() == n, "a bundle has another number of fields");
    for (g, (m, w, o)) in v.iter().zip(&f) {
        sym::check(same_name(g.name(), m) && *g.r#type() == w1(*w) && g.orientation() == *o, "a bundle has another field");
    }
    // the first field of that name
    let q = name();
    let mut want = None;
    for (i, x) in f.iter().enumerate() {
        if want.is_none() && same_name(&x.0, &q) {
            want = Some(i)
        }
    }
    match (t.field(&q), want) {
        (Some(g), Some(i)) => sym::check(same(g, v[i]), "another field is found"),
        (None, None) => sym::reach(10),
        _ => sym::fail("a field is not found, or one of another name"),
    }
    // with every field seen from outside
    let o = orient_any();
    let x = t.with_orientation(o);
    let fl = x.flipped();
    match (&x, &fl) {
        (OrientedType::Bundle(x), OrientedType::Bundle(y)) => {
            sym::check(x.len() == n && y.len() == n, "a bundle has another number of fields");
            for (i, (m, w, p)) in f.iter().enumerate() {
                let want = |q: Orientation| OrientedType::GroundType(GT::UInt(Some(*w)), q);
                sym::check(same_name(&x[i].0, m) && x[i].1 == want(*p + o), "an oriented field is another");
                sym::check(same_name(&y[i].0, m) && y[i].1 == want(*p + o + Orientation::Flipped), "a flipped field is another");
            }
            sym::reach(11)
        }
        _ => sym::fail("a bundle is no bundle"),
    }
    sym::check(fl.flipped() == x, "flipping twice changes a type");
    if n == 2 {
        let mut g = f.clone();
        g.swap(0, 1);
        let same = same_name(&f[0].0, &f[1].0) && f[0].1 == f[1].1 && f[0].2 == f[1].2;
        compare(&t, &bundle(mk(&g)), same, "equality of bundles is wrong")
    }
    compare(&t, &bundle(mk(&f)), true, "equality of bundles is wrong");
    if n > 0 {
        compare(&t, &bundle(mk(&f[1..])), false, "equality of bundles is wrong");
        compare(&t, &bundle(mk(&f[..n - 1])), false, "equality of bundles is wrong")
    }
}

fn p24_module() {
    let n = sym::choice(3) as usize;
    let ps: Vec<(String, u16, bool)> = (0..n).map(|_| (name(), u16_any(), sym::flag())).collect();
    let mk = |ps: &[(String, u16, bool)]| -> Vec<Arc<Port>> {
        ps.iter().map(|(n, t, d)| port(n, w1(*t), if *d { Direction::Input } else { Direction::Output })).collect()
    };
    let ports = mk(&ps);
    for (p, (n, t, d)) in ports.iter().zip(&ps) {
        sym::check(same_name(p.name(), n) && *p.r#type() == w1(*t), "a port has another name or type");
        let (want, word) = if *d { (Direction::Input, "input") } else { (Direction::Output, "output") };
        sym::check(matches!(p.direction(), Direction::Input) == *d, "a port has another direction");
        sym::check(p.direction().keyword() == word && want.keyword() == word, "a direction has another keyword");
        sym::check(p.info().is_none(), "a port has an info");
    }
    let name_ = name();
    let body: Vec<Statement> = (0..sym::choice(3)).map(|_| StmtKind::Invalidate(num(u16_any())).into()).collect();
    let ext = sym::flag();
    let kind = if ext { ModKind::empty_external() } else { ModKind::Regular { stmts: body.clone() } };
    let mut m = Module::new(name_.as_str().into(), ports.iter().cloned(), kind.clone());
    sym::reach(12);
    sym::check(same_name(m.name(), &name_) && m.info().is_none(), "a module has another name or info");
    sym::check(*m.kind() == kind, "a module has another kind");
    sym::check(m.kind().keyword() == if ext { "extmodule" } else { "module" }, "a kind of module has another keyword");
    sym::check(m.statements() == if ext { &[][..] } else { &body[..] }, "a module has other statements");
    sym::check(m.kind().statements().len() == m.statements().len(), "a module has other statements");
    sym::check(m.ports().count() == n && m.ports().zip(&ports).all(|(a, b)| Arc::ptr_eq(a, b)), "a module has other ports");
    let other = Module::new(name_.as_str().into(), mk(&ps), kind.clone());
    compare(&m, &other, true, "equality of modules is wrong");
    let k2 = ModKind::Regular { stmts: vec![StmtKind::Empty.into()] };
    *m.kind_mut() = k2.clone();
    sym::check(*m.kind() == k2 && m.statements().len() == 1, "a module has another kind than set");
    compare(&m, &other, false, "equality of modules is wrong");
    let swap = sym::choice(4);
    if swap == 0 && n == 2 {
        let mut q = ps.clone();
        q.swap(0, 1);
        let same = same_name(&ps[0].0, &ps[1].0) && ps[0].1 == ps[1].1 && ps[0].2 == ps[1].2;
        compare(&other, &Module::new(name_.as_str().into(), mk(&q), kind), same, "equality of modules is wrong")
    } else if swap == 1 && n > 0 {
        let q = (name(), u16_any(), sym::flag());
        let mut v = ps.clone();
        v[0] = q.clone();
        let same = same_name(&ps[0].0, &q.0) && ps[0].1 == q.1 && ps[0].2 == q.2;
        compare(&other, &Module::new(name_.as_str().into(), mk(&v), kind), same, "equality of modules is wrong")
    } else if swap == 2 {
        let q = name();
        compare(&other, &Module::new(q.as_str().into(), mk(&ps), kind), same_name(&q, &name_), "equality of modules is wrong")
    } else {
        let i = Instance::new(name_.as_str(), Arc::new(other));
        let q = name();
        let j = Instance::new(q.as_str(), i.module().clone());
        compare(&i, &j, same_name(&q, &name_), "equality of instances is wrong");
        let j = Instance::new(name_.as_str(), Arc::new(m));
        compare(&i, &j, false, "equality of instances is wrong")
    }
}
/// External modules: definition name and parameters.
fn p24_params() {
    let val = |k: u32, n: u64, s: &str| match k {
        0 => ParamValue::Int(n as i64),
        1 => ParamValue::String(s.into()),
        _ => ParamValue::Double(1.5),
    };
    let mk = || {
        let d = if sym::flag() { Some(name()) } else { None };
        let n = sym::choice(3);
        let v: Vec<(u32, u32, u64, String)> = (0..n)
            .map(|i| {
                let k = sym::choice(3);
                (i, k, if k == 0 { sym::int(64) } else { 0 }, if k == 1 { name() } else { String::new() })
            })
            .collect();
        (d, v)
    };
    let (a, b) = (mk(), mk());
    let f = |(d, v): &(Option<String>, Vec<(u32, u32, u64, String)>), rev: bool| {
        let mut m = std::collections::HashMap::new();
        let mut w: Vec<_> = v.iter().collect();
        if rev {
            w.reverse()
        }
        for (i, k, n, s) in w {
            m.insert(["p", "q"][*i as usize].into(), val(*k, *n, s));
        }
        ModKind::External { defname: d.as_ref().map(|d| d.as_str().into()), params: m }
    };
    let dn = |a: &Option<String>, b: &Option<String>| match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => same_name(a, b),
        _ => false,
    };
    let same = dn(&a.0, &b.0) && a.1.len() == b.1.len() && a.1.iter().zip(&b.1).all(|(x, y)| x.1 == y.1 && x.2 == y.2 && same_name(&x.3, &y.3));
    let m = |k| Module::new("N".into(), vec![], k);
    compare(&m(f(&a, false)), &m(f(&b, true)), same, "equality of external modules is wrong")
}

fn text_any() -> Option<String> {
    match sym::choice(4) {
        0 => None,
        n => Some(sym::text(n as usize - 1, "a \n")),
    }
}
fn info_of<T: WithInfo + Clone + PartialEq>(mut x: T) {
    let (a, b) = (text_any(), text_any());
    let same = match (&a, &b) {
        (None, None) => true,
        (Some(a), Some(b)) => same_name(a, b),
        _ => false,
    };
    sym::check(x.info().is_none(), "an info without any set");
    let bare = x.clone();
    let y = x.clone().with_info(a.clone());
    sym::check(y.info() == a.as_deref(), "another info than set");
    x.set_info(b.clone());
    sym::check(x.info() == b.as_deref(), "another info than set");
    compare(&x, &y, same, "equality of items with infos is wrong");
    x.set_info(a.clone());
    compare(&x, &y, true, "equality of items with infos is wrong");
    if sym::flag() {
        x.set_info(None)
    } else {
        x.clear_info()
    }
    sym::check(x.info().is_none(), "an info cannot be removed");
    compare(&x, &bare, true, "setting an info changes something else");
    sym::reach(13)
}
fn p24_info() {
    let p = input("a", uint(1));
    match sym::choice(4) {
        0 => info_of(Port::new("a", w1(3), Direction::Output)),
        1 => info_of(Module::new("N".into(), vec![p], ModKind::empty_regular())),
        2 => info_of(Statement::from(StmtKind::Invalidate(num(1)))),
        _ => info_of(circuit_of(vec![p], vec![StmtKind::Empty.into()])),
    }
}

/// Entities have the name and type of what they were made from.
fn p24_entity() {
    let (n, t) = (name(), u16_any());
    let memory = mem::Memory::new(n.as_str(), w1(t), 1);
    let sm = Arc::new(simple::Memory::new("s", vec_t(w1(t), 3), simple::Kind::Combinatory));
    let target = module_of("N", vec![output("o", w1(t))], vec![]);
    let mk = |k: u32, n: &str, t: u16| -> Entity {
        match k {
            0 => port(n, w1(t), Direction::Input).into(),
            1 => Entity::Wire { name: n.into(), r#type: w1(t) },
            2 => Register::new(n, w1(t), num(1)).into(),
            3 => Entity::Node { name: n.into(), value: num(t) },
            4 => mem::Memory::new(n, w1(t), 1).into(),
            5 => simple::Port::new(n, sm.clone(), Some(PortDir::Read), num(1), num(1)).into(),
            _ => Instance::new(n, target.clone()).into(),
        }
    };
    let (j, k) = (sym::choice(7), sym::choice(7));
    let e = mk(k, &n, t);
    sym::reach(14);
    let right = match (&e, k) {
        (Entity::Port(_), 0) | (Entity::Wire { .. }, 1) | (Entity::Register(_), 2) | (Entity::Node { .. }, 3) => true,
        (Entity::Memory(m), 4) => *m == memory,
        (Entity::SimpleMemPort(_), 5) | (Entity::Instance(_), 6) => true,
        _ => false,
    };
    sym::check(right, "an entity is of another kind");
    sym::check(same_name(e.name(), &n) && same_name(e.name_ref(), &n), "an entity has another name");
    sym::check(e.is_declarable() == (k != 0), "another entity is declarable");
    let want = match k {
        4 => Typed::r#type(&memory).map_err(|_| ()),
        6 => Ok(bundle(vec![field("o", w1(t), false)])),
        _ => Ok(w1(t)),
    };
    let e = ent(e);
    sym::check(same_name(e.name(), &n), "an entity has another name");
    sym::check(Typed::r#type(&e).map_err(|_| ()) == want, "an entity has another type");
    sym::check(Expression::Reference(e.clone()).r#type().map_err(|_| ()) == want, "a reference has another type");
    let (m, u) = (name(), u16_any());
    let (f, same_t) = (mk(j, &m, u), t == u || k == 5 || k == 6);
    compare(&*e, &f, j == k && same_name(&n, &m) && same_t, "equality of entities is wrong");
    let (x, y): (Ex, Ex) = (e.into(), ent(f).into());
    compare(&x, &y, j == k && same_name(&n, &m) && same_t, "equality of references is wrong")
}

/// A statement of kind k whose parts are numbers.
const STMTS: u32 = 13;
fn stmt(k: u32, n: &[u16], s: &Option<String>) -> StmtKind {
    let e = |i: usize| num(n[i]);
    let st = |i: usize| Statement::from(StmtKind::Invalidate(e(i)));
    let w = |i: usize| ent(Entity::Wire { name: "w".into(), r#type: w1(n[i]) });
    match k {
        0 => StmtKind::Connection { from: e(0), to: e(1) },
        1 => StmtKind::PartialConnection { from: e(0), to: e(1) },
        2 => StmtKind::Empty,
        3 => StmtKind::Declaration(w(0)),
        4 => StmtKind::SimpleMemDecl(Arc::new(simple::Memory::new("s", vec_t(w1(n[0]), n[1]), simple::Kind::Combinatory))),
        5 => StmtKind::Invalidate(e(0)),
        6 => StmtKind::Attach(vec![e(0), e(1)]),
        7 => StmtKind::Conditional { cond: e(0), when: vec![st(1)].into(), r#else: vec![st(2)].into() },
        8 => StmtKind::Stop { name: s.as_deref().map(|s| s.into()), clock: e(0), cond: e(1), code: n[2] as i64 },
        9 => StmtKind::Print { name: s.as_deref().map(|s| s.into()), clock: e(0), cond: e(1), msg: vec![PrintElement::Value(e(2), Format::Decimal)] },
        10 => StmtKind::Print { name: None, clock: e(0), cond: e(1), msg: vec![PrintElement::Literal(s.clone().unwrap_or_default())] },
        11 => StmtKind::Attach(vec![e(0)]),
        _ => StmtKind::Conditional { cond: e(0), when: vec![st(1)].into(), r#else: vec![].into() },
    }
}
fn used(k: u32) -> (usize, bool) {
    [(2, false), (2, false), (0, false), (1, false), (2, false), (1, false), (2, false), (3, false), (3, true), (3, true), (2, true), (1, false), (2, false)][k as usize]
}
fn p24_stmt() {
    let n = [u16_any(), u16_any(), u16_any()];
    let (k, j) = (sym::choice(STMTS), sym::choice(STMTS));
    let s = text_any();
    let a = stmt(k, &n, &s);
    let x = Statement::from(a.clone());
    sym::check(*x.kind() == a && *AsRef::<StmtKind>::as_ref(&x) == a && x.info().is_none(), "a statement is of another kind");
    // one part differs
    let mut m = n;
    let mut t = s.clone();
    let i = sym::choice(4) as usize;
    if i < 3 {
        m[i] = u16_any()
    } else {
        t = text_any()
    }
    let (c, named) = used(k);
    let texts = match (&s, &t) {
        (Some(a), Some(b)) => same_name(a, b),
        (None, None) => true,
        // a literal is empty without
        (None, Some(b)) | (Some(b), None) => k == 10 && b.len() == 0,
    };
    let same = j == k && (0..c).all(|i| n[i] == m[i]) && (!named || texts);
    sym::reach(15);
    compare(&x, &Statement::from(stmt(j, &m, &t)), same, "equality of statements is wrong")
}

fn p24_expr() {
    const KINDS: u32 = 7 + OPS_ALL;
    let mk = |k: u32, n: &[u16]| -> Er {
        let r = |i: usize| rf(w1(n[i]));
        match k {
            0 => Expression::UIntLiteral { value: n[0].into(), width: n[1] },
            1 => Expression::SIntLiteral { value: n[0].into(), width: n[1] },
            2 => Expression::SubField { base: r(0), index: "f".into() },
            3 => Expression::SubIndex { base: r(0), index: n[1] },
            4 => Expression::SubAccess { base: r(0), index: r(1) },
            5 => Expression::Mux { sel: r(0), a: r(1), b: r(2) },
            6 => Expression::ValidIf { sel: r(0), value: r(1) },
            k => op(k - 7, r(0), r(1), n[2], n[3], GT::UInt(None)).into(),
        }
    };
    let uses = |k: u32, i: usize| match k {
        0 | 1 | 3 | 4 | 6 => i < 2,
        2 => i < 1,
        5 => i < 3,
        k => {
            let o = k - 7;
            i == 0
                || i == 1 && binary(o)
                || i == 2 && [11, 13, 14, 27, 28, 29, 30, 31, 32].contains(&o)
                || i == 3 && o == 30
        }
    };
    let n = [u16_any(), u16_any(), u16_any(), u16_any()];
    let k = sym::choice(KINDS);
    let mut m = n;
    m[sym::choice(4) as usize] = u16_any();
    // another kind, next to it or of the other sort
    let j = match sym::choice(3) {
        0 => k,
        1 => (k + 1) % KINDS,
        _ => (k + 5) % KINDS,
    };
    let same = j == k && (0..4).all(|i| !uses(k, i) || n[i] == m[i]);
    sym::reach(16);
    compare(&mk(k, &n), &mk(j, &m), same, "equality of expressions is wrong")
}

fn p24_circuit() {
    let p = input("a", uint(1));
    let n = name();
    let m = Arc::new(Module::new(n.as_str().into(), vec![p.clone()], ModKind::empty_regular()));
    let c = Circuit::new(m.clone());
    sym::check(Arc::ptr_eq(c.top_module(), &m) && c.info().is_none(), "a circuit has another top module or info");
    let q = name();
    let same_p = sym::flag();
    let ports = if same_p { vec![p] } else { vec![] };
    let d = Circuit::new(Arc::new(Module::new(q.as_str().into(), ports, ModKind::empty_regular())));
    sym::reach(17);
    compare(&c, &d, same_name(&n, &q) && same_p, "equality of circuits is wrong")
}

// --- large ---
/// What is large differs in one place, or not.
fn p24_large() {
    let n = size();
    let k = spot(n);
    let (x, y) = (u16_any(), u16_any());
    let same = x == y;
    let c = input("c", uint(1));
    let r = || Expression::Reference(ent(Entity::Port(c.clone())));
    let stop = |i: u16| -> Statement { StmtKind::Stop { name: None, clock: r(), cond: r(), code: i as i64 }.into() };
    let at = |v: u16, i: usize| if i == k { v } else { i as u16 };
    match sym::choice(7) {
        0 => {
            let mk = |v: u16| {
                let mut m = mem::Memory::new("m", w1(1), 1);
                m.add_ports((0..n).map(|i| mem::Port { name: format!("n{}", i).into(), dir: if i == k && v == 0 { PortDir::Read } else { PortDir::Write } }));
                m
            };
            let (a, b) = (mk((x == 0) as u16), mk((y == 0) as u16));
            sym::check(a.ports().count() == n, "a memory has another number of ports");
            compare(&a, &b, (x == 0) == (y == 0), "equality of memories is wrong")
        }
        1 => {
            let mk = |v: u16| module_of("M", (0..n).map(|i| input("p", uint(at(v, i)))).collect(), vec![]);
            compare(&*mk(x), &*mk(y), same, "equality of modules is wrong")
        }
        2 => {
            let mk = |v: u16| module_of("M", vec![], (0..n).map(|i| stop(at(v, i))).collect());
            compare(&*mk(x), &*mk(y), same, "equality of modules is wrong")
        }
        3 => {
            let mk = |v: u16| -> Statement {
                let when: Vec<_> = (0..n).map(|i| stop(at(v, i))).collect();
                StmtKind::Conditional { cond: r(), when: when.into(), r#else: vec![].into() }.into()
            };
            compare(&mk(x), &mk(y), same, "equality of statements is wrong")
        }
        4 => {
            let mk = |v: u16| {
                let params = (0..n).map(|i| (Arc::from(format!("n{}", i)), ParamValue::Int(at(v, i) as i64))).collect();
                Module::new("M".into(), vec![], ModKind::External { defname: None, params })
            };
            compare(&mk(x), &mk(y), same, "equality of modules is wrong")
        }
        5 => {
            let mk = |v: u16| -> Statement {
                StmtKind::Attach((0..n).map(|i| Expression::UIntLiteral { value: 1u8.into(), width: at(v, i) }).collect()).into()
            };
            compare(&mk(x), &mk(y), same, "equality of statements is wrong")
        }
        _ => {
            let l = depth();
            let j = spot(l);
            let mk = |v: u16| -> Ex {
                (0..l).fold(r(), |e, i| {
                    let w = Arc::new(Expression::UIntLiteral { value: 1u8.into(), width: if i == j { v } else { i as u16 } });
                    if i % 2 == 0 { Op::Add(Arc::new(e), w).into() } else { Expression::SubAccess { base: w, index: Arc::new(e) } }
                })
            };
            compare(&mk(x), &mk(y), same, "equality of expressions is wrong")
        }
    }
    sym::reach(4)
}
