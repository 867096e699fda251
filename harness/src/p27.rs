//! Contexts: what is found under a name is what was added last, innermost scope first.
use super::{sym, util::*};
use firrtl_ast::stmt::context::{Context, SubContext, TopContext};

super::entries! { p27_ops, p27_more, p27_mem, p27_names, p27_ports, p27_entities, p27_kinds, p27_custom, p27_module, p27_clone, p27_long, p27_many, p27_deep }

type Mem = Arc<simple::Memory>;
const NAMES: [&str; 3] = ["a", "ab", "b"];

/// What a scope holds, in the order in which it was added.
#[derive(Clone, Default)]
struct Scope {
    ents: Vec<(String, Arc<Entity>)>,
    mems: Vec<(String, Mem)>,
}
fn last<T: Clone>(v: &[(String, T)], n: &str) -> Option<T> {
    v.iter().rev().find(|(m, _)| m == n).map(|(_, t)| t.clone())
}
#[derive(Clone)]
struct Model(Vec<Scope>);
impl Model {
    fn new() -> Self {
        Model(vec![Scope::default()])
    }
    fn top(&mut self) -> &mut Scope {
        self.0.last_mut().unwrap()
    }
    fn entity(&self, n: &str) -> Option<Arc<Entity>> {
        self.0.iter().rev().find_map(|s| last(&s.ents, n))
    }
    fn memory(&self, n: &str) -> Option<Mem> {
        self.0.iter().rev().find_map(|s| last(&s.mems, n))
    }
    fn open(&mut self) {
        self.0.push(Scope::default())
    }
    fn close(&mut self) {
        let s = self.0.pop().unwrap();
        self.top().ents.extend(s.ents);
        self.top().mems.extend(s.mems);
    }
}
fn wire(n: &str, w: u16) -> Arc<Entity> {
    ent(Entity::Wire { name: n.into(), r#type: uint(w) })
}
fn mem(n: &str, w: u16) -> Mem {
    Arc::new(simple::Memory::new(n, vec_t(uint(w), 4), simple::Kind::Combinatory))
}
fn eq_e(a: &Option<Arc<Entity>>, b: &Option<Arc<Entity>>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => Arc::ptr_eq(a, b) || a == b,
        (None, None) => true,
        _ => false,
    }
}
fn eq_m(a: &Option<Mem>, b: &Option<Mem>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => Arc::ptr_eq(a, b) || a == b,
        (None, None) => true,
        _ => false,
    }
}
fn agree(c: &dyn Context, m: &Model, n: &str) {
    sym::check(eq_e(&c.entity(n), &m.entity(n)), "another entity is found");
    sym::check(eq_m(&c.memory(n), &m.memory(n)), "another memory is found");
}
fn agree_all(c: &dyn Context, m: &Model) {
    for n in NAMES.iter() {
        agree(c, m, n)
    }
    agree(c, m, "");
    agree(c, m, "ba");
}

fn none(_: &str) -> Option<Arc<Module>> {
    None
}

/// Operations in any order, with scopes opened and closed; the scopes that are
/// left open at the end are closed one after the other.
fn steps(c: &mut dyn Context, m: &mut Model, left: &mut u32, id: &mut u16, mems: bool, names: u32) {
    while *left > 0 {
        *left -= 1;
        *id += 1;
        match sym::choice(if mems { 4 } else { 3 }) {
            0 => {
                let n = NAMES[sym::choice(names) as usize];
                let e = wire(n, *id);
                c.add_entity(e.clone());
                m.top().ents.push((n.into(), e));
                sym::reach(1)
            }
            1 => {
                m.open();
                {
                    let mut s = SubContext::of(c);
                    steps(&mut s, m, left, id, mems, names);
                    agree_all(&s, m);
                }
                m.close();
                agree_all(c, m);
                sym::reach(2)
            }
            2 => {
                if m.0.len() == 1 {
                    sym::assume(false)
                }
                return;
            }
            _ => {
                let n = NAMES[sym::choice(names) as usize];
                let e = mem(n, *id);
                c.add_memory(e.clone());
                m.top().mems.push((n.into(), e));
                sym::reach(3)
            }
        }
    }
}
fn run(n: u32, mems: bool, names: u32) {
    let mut c = TopContext::new(none);
    let mut m = Model::new();
    let mut left = n;
    let mut id = 0;
    steps(&mut c, &mut m, &mut left, &mut id, mems, names);
    agree_all(&c, &m);
    sym::reach(4)
}
fn p27_ops() {
    run(if sym::thorough() { 8 } else { 6 }, true, 2)
}
/// More steps, entities only.
fn p27_more() {
    run(if sym::thorough() { 11 } else { 8 }, false, 2)
}
/// Memories and entities of every kind under the same names.
fn p27_mem() {
    run(if sym::thorough() { 7 } else { 5 }, true, 3)
}

/// Any names.
fn p27_names() {
    let n = if sym::thorough() { 6 } else { 4 };
    let any = |k: u32| sym::text(sym::choice(k + 1) as usize, sym::ASCII);
    let (a, b, c) = (any(n), any(n), any(n));
    let mut t = TopContext::new(none);
    let mut m = Model::new();
    let inner = sym::choice(3);
    let memory = sym::flag();
    let put = |c: &mut dyn Context, m: &mut Model, n: &str, id: u16| {
        if memory {
            let e = mem(n, id);
            c.add_memory(e.clone());
            m.top().mems.push((n.into(), e))
        } else {
            let e = wire(n, id);
            c.add_entity(e.clone());
            m.top().ents.push((n.into(), e))
        }
    };
    put(&mut t, &mut m, &a, 1);
    if inner == 0 {
        put(&mut t, &mut m, &b, 2)
    } else {
        m.open();
        {
            let mut s = t.sub();
            put(&mut s, &mut m, &b, 2);
            agree(&s, &m, &c)
        }
        m.close()
    }
    agree(&t, &m, &c);
    if t.entity(&c).is_some() || t.memory(&c).is_some() {
        sym::reach(5)
    }
}

fn any_port(n: &str) -> Arc<Port> {
    port(n, uint(u16_any()), if sym::flag() { Direction::Input } else { Direction::Output })
}
/// A context with ports knows each of them, as the entity it is.
fn p27_ports() {
    let n = sym::choice(4) as usize;
    let v: Vec<Arc<Port>> = (0..n).map(|k| any_port(NAMES[k])).collect();
    let t = TopContext::new(none).with_ports(v.clone());
    for k in 0..3 {
        match t.entity(NAMES[k]) {
            Some(e) => match e.as_ref() {
                Entity::Port(p) => {
                    sym::check(k < n && (Arc::ptr_eq(p, &v[k]) || *p == v[k]), "another port is found");
                    sym::check(e.name().as_ref() == NAMES[k] && e.flow() == v[k].flow(), "the port behaves differently");
                    sym::check(e.r#type() == Ok(v[k].r#type().clone()), "the port has another type");
                    sym::reach(6)
                }
                _ => sym::fail("a port is found as something else"),
            },
            None => sym::check(k >= n, "a port is not found"),
        }
        sym::check(t.memory(NAMES[k]).is_none(), "a port is found as a memory")
    }
    sym::check(t.entity("c").is_none() && t.entity("").is_none(), "a port is found under another name")
}
fn sample(k: u32, n: &str) -> Arc<Entity> {
    let w = wire("w", 3);
    let x: Ex = w.clone().into();
    match k {
        0 => ent(Entity::Port(any_port(n))),
        1 => wire(n, u16_any()),
        2 => ent(Register::new(n, uint(u16_any()), x).into()),
        3 => ent(Entity::Node { name: n.into(), value: x }),
        4 => ent(Memory::new(n, uint(u16_any()), 4).into()),
        5 => {
            let m = mem("m", u16_any());
            ent(simple::Port::new(n, m, Some(PortDir::Read), x.clone(), x).into())
        }
        _ => ent(Instance::new(n, module_of("N", vec![any_port("i")], vec![])).into()),
    }
}
/// Entities of every kind, given at the start or added later.
fn p27_kinds() {
    let (a, b) = (sample(sym::choice(7), "a"), sample(sym::choice(7), if sym::flag() { "a" } else { "b" }));
    let mut m = Model::new();
    let mut t = TopContext::new(none);
    if sym::flag() {
        t = t.with_entities(Some(a.clone()))
    } else {
        t.add_entity(a.clone())
    }
    m.top().ents.push(("a".into(), a));
    if sym::flag() {
        m.open();
        let mut s = t.sub();
        s.add_entity(b.clone());
        m.top().ents.push((b.name().to_string(), b));
        agree_all(&s, &m);
        sym::reach(7)
    } else {
        t.add_entity(b.clone());
        m.top().ents.push((b.name().to_string(), b));
        agree_all(&t, &m)
    }
    if m.0.len() > 1 {
        m.close()
    }
    agree_all(&t, &m)
}
/// A context with entities knows exactly those.
fn p27_entities() {
    let n = sym::choice(4) as usize;
    let v: Vec<Arc<Entity>> = (0..n).map(|k| wire(NAMES[k], 1 + k as u16)).collect();
    let mut t = TopContext::from(none).with_entities(v.iter().rev().cloned());
    let mut m = Model::new();
    m.top().ents = v.into_iter().map(|e| (e.name().to_string(), e)).collect();
    agree_all(&t, &m);
    let e = wire(NAMES[sym::choice(3) as usize], 9);
    t.add_entity(e.clone());
    m.top().ents.push((e.name().to_string(), e));
    agree_all(&t, &m);
    sym::reach(8)
}

/// A context of somebody else, which records what it is given and asked.
#[derive(Default)]
struct Rec {
    scope: Scope,
    asked: std::cell::RefCell<Vec<String>>,
}
impl Context for Rec {
    fn entity(&self, name: &str) -> Option<Arc<Entity>> {
        self.asked.borrow_mut().push(name.into());
        last(&self.scope.ents, name)
    }
    fn add_entity(&mut self, entity: Arc<Entity>) {
        self.scope.ents.push((entity.name().to_string(), entity))
    }
    fn memory(&self, name: &str) -> Option<Mem> {
        self.asked.borrow_mut().push(name.into());
        last(&self.scope.mems, name)
    }
    fn add_memory(&mut self, memory: Mem) {
        self.scope.mems.push((memory.name().to_string(), memory))
    }
    fn module(&self, name: &str) -> Option<Arc<Module>> {
        self.asked.borrow_mut().push(name.into());
        if name == "N" {
            Some(module_of("N", vec![], vec![]))
        } else {
            None
        }
    }
}
fn p27_custom() {
    let mut r = Rec::default();
    let mut m = Model::new();
    let e = wire("a", 100);
    r.add_entity(e.clone());
    m.top().ents.push(("a".into(), e));
    let mut all = vec![];
    m.open();
    {
        let mut s = r.sub();
        let mut left = if sym::thorough() { 6 } else { 5 };
        let mut id = 0;
        // one level below a scope of its own
        steps(&mut s, &mut m, &mut left, &mut id, true, 2);
        sym::assume(m.0.len() == 2);
        agree_all(&s, &m);
        for n in NAMES.iter() {
            all.push((last(&m.0[1].ents, n), last(&m.0[1].mems, n)))
        }
    }
    m.close();
    agree_all(&r, &m);
    // what is given to the parent was added, and is what was found before
    for (n, (e, x)) in NAMES.iter().zip(all.iter()) {
        let v = &r.scope.ents[1..];
        sym::check(eq_e(&last(v, n), e), "the parent is given another entity");
        sym::check(eq_m(&last(&r.scope.mems, n), x), "the parent is given another memory");
        sym::reach(9)
    }
    // a name that is not known anywhere is searched everywhere, one that is known inside nowhere else
    r.asked.borrow_mut().clear();
    {
        let mut s = r.sub();
        let mut u = s.sub();
        u.add_entity(wire("a", 5));
        sym::check(u.entity("a").map(|e| e.r#type()) == Some(Ok(uint(5))), "the inner entity is not found");
        sym::check(u.module("N").map(|m| m.name().to_string()) == Some("N".to_string()), "the module is not found");
        sym::check(u.module("a").is_none() && u.memory("zz").is_none() && u.entity("zz").is_none(), "something is found");
    }
    sym::check(r.asked.borrow().iter().all(|n| ["a", "N", "zz"].contains(&n.as_str())), "the parent is asked for something else");
    sym::check(r.asked.borrow().iter().any(|n| n == "N") && r.asked.borrow().iter().any(|n| n == "zz"), "the parent is not asked");
    sym::reach(10)
}
/// Modules are those of the function given, at any depth, whatever is added.
fn p27_module() {
    let ms = [module_of("a", vec![], vec![]), module_of("ab", vec![any_port("i")], vec![])];
    let mut t = TopContext::new(|n: &str| ms.iter().find(|m| m.name().as_ref() == n).cloned());
    t.add_entity(ent(Instance::new("b", ms[0].clone()).into()));
    t.add_memory(mem("b", 3));
    let k = sym::choice(2) as usize;
    let n = sym::text(sym::choice(4) as usize, sym::ASCII);
    let ask = |c: &dyn Context| {
        let got = c.module(&n);
        let right = ms.iter().find(|m| m.name().as_ref() == n.as_str());
        match (&got, right) {
            (Some(a), Some(b)) => {
                sym::check(Arc::ptr_eq(a, b) || a == b, "another module is found");
                sym::reach(11)
            }
            (None, None) => sym::reach(12),
            _ => sym::fail("a module is found, or not found, wrongly"),
        }
    };
    ask(&t);
    {
        let mut s = t.sub();
        s.add_entity(wire(NAMES[k], 1));
        s.add_memory(mem(NAMES[k], 1));
        ask(&s);
        let mut u = s.sub();
        u.add_entity(wire(NAMES[1 - k], 1));
        ask(&u)
    }
    ask(&t)
}
/// A copy of a context has its own entities from then on.
fn p27_clone() {
    let mut t = TopContext::new(none);
    let mut m = Model::new();
    let e = wire("a", 1);
    t.add_entity(e.clone());
    m.top().ents.push(("a".into(), e));
    let (u, n) = (t.clone(), m.clone());
    let mut left = if sym::thorough() { 6 } else { 5 };
    let mut id = 1;
    steps(&mut t, &mut m, &mut left, &mut id, true, 2);
    agree_all(&u, &n);
    agree_all(&t, &m);
    sym::reach(13)
}

/// Long names that differ in one character, or in length only.
fn p27_long() {
    let n = size();
    let a = long_name(n);
    let b = match sym::choice(3) {
        0 => format!("{}a", a),
        1 => a[..a.len() - 1].to_string(),
        _ => long_name(n),
    };
    let mut t = TopContext::new(none);
    let mut m = Model::new();
    for (k, n) in [&a, &b].iter().enumerate() {
        let e = wire(n, k as u16);
        t.add_entity(e.clone());
        m.top().ents.push((n.to_string(), e));
        let e = mem(n, k as u16);
        t.add_memory(e.clone());
        m.top().mems.push((n.to_string(), e));
    }
    agree(&t, &m, &a);
    agree(&t, &m, &b);
    agree(&t, &m, &a[1..]);
    sym::reach(14)
}
/// Many entities and memories, one of which is declared again inside.
fn p27_many() {
    let n = size();
    let v = names(n);
    let k = spot(n);
    let mut t = TopContext::new(none).with_ports(v.iter().map(|n| input(n, uint(1))));
    for (k, n) in v.iter().enumerate() {
        t.add_memory(mem(n, k as u16))
    }
    {
        let mut s = t.sub();
        for (j, n) in v.iter().enumerate() {
            if j != k {
                s.add_entity(wire(n, 2))
            } else {
                s.add_memory(mem(n, 5000))
            }
        }
        for (j, n) in v.iter().enumerate() {
            sym::check(s.entity(n).map(|e| e.r#type()) == Some(Ok(uint(if j == k { 1 } else { 2 }))), "another entity is found inside");
        }
    }
    for (j, n) in v.iter().enumerate() {
        sym::check(t.entity(n).map(|e| e.r#type()) == Some(Ok(uint(if j == k { 1 } else { 2 }))), "another entity is found");
        sym::check(t.memory(n).map(|e| e.r#type()) == Some(Ok(vec_t(uint(if j == k { 5000 } else { j as u16 }), 4))), "another memory is found");
    }
    sym::check(t.entity("nowhere").is_none() && t.memory("nowhere").is_none(), "something is found");
    sym::reach(15)
}
fn down(c: &mut dyn Context, d: usize, at: usize, left: usize) {
    let mut s = SubContext::of(c);
    s.add_entity(wire("b", d as u16 + 1));
    if d == at {
        s.add_entity(wire("a", 7));
        s.add_memory(mem("a", 7))
    }
    if left > 0 {
        down(&mut s, d + 1, at, left - 1);
    } else {
        sym::check(s.entity("a").map(|e| e.r#type()) == Some(Ok(uint(7))), "an entity outside is not found");
        sym::check(s.memory("a").map(|e| e.r#type()) == Some(Ok(vec_t(uint(7), 4))), "a memory outside is not found");
        sym::check(s.entity("c").map(|e| e.r#type()) == Some(Ok(uint(3))), "a port is not found");
    }
    sym::check(s.entity("b").map(|e| e.r#type()) == Some(Ok(uint((d + left) as u16 + 1))), "what was added inside is not found");
    sym::check(s.entity("a").is_some() && s.memory("a").is_some(), "what was added is not found")
}
/// Scopes in scopes, with something added at any level.
fn p27_deep() {
    let n = depth();
    let k = spot(n);
    let mut t = TopContext::new(none).with_ports(Some(input("c", uint(3))));
    down(&mut t, 0, k, n - 1);
    sym::check(t.entity("a").is_some() && t.memory("a").is_some() && t.entity("c").is_some(), "what was added is not kept");
    sym::check(t.entity("b").map(|e| e.r#type()) == Some(Ok(uint(n as u16))), "the last one is not kept");
    sym::reach(16)
}
