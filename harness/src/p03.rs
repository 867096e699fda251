//! Statements survive printing and parsing.
use super::{sym, util::*};

super::entries! { p03_kinds, p03_stop, p03_print, p03_nest, p03_branches, p03_deep, p03_decls, p03_long, p03_many, p03_far }

struct Env {
    ports: Vec<Arc<Port>>,
    ents: Vec<Arc<Entity>>,
}
impl Env {
    fn new() -> Self {
        let ports: Vec<_> = ["a", "b", "c", "d"].iter().map(|n| input(n, uint(1))).collect();
        let ents = ports.iter().map(|p| ent(Entity::Port(p.clone()))).collect();
        Env { ports, ents }
    }
    fn r(&self, i: u32) -> Ex {
        Expression::Reference(self.ents[i as usize].clone())
    }
    /// One of the first n ports, or something that starts with one.
    fn any(&self, n: u32) -> Ex {
        match sym::choice(n + 3) {
            0 => Expression::SubField { base: Arc::new(self.r(0)), index: "is".into() },
            1 => Expression::SubIndex { base: Arc::new(self.r(1)), index: 0 },
            2 => Op::Not(Arc::new(self.r(2))).into(),
            k => self.r(k - 3),
        }
    }
    fn check(self, s: Vec<Statement>) {
        round_trip(&circuit_of(self.ports, s), "statements changed")
    }
}

const PRINT: &str = "]b[:;, %";
/// None, or a text of up to two characters.
fn info() -> Option<String> {
    match sym::choice(4) {
        0 => None,
        n => Some(sym::text(n as usize - 1, PRINT)),
    }
}
/// None, or every name of up to two characters.
fn name() -> Option<Arc<str>> {
    match sym::choice(3) {
        0 => None,
        n => Some(ident(n as usize).into()),
    }
}
fn code() -> i64 {
    match sym::choice(4) {
        0 => sym::upto(99_999) as i64,
        1 => -(sym::within(1, 99_999) as i64),
        // the ends of the range
        2 => i64::MAX - sym::choice(3) as i64,
        _ => i64::MIN + sym::choice(3) as i64,
    }
}
fn msg(e: &Env, n: u32) -> Vec<PrintElement> {
    let mut v = vec![];
    let mut lit = false;
    for _ in 0..n {
        // one text, or a value in one of the formats
        let k = sym::choice(5);
        if k == 0 && !lit {
            v.push(PrintElement::Literal(sym::text(if n < 3 { 2 } else { 1 }, PRINT)));
            lit = true;
        } else {
            let f = match k {
                1 => Format::Binary,
                2 => Format::Decimal,
                3 => Format::Hexadecimal,
                _ => Format::Character,
            };
            sym::assume(k > 0);
            v.push(PrintElement::Value(e.r(sym::choice(2)), f));
            lit = false;
        }
    }
    v
}

/// Every kind of statement, with every info.
fn p03_kinds() {
    let e = Env::new();
    let k = match sym::choice(9) {
        0 => StmtKind::Connection { from: e.any(2), to: e.any(2) },
        1 => StmtKind::PartialConnection { from: e.any(2), to: e.any(2) },
        2 => StmtKind::Empty,
        3 => StmtKind::Invalidate(e.any(3)),
        4 => {
            let n = 1 + sym::choice(3);
            StmtKind::Attach((0..n).map(|i| if i < 2 { e.any(2) } else { e.r(3) }).collect())
        }
        5 => StmtKind::Conditional { cond: e.any(2), when: vec![StmtKind::Empty.into()].into(), r#else: vec![].into() },
        6 => StmtKind::Stop { name: name(), clock: e.r(0), cond: e.r(1), code: 1 },
        7 => StmtKind::Print { name: name(), clock: e.r(0), cond: e.r(1), msg: msg(&e, 1) },
        _ => {
            let w = ent(Entity::Wire { name: "w".into(), r#type: uint(3) });
            StmtKind::Declaration(w)
        }
    };
    let s = Statement::from(k).with_info(info());
    // something behind it, which must remain
    let more = if sym::flag() { vec![s, StmtKind::Invalidate(e.r(3)).into()] } else { vec![s] };
    e.check(more)
}

fn p03_stop() {
    let e = Env::new();
    let k = StmtKind::Stop { name: name(), clock: e.any(2), cond: e.any(2), code: code() };
    e.check(vec![k.into()])
}

fn p03_print() {
    let e = Env::new();
    let n = 1 + sym::choice(if sym::thorough() { 4 } else { 3 });
    let msg = msg(&e, n);
    let (clock, cond) = if sym::flag() { (e.r(0), e.r(1)) } else { (e.r(1), if n < 3 { e.any(1) } else { e.r(3) }) };
    let name = if n < 3 { name() } else { None };
    e.check(vec![StmtKind::Print { name, clock, cond, msg }.into()])
}

/// A statement without inner ones, different each time.
fn leaf(e: &Env, n: &mut u32) -> Statement {
    *n += 1;
    let k = match *n % 3 {
        0 => StmtKind::Connection { from: e.r(*n % 4), to: e.r(0) },
        1 => StmtKind::Invalidate(e.r(*n % 4)),
        _ => StmtKind::Empty,
    };
    Statement::from(k).with_info(Some(n.to_string()))
}
fn list(e: &Env, n: &mut u32, min: u32, max: u32, depth: u32) -> Vec<Statement> {
    let k = min + sym::choice(max - min + 1);
    (0..k).map(|_| tree(e, n, depth, max)).collect()
}
fn tree(e: &Env, n: &mut u32, depth: u32, max: u32) -> Statement {
    if depth == 0 || !sym::flag() {
        return leaf(e, n);
    }
    *n += 1;
    let i = *n;
    let when = list(e, n, 1, max, depth - 1);
    let els = list(e, n, 0, max, depth - 1);
    let k = StmtKind::Conditional { cond: e.r(i % 4), when: when.into(), r#else: els.into() };
    Statement::from(k).with_info(if i % 2 == 0 { Some(format!("w{}", i)) } else { None })
}
/// Every arrangement of nested conditionals.
fn p03_nest() {
    let e = Env::new();
    let mut n = 0;
    let mut v = vec![leaf(&e, &mut n), tree(&e, &mut n, 2, 2)];
    if sym::thorough() {
        v.push(tree(&e, &mut n, 1, 2));
    }
    v.push(leaf(&e, &mut n));
    e.check(v)
}

/// Branches of one conditional: every number of statements in both.
fn p03_branches() {
    let e = Env::new();
    let mut n = 0;
    let max = if sym::thorough() { 4 } else { 3 };
    let mut v = vec![];
    if sym::flag() {
        v.push(leaf(&e, &mut n));
    }
    let when = list(&e, &mut n, 1, max, 0);
    let els = list(&e, &mut n, 0, max, 0);
    v.push(
        Statement::from(StmtKind::Conditional { cond: e.any(1), when: when.into(), r#else: els.into() })
            .with_info(info()),
    );
    if sym::flag() {
        v.push(leaf(&e, &mut n));
    }
    e.check(v)
}

/// Deeply nested, at each level in either branch, with statements around.
fn p03_deep() {
    let e = Env::new();
    let depth = if sym::thorough() { 8 } else { 5 };
    let mut s = Statement::from(StmtKind::Invalidate(e.r(0)));
    for i in 0..depth {
        let mut v = vec![s];
        let l = |k: u32| Statement::from(StmtKind::Stop { name: None, clock: e.r(0), cond: e.r(1), code: k as i64 });
        let (mut w, mut el) = (vec![l(i)], vec![]);
        match sym::choice(5) {
            0 => w = v,
            1 => el = v,
            2 => {
                v.insert(0, l(i + 10));
                el = v
            }
            3 => {
                v.push(l(i + 20));
                el = v
            }
            _ => {
                v.push(l(i + 30));
                w = v;
                el = vec![l(i + 40)];
            }
        }
        s = Statement::from(StmtKind::Conditional { cond: e.r(i % 4), when: w.into(), r#else: el.into() })
            .with_info(if i % 2 == 1 { Some(i.to_string()) } else { None });
    }
    let mut v = vec![s];
    if sym::flag() {
        v.push(StmtKind::Empty.into());
    }
    e.check(v)
}

/// Declarations inside branches are used there and afterwards.
fn p03_decls() {
    let e = Env::new();
    let n = name().unwrap_or("w".into());
    sym::assume(!["a", "b", "c", "d"].contains(&&*n));
    let w = ent(Entity::Wire { name: n, r#type: uint(3) });
    let u: Statement = StmtKind::Invalidate(Expression::Reference(w.clone())).into();
    let d = decl(&w).with_info(info());
    let p = sym::choice(4);
    let at = |i: u32, more: bool| {
        let mut v = vec![];
        if i == p {
            v.push(d.clone());
        }
        if more && p <= i {
            v.push(u.clone());
        }
        if v.is_empty() {
            v.push(StmtKind::Empty.into());
        }
        v
    };
    let c = StmtKind::Conditional {
        cond: e.r(0),
        when: at(1, true).into(),
        r#else: at(2, p != 1 || sym::flag()).into(),
    };
    let mut v = at(0, true);
    v.push(c.into());
    v.extend(at(3, true));
    e.check(v)
}

/// Long names, infos and texts.
fn p03_long() {
    let e = Env::new();
    let n = size();
    let (c, d) = (e.r(0), e.r(1));
    let mut i = None;
    let s: Statement = match sym::choice(5) {
        0 => StmtKind::Stop { name: Some(long_name(n).into()), clock: c, cond: d, code: 1 }.into(),
        1 => StmtKind::Print { name: Some(long_name(n).into()), clock: c, cond: d, msg: vec![] }.into(),
        2 => {
            let msg = vec![
                PrintElement::Value(e.r(2), Format::Binary),
                PrintElement::Literal(long_text(n, "a\\%\"'\n] d")),
                PrintElement::Value(e.r(3), Format::Decimal),
            ];
            StmtKind::Print { name: None, clock: c, cond: d, msg }.into()
        }
        3 => {
            i = Some(long_text(n, "a\\%\"'\n] @"));
            StmtKind::Empty.into()
        }
        _ => {
            i = Some(long_text(n, "a\\%\"'\n] @"));
            StmtKind::Conditional {
                cond: c,
                when: vec![StmtKind::Empty.into()].into(),
                r#else: vec![StmtKind::Invalidate(d).into()].into(),
            }
            .into()
        }
    };
    e.check(vec![s.with_info(i), StmtKind::Empty.into()])
}
/// Many of each thing.
fn p03_many() {
    let e = Env::new();
    let n = size();
    let k = spot(n);
    let odd = || -> Statement {
        match sym::choice(3) {
            0 => StmtKind::Empty.into(),
            1 => StmtKind::Conditional {
                cond: e.r(1),
                when: vec![StmtKind::Empty.into()].into(),
                r#else: vec![].into(),
            }
            .into(),
            _ => Statement::from(StmtKind::Attach(vec![e.r(2)])).with_info(Some("x".into())),
        }
    };
    let stop = |i: usize| -> Statement {
        StmtKind::Stop { name: None, clock: e.r(0), cond: e.r(1), code: i as i64 }.into()
    };
    let list = || -> Vec<Statement> { (0..n).map(|i| if i == k { odd() } else { stop(i) }).collect() };
    let v = match sym::choice(7) {
        0 => list(),
        1 => vec![StmtKind::Conditional { cond: e.r(0), when: list().into(), r#else: vec![stop(1)].into() }.into()],
        2 => vec![StmtKind::Conditional { cond: e.r(0), when: vec![stop(1)].into(), r#else: list().into() }.into()],
        3 => {
            // one branch after another
            let mut el: Vec<Statement> = if sym::flag() { vec![stop(0)] } else { vec![] };
            for i in 0..n {
                let w = if i == k { odd() } else { stop(i) };
                el = vec![StmtKind::Conditional { cond: e.r(i as u32 % 4), when: vec![w].into(), r#else: el.into() }.into()];
            }
            el
        }
        4 => vec![StmtKind::Attach((0..n).map(|i| if i == k { e.any(1) } else { e.r(i as u32 % 4) }).collect()).into()],
        5 => {
            let msg = (0..n)
                .map(|i| match i {
                    _ if i == k => PrintElement::Value(e.any(1), Format::Character),
                    _ if i % 2 == 0 => PrintElement::Literal(i.to_string()),
                    _ => PrintElement::Value(e.r(i as u32 % 4), if i % 4 == 1 { Format::Decimal } else { Format::Binary }),
                })
                .collect();
            vec![StmtKind::Print { name: None, clock: e.r(0), cond: e.r(1), msg }.into()]
        }
        _ => (0..n)
            .map(|i| {
                if i == k {
                    odd()
                } else {
                    let c = StmtKind::Conditional { cond: e.r(i as u32 % 4), when: vec![stop(i)].into(), r#else: vec![].into() };
                    Statement::from(c).with_info(Some(i.to_string()))
                }
            })
            .collect(),
    };
    let mut v = v;
    v.push(StmtKind::Empty.into());
    e.check(v)
}
/// Deep nesting.
fn p03_far() {
    let e = Env::new();
    let n = depth();
    let k = spot(n);
    let way = sym::choice(3);
    let mut s: Statement = StmtKind::Invalidate(e.r(0)).into();
    for i in 0..n {
        let l = |c: usize| -> Statement { StmtKind::Stop { name: None, clock: e.r(0), cond: e.r(1), code: c as i64 }.into() };
        let w = if i == k { sym::choice(3) } else { way };
        let (a, b) = match w {
            0 => (vec![s], vec![]),
            1 => (vec![s, l(i)], vec![l(i + 1)]),
            _ => (vec![l(i)], vec![l(i + 1), s]),
        };
        s = StmtKind::Conditional { cond: e.r(i as u32 % 4), when: a.into(), r#else: b.into() }.into();
    }
    e.check(vec![s, StmtKind::Empty.into()])
}
