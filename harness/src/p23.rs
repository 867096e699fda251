//! Every needed module is printed once, before it is used.
use super::{sym, text, util::*};

super::entries! { p23_graph, p23_places, p23_nested, p23_many, p23_text, p23_params, p23_chain, p23_names, p23_empty, p23_wide, p23_far }

const NAMES: [&str; 7] = ["M0", "M1", "M2", "M3", "M4", "M5", "M6"];

fn inst(n: usize, m: &Arc<Module>) -> Statement {
    decl(&ent(Entity::Instance(Instance::new(format!("i{}", n), m.clone()))))
}
fn skip() -> Statement {
    StmtKind::Empty.into()
}
fn port_ref(p: &Arc<Port>) -> Ex {
    Expression::Reference(ent(Entity::Port(p.clone())))
}
fn when(p: &Arc<Port>, a: Vec<Statement>, b: Vec<Statement>) -> Statement {
    StmtKind::Conditional { cond: port_ref(p), when: a.into(), r#else: b.into() }.into()
}
/// The place k of an instance in a module.
const PLACES: u32 = 12;
fn at(k: u32, p: &Arc<Port>, i: Statement) -> Vec<Statement> {
    match k {
        0 => vec![i],
        1 => vec![when(p, vec![i], vec![])],
        2 => vec![when(p, vec![skip()], vec![i])],
        3 => vec![skip(), i, skip()],
        4 => vec![when(p, vec![skip(), when(p, vec![skip(), i], vec![])], vec![skip()])],
        5 => vec![when(p, vec![when(p, vec![skip()], vec![i, skip()])], vec![])],
        // else when
        6 => vec![when(p, vec![skip()], vec![when(p, vec![i], vec![])])],
        7 => vec![when(p, vec![skip()], vec![when(p, vec![skip()], vec![i])])],
        8 => vec![when(p, vec![skip()], vec![when(p, vec![skip()], vec![when(p, vec![skip()], vec![skip(), i])])])],
        9 => vec![when(p, vec![skip()], vec![skip(), when(p, vec![skip()], vec![i])])],
        10 => vec![when(p, vec![skip()], vec![]), when(p, vec![i], vec![skip()])],
        _ => vec![when(p, vec![when(p, vec![skip()], vec![]), when(p, vec![when(p, vec![skip()], vec![when(p, vec![i], vec![])])], vec![])], vec![])],
    }
}
/// An equal module that is another object, or the same.
fn share(m: &Arc<Module>, same: bool) -> Arc<Module> {
    if same {
        m.clone()
    } else {
        Arc::new(Module::clone(m))
    }
}
fn build(n: usize, ext: bool, uses: &dyn Fn(usize, &Arc<Port>, &[Arc<Module>]) -> Vec<Statement>) -> Vec<Arc<Module>> {
    let mut v: Vec<Arc<Module>> = vec![];
    for i in 0..n {
        let p = input("p", uint(1));
        let m = if i == 0 && ext {
            Arc::new(Module::new(NAMES[i].into(), vec![p], ModKind::empty_external()))
        } else {
            let s = uses(i, &p, &v);
            module_of(NAMES[i], vec![p], s)
        };
        v.push(m)
    }
    v
}
/// The modules of a text, with the instances of each.
fn modules(s: &str) -> (String, Vec<(String, Vec<String>)>) {
    let v = match text::read(s) {
        Some(v) if v.len() == 1 => v,
        _ => sym::fail("the text is malformed"),
    };
    let w = |t: Option<&text::Tok>| match t {
        Some(text::Tok::Word(w)) => String::from_utf8(w.clone()).unwrap(),
        _ => sym::fail("the text is malformed"),
    };
    sym::check(w(v[0].toks.get(0)) == "circuit", "not a circuit");
    let mut out = vec![];
    for m in &v[0].body {
        let k = w(m.toks.get(0));
        sym::check(k == "module" || k == "extmodule", "not a module");
        let mut of = vec![];
        insts(&m.body, &mut of);
        out.push((w(m.toks.get(1)), of))
    }
    (w(v[0].toks.get(1)), out)
}
fn insts(v: &[text::Node], out: &mut Vec<String>) {
    for n in v {
        if n.toks.get(0) == Some(&text::word("inst")) {
            if let Some(text::Tok::Word(w)) = n.toks.get(3) {
                out.push(String::from_utf8(w.clone()).unwrap())
            }
        }
        insts(&n.body, out);
        insts(&n.els, out)
    }
}
/// Prints the circuit of the module; `uses[i]`: the modules i instantiates.
fn check(top: &Arc<Module>, t: usize, uses: &[Vec<usize>]) {
    let c = Circuit::new(top.clone());
    let s = c.to_string();
    sym::log(&s);
    sym::check(c.to_string() == s, "printing again gives another text");
    let (name, v) = modules(&s);
    sym::check(name == NAMES[t], "the circuit has the name of another module");
    // what is needed
    let mut need = vec![false; uses.len()];
    need[t] = true;
    for i in (0..=t).rev() {
        if need[i] {
            for &j in &uses[i] {
                need[j] = true
            }
        }
    }
    for i in 0..uses.len() {
        let n = v.iter().filter(|(n, _)| n == NAMES[i]).count();
        if need[i] {
            sym::check(n > 0, "a needed module is missing");
            sym::check(n < 2, "a module is printed twice");
            let at = v.iter().position(|(n, _)| n == NAMES[i]).unwrap();
            sym::check(v[at].1.len() == uses[i].len(), "an instance is missing");
            for &j in &uses[i] {
                sym::check(v[..at].iter().any(|(n, _)| n == NAMES[j]), "a module is used before it is printed");
                sym::check(v[at].1.iter().any(|n| n == NAMES[j]), "an instance is missing")
            }
        } else {
            sym::check(n == 0, "a module that is not needed is printed")
        }
    }
    sym::check(v.len() == need.iter().filter(|n| **n).count(), "something else is printed");
    sym::reach(1);
    match parse(&s) {
        Ok(d) => {
            sym::check(d == c, "the text means another circuit");
            sym::check(d.to_string() == s, "printing what was read gives another text");
            sym::reach(2)
        }
        Err(_) => sym::fail("the text is not accepted"),
    }
}
/// Every acyclic graph of modules.
fn p23_graph() {
    let n = 1 + sym::choice(if sym::thorough() { 5 } else { 4 }) as usize;
    let ext = sym::flag();
    let mut uses = vec![];
    for i in 0..n {
        let mut u = vec![];
        // any subset of the former ones, in two orders
        for j in 0..i {
            if sym::flag() {
                u.push(j)
            }
        }
        if i == 0 && ext {
            u.clear()
        }
        if u.len() > 1 && sym::flag() {
            u.reverse()
        }
        uses.push(u)
    }
    let same = sym::flag();
    let v = build(n, ext, &|i, _, v| {
        let mut s: Vec<_> = uses[i].iter().enumerate().map(|(k, &j)| inst(k, &share(&v[j], same))).collect();
        if s.is_empty() {
            s.push(skip())
        }
        s
    });
    let t = sym::choice(n as u32) as usize;
    check(&v[t], t, &uses)
}
/// Instances at any place, used by one or two others.
fn p23_places() {
    let n = 3 + sym::choice(2) as usize;
    let mut k = [0; 7];
    let most = if n == 3 { PLACES } else if sym::thorough() { 6 } else { 3 };
    for k in k[..if n == 3 { 3 } else { 6 }].iter_mut() {
        // none, or anywhere
        *k = sym::choice(most + 1)
    }
    // edges in the order (1,0) (2,0) (2,1) (3,0) (3,1) (3,2)
    let edge = |i: usize, j: usize| k[i * (i - 1) / 2 + j];
    let v = build(n, false, &|i, p, v| {
        let mut s = vec![];
        for j in 0..i {
            if edge(i, j) > 0 {
                s.extend(at(edge(i, j) - 1, p, inst(j, &v[j])))
            }
        }
        s
    });
    let uses: Vec<Vec<usize>> = (0..n).map(|i| (0..i).filter(|&j| edge(i, j) > 0).collect()).collect();
    let t = n - 1;
    check(&v[t], t, &uses)
}
/// Two instances in any two places, one within the other's surroundings.
fn p23_nested() {
    let (a, b) = (sym::choice(PLACES), sym::choice(PLACES));
    let (x, y) = (sym::choice(2) as usize, sym::choice(2) as usize);
    let order = sym::choice(3);
    let v = build(3, sym::flag(), &|i, p, v| match i {
        0 => vec![skip()],
        1 => vec![skip()],
        _ => {
            let mut s = at(a, p, inst(0, &v[x]));
            let t = at(b, p, inst(1, &v[y]));
            match order {
                0 => s.extend(t),
                1 => s.insert(0, when(p, t, vec![])),
                _ => s = vec![when(p, s, t)],
            }
            s
        }
    });
    let uses = vec![vec![], vec![], vec![x, y]];
    check(&v[2], 2, &uses)
}
/// Several instances of the same modules.
fn p23_many() {
    let n = if sym::thorough() { 5 } else { 4 };
    let k = 1 + sym::choice(n) as usize;
    let us: Vec<usize> = (0..k).map(|_| sym::choice(3) as usize).collect();
    let m = sym::choice(3) as usize;
    let uses = vec![vec![], if m > 0 { vec![0; m] } else { vec![] }, vec![1], us];
    let v = build(4, false, &|i, p, v| {
        let mut s: Vec<_> = uses[i].iter().enumerate().map(|(k, &j)| inst(k, &share(&v[j], k != 1))).collect();
        if i == 3 && s.len() > 2 {
            let last = s.pop().unwrap();
            s.push(when(p, vec![last], vec![]))
        }
        s.push(skip());
        s
    });
    check(&v[3], 3, &uses)
}
/// Of a text only what is needed.
fn p23_text() {
    let n = 1 + sym::choice(if sym::thorough() { 5 } else { 4 }) as usize;
    let t = sym::choice(n as u32) as usize;
    let mut s = format!("circuit {}:\n", NAMES[t]);
    let mut uses = vec![];
    for i in 0..n {
        s.push_str(&format!("  module {}:\n    input p: UInt<1>\n", NAMES[i]));
        let mut u = vec![];
        for j in 0..i {
            match sym::choice(if n < 4 || sym::thorough() { 3 } else { 2 }) {
                0 => continue,
                1 => s.push_str(&format!("    inst i{} of {}\n", j, NAMES[j])),
                _ => s.push_str(&format!("    when p:\n      skip\n    else:\n      skip\n      inst i{} of {}\n", j, NAMES[j])),
            }
            u.push(j)
        }
        uses.push(u)
    }
    sym::log(&s);
    match parse(&s) {
        Ok(c) => {
            sym::reach(3);
            check(c.top_module(), t, &uses)
        }
        Err(_) => sym::fail("a well-formed text is not accepted"),
    }
}
/// Equal modules give the same text, however they came about.
fn p23_params() {
    let n = 2 + sym::choice(if sym::thorough() { 4 } else { 3 }) as usize;
    let names: Vec<String> = (0..n).map(|i| if i < 2 { sym::text(1, "aZ_$b") } else { format!("p{}", i) }).collect();
    sym::assume(names[0] != names[1]);
    let make = |order: &[usize], spare: usize| {
        let mut params = std::collections::HashMap::new();
        if spare > 0 {
            params.reserve(spare)
        }
        for &i in order {
            params.insert(names[i].as_str().into(), ParamValue::Int((i as i64).into()));
        }
        Arc::new(Module::new("E".into(), vec![], ModKind::External { defname: None, params }))
    };
    let a: Vec<usize> = (0..n).collect();
    // any other order
    let mut left = a.clone();
    let mut b = vec![];
    while left.len() > 0 {
        b.push(left.remove(sym::choice(left.len() as u32) as usize))
    }
    let (x, y) = (Circuit::new(make(&a, 0)), Circuit::new(make(&b, 40)));
    sym::check(x == y, "the order of parameters matters");
    let s = x.to_string();
    sym::log(&s);
    sym::check(y.to_string() == s, "equal circuits give different texts");
    match parse(&s) {
        Ok(z) => {
            sym::check(z == x && z.to_string() == s, "printing what was read gives another text");
            sym::reach(4)
        }
        Err(_) => sym::fail("the text is not accepted"),
    }
}
/// Many levels, every module used twice by the next.
fn p23_chain() {
    let n = 2 + sym::choice(6) as usize;
    let k = sym::choice(3);
    let uses: Vec<Vec<usize>> = (0..7)
        .map(|i| match k {
            0 => if i > 0 { vec![i - 1] } else { vec![] },
            1 => if i > 0 { vec![i - 1, i - 1] } else { vec![] },
            _ => if i > 1 { vec![i - 2, i - 1] } else if i > 0 { vec![0] } else { vec![] },
        })
        .collect();
    let place = sym::choice(PLACES);
    let v = build(7, false, &|i, p, v| {
        let mut s = vec![];
        for (k, &j) in uses[i].iter().enumerate() {
            s.extend(at(if k == 0 { place } else { 0 }, p, inst(k, &v[j])))
        }
        s
    });
    let n = n.min(7);
    check(&v[n - 1], n - 1, &uses)
}
/// Modules with and without ports and statements, external ones, of equally
/// and differently long names.
fn p23_empty() {
    let names = ["M0", "N1", "LongName"];
    let mut v: Vec<Arc<Module>> = vec![];
    let mut uses: Vec<Vec<usize>> = vec![];
    for i in 0..3 {
        let ports = if sym::flag() { vec![input("p", uint(1))] } else { vec![] };
        let k = sym::choice(7);
        let mut s = if k == 1 { vec![skip()] } else { vec![] };
        let mut u = vec![];
        for j in 0..i {
            if k < 2 && sym::flag() {
                s.push(inst(j, &v[j]));
                u.push(j)
            }
        }
        uses.push(u);
        // external modules may be equal but for the name, or be defined under the name of another
        let defname = [None, None, None, Some("x"), Some("M0"), Some("LongName"), None][k as usize].map(Into::into);
        let params = if k == 6 { vec![("y".into(), ParamValue::Int(3))].into_iter().collect() } else { Default::default() };
        v.push(if k >= 2 { Arc::new(Module::new(names[i].into(), ports, ModKind::External { defname, params })) } else { module_of(names[i], ports, s) })
    }
    let c = Circuit::new(v[2].clone());
    let s = c.to_string();
    sym::log(&s);
    let (top, got) = modules(&s);
    sym::check(top == names[2], "the circuit has the name of another module");
    let mut want: Vec<usize> = vec![2];
    for i in (0..2).rev() {
        if want.iter().any(|&w| uses[w].contains(&i)) {
            want.push(i)
        }
    }
    sym::check(got.len() == want.len(), "a module is missing, or printed more than once");
    for &i in &want {
        match got.iter().position(|(n, _)| n == names[i]) {
            Some(at) => {
                for &j in &uses[i] {
                    sym::check(got[..at].iter().any(|(n, _)| n == names[j]), "a module is used before it is printed");
                }
                sym::check(got[at].1.len() == uses[i].len(), "an instance is missing")
            }
            None => sym::fail("a needed module is missing"),
        }
    }
    match parse(&s) {
        Ok(d) => {
            sym::check(d == c && d.to_string() == s, "the text means another circuit");
            sym::reach(2)
        }
        Err(_) => sym::fail("the text is not accepted"),
    }
}
/// Modules of free names: what differs is printed.
fn p23_names() {
    let a = ident(1 + sym::choice(2) as usize);
    let b = ident(1 + sym::choice(2) as usize);
    let t = ident(1);
    sym::assume(a != b && a != t && b != t);
    let m = |n: &str, s: Vec<Statement>| module_of(n, vec![], s);
    let x = m(&a, vec![skip()]);
    let y = m(&b, vec![inst(0, &x)]);
    let top = m(&t, vec![inst(0, &y), inst(1, &x)]);
    let c = Circuit::new(top);
    let s = c.to_string();
    sym::log(&s);
    let want = format!(
        "circuit {t}:\n  module {a}:\n    skip\n  module {b}:\n    inst i0 of {a}\n  module {t}:\n    inst i0 of {b}\n    inst i1 of {a}\n",
        t = t, a = a, b = b
    );
    sym::check(text::read(&s) == text::read(&want), "another text");
    match parse(&s) {
        Ok(d) => {
            sym::check(d == c, "the text means another circuit");
            sym::reach(2)
        }
        Err(_) => sym::fail("the text is not accepted"),
    }
}

// --- large ---
/// Many modules used by one, some of them more than once.
fn p23_wide() {
    let n = depth();
    let k = spot(n);
    let all: Vec<String> = (0..n).map(|i| format!("n{}", i)).collect();
    // alike, except for one
    let (kind, other) = (sym::choice(5), sym::choice(5));
    let m: Vec<_> = all
        .iter()
        .enumerate()
        .map(|(i, s)| {
            let p = || vec![input("p", uint(i as u16))];
            let ext = |p| Arc::new(Module::new(s.as_str().into(), p, ModKind::empty_external()));
            match if i == k { other } else { kind } {
                0 => module_of(s, p(), vec![]),
                1 => module_of(s, vec![], vec![]),
                2 => module_of(s, vec![], vec![skip()]),
                3 => ext(p()),
                _ => ext(vec![]),
            }
        })
        .collect();
    let p = input("p", uint(1));
    let place = if kind > 0 && other > 0 { 0 } else { sym::choice(PLACES) };
    let mut v = vec![];
    for i in 0..n {
        v.extend(if i == k { at(place, &p, inst(i, &m[i])) } else { vec![inst(i, &m[i])] })
    }
    // again, the same or an equal one
    let j = n - 1 - k;
    v.push(inst(n, &share(&m[j], sym::flag())));
    large_check(&module_of("T", vec![p], v), n)
}
/// Many levels.
fn p23_far() {
    let n = depth();
    let k = spot(n);
    let all = names(n);
    let way = sym::choice(3);
    let mut m: Vec<Arc<Module>> = vec![];
    let p = input("p", uint(1));
    for i in 0..n {
        let mut v = vec![];
        if i > 0 {
            let s = inst(0, &m[i - 1]);
            v.extend(if i == k { at(sym::choice(PLACES), &p, s) } else { vec![s] })
        }
        // (comparing takes one step per path)
        if i > 1 && way == 1 && i % 16 == 2 {
            v.push(inst(1, &m[i - 2]))
        }
        if i > 0 && way == 2 {
            v.push(inst(1, &m[0]))
        }
        m.push(module_of(&all[i], vec![p.clone()], v))
    }
    large_check(&module_of("T", vec![], vec![inst(0, &m[n - 1])]), n)
}
fn large_check(top: &Arc<Module>, n: usize) {
    let c = Circuit::new(top.clone());
    let s = c.to_string();
    let (name, v) = modules(&s);
    sym::check(name == "T", "the circuit has the name of another module");
    sym::check(v.len() <= n + 1, "a module is printed twice");
    sym::check(v.len() == n + 1, "a needed module is missing");
    sym::reach(1);
    match parse(&s) {
        Ok(d) => {
            sym::check(d == c, "the text means another circuit");
            sym::check(d.to_string() == s, "printing what was read gives another text");
            sym::reach(2)
        }
        Err(_) => sym::fail("the text is not accepted"),
    }
}
