//! Texts survive escaping and unescaping.
use super::{sym, util::*};

super::entries! { p06_info, p06_places, p06_string, p06_format, p06_specs, p06_wide, p06_long, p06_read_info, p06_read_string, p06_read_format, p06_far, p06_many }

/// The i-th place for an info.
fn with_info(k: u32, t: String) -> Circuit {
    let t = Some(t);
    let p = |t: Option<String>| Arc::new(Port::new("a", uint(1), Direction::Input).with_info(t));
    let a = p(if k == 2 { t.clone() } else { None });
    let r = || Expression::Reference(ent(Entity::Port(a.clone())));
    let s = |k: StmtKind, t: Option<String>| Statement::from(k).with_info(t);
    let mut v: Vec<Statement> = vec![];
    let skip = || -> Statement { StmtKind::Empty.into() };
    match k {
        0 | 1 | 2 => v.push(skip()),
        3 => v.push(s(StmtKind::Empty, t.clone())),
        4 => v.push(s(StmtKind::Connection { from: r(), to: r() }, t.clone())),
        5 => v.push(s(StmtKind::PartialConnection { from: r(), to: r() }, t.clone())),
        6 => v.push(s(StmtKind::Invalidate(r()), t.clone())),
        7 => v.push(s(StmtKind::Attach(vec![r()]), t.clone())),
        8 => v.push(s(StmtKind::Stop { name: None, clock: r(), cond: r(), code: 0 }, t.clone())),
        9 => v.push(s(StmtKind::Stop { name: Some("n".into()), clock: r(), cond: r(), code: 0 }, t.clone())),
        10 => v.push(s(
            StmtKind::Print { name: None, clock: r(), cond: r(), msg: vec![PrintElement::Literal("x".into())] },
            t.clone(),
        )),
        11 | 12 => v.push(s(
            StmtKind::Conditional {
                cond: r(),
                when: vec![skip()].into(),
                r#else: if k == 11 { vec![].into() } else { vec![skip()].into() },
            },
            t.clone(),
        )),
        13 => {
            let inner = s(
                StmtKind::Conditional { cond: r(), when: vec![skip()].into(), r#else: vec![].into() },
                t.clone(),
            );
            v.push(
                StmtKind::Conditional { cond: r(), when: vec![skip()].into(), r#else: vec![inner].into() }.into(),
            )
        }
        14 => v.push(s(
            StmtKind::Declaration(ent(Entity::Wire { name: "w".into(), r#type: uint(1) })),
            t.clone(),
        )),
        15 => v.push(s(
            StmtKind::Declaration(ent(Entity::Node { name: "w".into(), value: r() })),
            t.clone(),
        )),
        16 => v.push(s(
            StmtKind::Declaration(ent(Entity::Register(Register::new("w", uint(1), r())))),
            t.clone(),
        )),
        17 => v.push(s(
            StmtKind::Declaration(ent(Entity::Memory(mem::Memory::new("w", uint(1), 2u64)))),
            t.clone(),
        )),
        18 => {
            let m = Arc::new(simple::Memory::new("w", vec_t(uint(1), 2), simple::Kind::Combinatory));
            v.push(s(StmtKind::SimpleMemDecl(m), t.clone()))
        }
        19 => {
            let m = Arc::new(simple::Memory::new("w", vec_t(uint(1), 2), simple::Kind::Combinatory));
            v.push(StmtKind::SimpleMemDecl(m.clone()).into());
            let p = Entity::SimpleMemPort(simple::Port::new("p", m, None, r(), r()));
            v.push(s(StmtKind::Declaration(ent(p)), t.clone()))
        }
        _ => {
            let m = module_of("N", vec![], vec![]);
            v.push(s(
                StmtKind::Declaration(ent(Entity::Instance(Instance::new("i", m)))),
                t.clone(),
            ))
        }
    }
    // something behind, which must not be swallowed
    v.push(s(StmtKind::Invalidate(r()), Some("]".into())));
    let m = Module::new("M".into(), vec![a.clone()], ModKind::Regular { stmts: v });
    let m = m.with_info(if k == 1 { t.clone() } else { None });
    Circuit::new(Arc::new(m)).with_info(if k == 0 { t } else { None })
}
const PLACES: u32 = 21;

/// Every ASCII text as the info of a statement.
fn p06_info() {
    let n = sym::choice(if sym::thorough() { 5 } else { 4 }) as usize;
    round_trip(&with_info(3, sym::text(n, sym::ASCII)), "info changed")
}
/// Everywhere.
fn p06_places() {
    let n = sym::choice(if sym::thorough() { 3 } else { 2 }) as usize;
    let k = sym::choice(PLACES);
    let t = match sym::choice(3) {
        0 => sym::text(n, sym::ASCII),
        1 => format!("]{}", sym::text(n, sym::ASCII)),
        _ => format!("{}\\", sym::text(n, sym::ASCII)),
    };
    round_trip(&with_info(k, t), "info changed")
}

fn with_string(s: String, more: bool) -> Circuit {
    let mut p = std::collections::HashMap::new();
    p.insert("a".into(), ParamValue::String(s.into()));
    if more {
        p.insert("b".into(), ParamValue::Int(1));
    }
    let kind = ModKind::External { defname: None, params: p };
    Circuit::new(Arc::new(Module::new("M".into(), vec![], kind)))
}
fn p06_string() {
    let n = sym::choice(if sym::thorough() { 5 } else { 4 }) as usize;
    round_trip(&with_string(sym::text(n, sym::ASCII), sym::flag()), "string changed")
}

fn print(msg: Vec<PrintElement>) -> Circuit {
    let a = input("a", uint(1));
    let r = || Expression::Reference(ent(Entity::Port(a.clone())));
    let s = StmtKind::Print { name: None, clock: r(), cond: r(), msg };
    circuit_of(vec![a.clone()], vec![s.into(), StmtKind::Invalidate(r()).into()])
}
fn value(i: u32, f: u32) -> PrintElement {
    let a = input("a", uint(1));
    let e = Expression::Reference(ent(Entity::Port(a)));
    let e = if i == 0 { e } else { Expression::SubIndex { base: Arc::new(e), index: i as u16 } };
    PrintElement::Value(
        e,
        match f {
            0 => Format::Binary,
            1 => Format::Decimal,
            2 => Format::Hexadecimal,
            _ => Format::Character,
        },
    )
}
/// Every ASCII text as the format string.
fn p06_format() {
    let n = 1 + sym::choice(if sym::thorough() { 4 } else { 3 }) as usize;
    let mut v = vec![PrintElement::Literal(sym::text(n, sym::ASCII))];
    if n < 3 {
        match sym::choice(3) {
            0 => v.push(value(0, sym::choice(4))),
            1 => v.insert(0, value(0, sym::choice(4))),
            _ => {}
        }
    }
    round_trip(&print(v), "format string changed")
}
/// Specifiers and texts in every order.
fn p06_specs() {
    let n = sym::choice(if sym::thorough() { 6 } else { 5 });
    let mut v = vec![];
    let mut lit = false;
    for i in 0..n {
        if !lit && sym::flag() {
            v.push(PrintElement::Literal(["%", "d", "%d", "\\", " "][sym::choice(if n < 4 { 5 } else { 3 }) as usize].into()));
            lit = true;
        } else {
            v.push(value(i, if n < 4 { sym::choice(4) } else { i % 4 }));
            lit = false;
        }
    }
    round_trip(&print(v), "format string changed")
}
/// Characters of several bytes.
fn p06_wide() {
    let mut t = wide_char(2 + sym::choice(3));
    match sym::choice(4) {
        0 => {}
        1 => t = format!("{}{}", sym::text(1, sym::ASCII), t),
        2 => t.push_str(&sym::text(1, sym::ASCII)),
        _ => t.push_str(&wide_char(2)),
    }
    match sym::choice(5) {
        0 => round_trip(&with_info(0, t), "info changed"),
        1 => round_trip(&with_info(2, t), "info changed"),
        2 => round_trip(&with_info(3, t), "info changed"),
        3 => round_trip(&with_string(t, true), "string changed"),
        _ => round_trip(&print(vec![PrintElement::Literal(t)]), "format string changed"),
    }
}
/// Longer texts over what is special.
fn p06_long() {
    let n = if sym::thorough() { 6 } else { 4 };
    let t = sym::text(n, "\\nt]\"'%d\n\t\r@[; ");
    match sym::choice(3) {
        0 => round_trip(&with_info(3, t), "info changed"),
        1 => round_trip(&with_string(t, false), "string changed"),
        _ => round_trip(&print(vec![PrintElement::Literal(t)]), "format string changed"),
    }
}

/// What a text with escapes denotes up to the terminator; None if it does not
/// reach it.
fn unescape(s: &[u8], end: u8, special: &[u8]) -> Option<(Vec<u8>, usize)> {
    let mut v = vec![];
    let mut i = 0;
    while i < s.len() {
        let c = s[i];
        if c == b'\\' {
            let d = *s.get(i + 1)?;
            v.push(match d {
                b'n' => b'\n',
                b't' => b'\t',
                d => d,
            });
            i += 2;
        } else if c == end {
            return Some((v, i + 1));
        } else if special.contains(&c) {
            return None;
        } else {
            v.push(c);
            i += 1;
        }
    }
    None
}
/// Is the rest of the line empty?
fn blank(r: &[u8]) -> bool {
    r.iter().find(|c| **c != b' ') == Some(&b'\n')
}
/// No line ends behind the terminator (the lines that follow are no matter
/// here).
fn one_line(t: &str, end: u8) {
    let u = unescape(t.as_bytes(), end, b"\n\t");
    if let Some((_, e)) = u {
        sym::assume(!t.as_bytes()[e..].contains(&b'\n'));
    }
}
const ESC: &str = "\\nt]\"' x\n";

/// Infos as somebody else may have written them.
fn p06_read_info() {
    let n = if sym::thorough() { 5 } else { 4 };
    let t = sym::text(n, ESC);
    one_line(&t, b']');
    let s = format!("circuit M:\n  module M:\n    skip @[{}\n    skip @[x]\n", t);
    sym::log(&s);
    let rest = format!("{}\n    skip @[x]\n", t);
    let want = unescape(rest.as_bytes(), b']', b"\n\t");
    let got = parse(&s);
    match (&got, want) {
        (Ok(c), Some((w, end))) => {
            let v = c.top_module().statements();
            sym::check(v.len() > 0 && v[0].info().map(|i| i.as_bytes()) == Some(&w[..]), "info is read differently");
            // an info with an escaped line end may go on in the next line
            let two = end <= t.len();
            sym::check(v.len() == if two { 2 } else { 1 }, "something is swallowed");
            sym::check(v[v.len() - 1].info() == if two { Some("x") } else { v[0].info() }, "something is swallowed");
            sym::check(blank(&rest.as_bytes()[end..]), "something behind an info is accepted");
            sym::reach(2);
        }
        (Err(_), None) => sym::reach(4),
        (Ok(_), None) => sym::fail("an info without end is accepted"),
        // behind the end there has to be the end of the line
        (Err(_), Some((_, end))) => {
            sym::check(!blank(&rest.as_bytes()[end..]), "an info is rejected");
        }
    }
}
fn p06_read_string() {
    let n = if sym::thorough() { 5 } else { 4 };
    let t = sym::text(n, ESC);
    let q = if sym::flag() { '"' } else { '\'' };
    one_line(&t, q as u8);
    let s = format!("circuit M:\n  extmodule M:\n    parameter a = {}{}{}\n    parameter b = 1\n", q, t, q);
    sym::log(&s);
    let rest = format!("{}{}\n    parameter b = 1\n", t, q);
    let want = unescape(rest.as_bytes(), q as u8, b"\n\t");
    match (&parse(&s), want) {
        (Ok(c), Some((w, end))) => {
            sym::reach(5);
            let k = match c.top_module().kind() {
                ModKind::External { params, .. } => params,
                _ => sym::fail("another kind of module"),
            };
            sym::check(k.len() == 2 && k.get("b") == Some(&ParamValue::Int(1)), "something is swallowed");
            match k.get("a") {
                Some(ParamValue::String(x)) => sym::check(x.as_bytes() == &w[..], "string is read differently"),
                _ => sym::fail("a string is no string"),
            }
            sym::check(blank(&rest.as_bytes()[end..]), "something behind a string is accepted");
        }
        (Err(_), None) => sym::reach(6),
        (Ok(_), None) => sym::fail("a string without end is accepted"),
        (Err(_), Some((_, end))) => {
            sym::check(!blank(&rest.as_bytes()[end..]), "a string is rejected");
        }
    }
}
/// What a format string denotes: texts and specifiers.
#[derive(PartialEq)]
enum Part {
    Text(Vec<u8>),
    Spec(u8),
}
fn parts(s: &[u8]) -> Option<Vec<Part>> {
    let mut v: Vec<Part> = vec![];
    let mut i = 0;
    while i < s.len() {
        let c = match s[i] {
            b'"' | b'\n' | b'\t' => return None,
            b'\\' => {
                i += 1;
                match *s.get(i)? {
                    b'n' => b'\n',
                    b't' => b'\t',
                    d => d,
                }
            }
            b'%' => {
                i += 1;
                match *s.get(i)? {
                    b'%' => b'%',
                    d @ (b'b' | b'd' | b'x' | b'c') => {
                        v.push(Part::Spec(d));
                        i += 1;
                        continue;
                    }
                    _ => return None,
                }
            }
            c => c,
        };
        i += 1;
        if let Some(Part::Text(t)) = v.last_mut() {
            t.push(c);
        } else {
            v.push(Part::Text(vec![c]));
        }
    }
    Some(v)
}
/// Format strings as somebody else may have written them, with any number of
/// arguments.
fn p06_read_format() {
    let n = sym::choice(if sym::thorough() { 6 } else { 5 }) as usize;
    let t = sym::text(n, "\\ndx%\" ");
    let args = sym::choice(4) as usize;
    let s = format!(
        "circuit M:\n  module M:\n    input a: UInt<1>\n    printf(a, a, \"{}\"{})\n    skip @[x]\n",
        t,
        &", a[0], a[1], a[2]"[..6 * args]
    );
    sym::log(&s);
    let want = parts(t.as_bytes()).filter(|p| p.iter().filter(|p| matches!(p, Part::Spec(_))).count() == args);
    match (&parse(&s), want) {
        (Ok(c), Some(w)) => {
            sym::reach(7);
            let v = c.top_module().statements();
            sym::check(v.len() == 2, "something is swallowed");
            let msg = match v[0].kind() {
                StmtKind::Print { msg, .. } => msg,
                _ => sym::fail("another statement"),
            };
            sym::check(msg.len() == w.len(), "format string is read differently");
            let mut k = 0;
            for (m, w) in msg.iter().zip(&w) {
                match (m, w) {
                    (PrintElement::Literal(s), Part::Text(t)) => {
                        sym::check(s.as_bytes() == &t[..], "text is read differently")
                    }
                    (PrintElement::Value(e, f), Part::Spec(s)) => {
                        let f = match f {
                            Format::Binary => b'b',
                            Format::Decimal => b'd',
                            Format::Hexadecimal => b'x',
                            Format::Character => b'c',
                        };
                        sym::check(f == *s, "another format");
                        match e {
                            Expression::SubIndex { index, .. } => sym::check(*index == k, "arguments are reordered"),
                            _ => sym::fail("another argument"),
                        }
                        k += 1;
                    }
                    _ => sym::fail("format string is read differently"),
                }
            }
        }
        (Err(_), None) => sym::reach(8),
        (Ok(_), None) => sym::fail("a malformed format string is accepted"),
        (Err(_), Some(_)) => sym::fail("a format string is rejected"),
    }
}

// --- large ---
const PLAIN: &str = "\0\x01\x08\x1f\x7f\x0b abuxz09AZ{}<>!#$&*.,:?_`|~";
/// Texts of any length, with something special at one place.
fn p06_far() {
    let n = size();
    let k = spot(n);
    let mut t: String = (0..k).map(|i| (b'a' + (i % 26) as u8) as char).collect();
    t.push_str(&match sym::choice(3) {
        0 => sym::text(2, "\\nt]\"'%d\n\t\r@[; "),
        1 if n < 20 => wide_char(2 + sym::choice(3)),
        1 => ["\u{e9}", "\u{20ac}", "\u{10000}"][sym::choice(3) as usize].into(),
        _ => sym::text(1, PLAIN),
    });
    t.extend((k..n).map(|i| (b'A' + (i % 26) as u8) as char));
    match sym::choice(3) {
        0 => round_trip(&with_info(3, t), "info changed"),
        1 => round_trip(&with_string(t, false), "string changed"),
        _ => round_trip(&print(vec![PrintElement::Literal(t)]), "format string changed"),
    }
}
/// Many special characters, many specifiers.
fn p06_many() {
    let n = size();
    let k = spot(n);
    let c = ["\\", "\n", "]", "%", "\"", "'", "\t", "\\]", "%d", "\u{e9}"];
    let way = sym::choice(3) as usize;
    let mut t = String::new();
    for i in 0..n {
        if i == k {
            t.push_str(&sym::text(1, "\\nt]\"'%d\n\t "))
        } else {
            t.push_str(c[(i * (way * 2 + 1)) % c.len()])
        }
    }
    match sym::choice(4) {
        0 => round_trip(&with_info(3, t), "info changed"),
        1 => round_trip(&with_string(t, false), "string changed"),
        2 => round_trip(&print(vec![PrintElement::Literal(t)]), "format string changed"),
        _ => {
            let v = (0..n)
                .map(|i| {
                    if way > 0 && i % 2 == 0 {
                        PrintElement::Literal(if i / 2 == k / 2 { sym::text(1, "%d\\\"a") } else { c[i / 2 % c.len()].into() })
                    } else {
                        value(i as u32, if i == k { sym::choice(4) } else { i as u32 % 4 })
                    }
                })
                .collect();
            round_trip(&print(v), "format string changed")
        }
    }
}
