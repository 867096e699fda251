//! What was read can be printed and read again.
use super::{sym, texts, util::*};

super::entries! { p26_base, p26_cut, p26_insert, p26_replace, p26_delete, p26_line, p26_unlines, p26_swap, p26_tokens, p26_expr, p26_type, p26_stmt, p26_lines, p26_module, p26_mem, p26_reg, p26_port, p26_names, p26_dup, p26_else, p26_wide, p26_double, p26_param, p26_literal, p26_escape, p26_calls, p26_stops, p26_extra }

fn again(s: &str) -> bool {
    sym::log(s);
    let ms = match circuit::consumer(s) {
        Ok(m) => m,
        Err(_) => return false,
    };
    let mut v: Vec<Arc<Module>> = vec![];
    for m in ms {
        match m {
            // two modules of one name cannot be told apart
            Ok(m) if v.iter().any(|n| n.name() == m.name()) => return true,
            Ok(m) => v.push(m),
            Err(_) => break,
        }
    }
    for m in &v {
        sym::reach(1);
        same(Circuit::new(m.clone()), v.iter().any(|m| hollow(m.statements())))
    }
    match parse(s) {
        Ok(c) => {
            sym::reach(2);
            same(c, v.iter().any(|m| hollow(m.statements())));
            sym::check(v.len() > 0, "a circuit without modules");
            true
        }
        Err(_) => false,
    }
}
/// Is there a `when` without statements?  It is printed with a `skip`.
fn hollow(v: &[Statement]) -> bool {
    v.iter().any(|s| match s.kind() {
        StmtKind::Conditional { when, r#else, .. } => when.len() == 0 || hollow(when) || hollow(r#else),
        _ => false,
    })
}
fn filled(v: &[Statement]) -> Vec<Statement> {
    v.iter()
        .map(|s| match s.kind() {
            StmtKind::Conditional { cond, when, r#else } => {
                let when: Arc<[Statement]> = if when.len() == 0 { vec![StmtKind::Empty.into()].into() } else { filled(when).into() };
                let k = StmtKind::Conditional { cond: cond.clone(), when, r#else: filled(r#else).into() };
                Statement::from(k).with_info(s.info().map(|s| s.to_string()))
            }
            _ => s.clone(),
        })
        .collect()
}
fn same(c: Circuit, hollow: bool) {
    let t = c.to_string();
    let d = match parse(&t) {
        Ok(d) => d,
        Err(_) => {
            sym::log(&t);
            sym::fail("what was read is not accepted when printed")
        }
    };
    let right = if hollow {
        let (m, n) = (c.top_module(), d.top_module());
        sym::reach(5);
        c.info() == d.info()
            && m.name() == n.name()
            && m.info() == n.info()
            && m.ports().count() == n.ports().count()
            && m.ports().zip(n.ports()).all(|(a, b)| a == b)
            && filled(m.statements()) == n.statements()
    } else {
        d == c
    };
    if !right {
        sym::log(&t);
        sym::fail("what was read is another circuit when printed")
    }
    sym::check(d.to_string() == t, "what was read is printed in two ways")
}
fn p26_base() {
    sym::check(again(texts::TEXT), "the text is not accepted");
    sym::reach(3)
}
fn p26_cut() {
    again(&texts::cut());
}
fn p26_insert() {
    again(&texts::insert());
}
fn p26_replace() {
    again(&texts::replace());
}
fn p26_delete() {
    again(&texts::delete());
}
fn p26_line() {
    again(&texts::line());
}
fn p26_unlines() {
    again(&texts::unlines());
}
fn p26_swap() {
    again(&texts::swap());
}
fn p26_tokens() {
    again(&texts::tokens());
}
fn p26_expr() {
    again(&texts::expr());
}
fn p26_type() {
    again(&texts::types());
}
fn p26_stmt() {
    again(&texts::stmt());
}
fn p26_lines() {
    again(&texts::lines());
}
fn p26_module() {
    again(&texts::module());
}
fn p26_mem() {
    again(&texts::mem());
}
fn p26_reg() {
    again(&texts::reg());
}
fn p26_port() {
    again(&texts::port());
}
fn p26_dup() {
    again(&texts::dup());
}
fn p26_else() {
    again(&texts::elses());
}
fn p26_names() {
    if again(&texts::names().0) {
        sym::reach(4)
    }
}
/// Names and texts of any characters.
fn p26_wide() {
    let c = wide_char(2 + sym::choice(3));
    let t = match sym::choice(3) {
        0 => c,
        1 => format!("a{}", c),
        _ => format!("{}a", c),
    };
    let k = sym::choice(texts::PLACES.len() as u32 + 3) as usize;
    if k < texts::PLACES.len() {
        again(&texts::PLACES[k].replace("#", &t));
    } else if k == texts::PLACES.len() {
        again(&format!("circuit M: @[{}]\n  module M:\n    skip\n", t));
    } else if k == texts::PLACES.len() + 1 {
        again(&format!("circuit M:\n  extmodule M:\n    parameter x = \"{}\"\n", t));
    } else {
        again(&format!("circuit M:\n  module M:\n    input a: UInt\n    printf(a, a, \"{}\")\n", t));
    }
}
/// Numbers that may be doubles, of any size.
fn p26_double() {
    let pick = |v: &[&'static str]| v[sym::choice(v.len() as u32) as usize];
    let n = pick(&["", "0", "7", "10", "123", "9007199254740993", "99999999999999999999"]);
    let f = pick(&["", "0", "5", "04", "000000000000000000000000000001"]);
    let e = match sym::choice(3) {
        0 => String::new(),
        1 => format!("E{}{}", pick(&["", "-", "+"]), sym::choice(if sym::thorough() { 50 } else { 10 })),
        _ => format!("E{}{}", pick(&["", "-"]), 280 + sym::choice(if sym::thorough() { 50 } else { 40 })),
    };
    let ok = again(&format!("circuit M:\n  extmodule M:\n    parameter x = {}{}.{}{}\n", pick(&["", "-", "+"]), n, f, e));
    if ok {
        sym::reach(6)
    }
}
/// Anything of a few characters as a parameter.
fn p26_param() {
    let n = 1 + sym::choice(if sym::thorough() { 5 } else { 4 }) as usize;
    if again(&format!("circuit M:\n  extmodule M:\n    parameter x = {}\n", sym::text(n, "0159+-.E\"'\\n"))) {
        sym::reach(7)
    }
}
/// Literals of any base, with and without width.
fn p26_literal() {
    let n = 1 + sym::choice(if sym::thorough() { 4 } else { 3 }) as usize;
    let w = ["", "<0>", "<3>", "<70>"][sym::choice(4) as usize];
    let t = if sym::flag() { "UInt" } else { "SInt" };
    let t2: String = (0..n).map(|_| ['0', '1', '7', '9', 'a', 'F', '+', '-'][sym::choice(8) as usize]).collect();
    let (a, b) = [("", ""), ("\"b", "\""), ("\"o", "\""), ("\"h", "\"")][sym::choice(4) as usize];
    if again(&format!("circuit M:\n  module M:\n    node n = {}{}({}{}{})\n", t, w, a, t2, b)) {
        sym::reach(8)
    }
}
/// Escapes as somebody else may write them.
fn p26_escape() {
    let n = if sym::thorough() { 4 } else { 3 };
    let t = sym::text(1 + sym::choice(n) as usize, sym::ASCII);
    let s = match sym::choice(5) {
        0 => format!("circuit M: @[{}]\n  module M:\n    skip\n", t),
        1 => format!("circuit M:\n  module M:\n    skip @[{}]\n", t),
        2 => format!("circuit M:\n  extmodule M:\n    parameter x = \"{}\"\n", t),
        3 => format!("circuit M:\n  extmodule M:\n    parameter x = '{}'\n", t),
        _ => format!("circuit M:\n  module M:\n    input a: UInt\n    printf(a, a, \"{}\", a)\n", t),
    };
    if again(&s) {
        sym::reach(9)
    }
}
fn p26_calls() {
    again(&texts::calls());
}
fn p26_stops() {
    again(&texts::stops());
}
fn p26_extra() {
    again(&texts::extra());
}
