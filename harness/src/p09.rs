//! A successful parse accounts for the whole input.
use super::{sym, text, texts, util::*};

super::entries! { p09_base, p09_cut, p09_insert, p09_replace, p09_delete, p09_line, p09_unlines, p09_swap, p09_tokens, p09_expr, p09_type, p09_stmt, p09_lines, p09_module, p09_mem, p09_reg, p09_port, p09_empty, p09_dup, p09_else, p09_calls, p09_stops, p09_extra }

/// Checks that an accepted text and what was made of it say the same.
fn account(s: &str) -> bool {
    sym::log(s);
    let c = match parse(s) {
        Ok(c) => c,
        Err(e) => {
            sym::check(e.to_string().len() > 0, "an error without text");
            sym::reach(2);
            return false;
        }
    };
    sym::reach(1);
    let t = match text::read(s) {
        Some(t) => t,
        None => sym::fail("a text without structure is accepted"),
    };
    sym::check(t.len() == 1, "more than a circuit is accepted");
    let out = text::read(&c.to_string()).unwrap();
    sym::check(out[0].toks == t[0].toks, "the head of the circuit differs");
    let mut ms = match circuit::consumer(s) {
        Ok(m) => m,
        Err(_) => sym::fail("accepted only as a whole"),
    };
    let mut n = 0;
    while let Some(m) = ms.next() {
        let m = match m {
            Ok(m) => m,
            Err(_) => sym::fail("accepted with a malformed module"),
        };
        sym::check(n < t[0].body.len(), "more modules than written");
        // a circuit prints its top module last
        let p = text::read(&Circuit::new(m).to_string()).unwrap();
        let p = p[0].body.last().unwrap();
        if *p != t[0].body[n] {
            sym::fail("accepted as something else than written")
        }
        n += 1
    }
    sym::check(n == t[0].body.len(), "fewer modules than written");
    true
}

fn p09_base() {
    sym::check(account(texts::TEXT), "the text is not accepted");
    sym::reach(3)
}
fn p09_cut() {
    account(&texts::cut());
}
fn p09_insert() {
    account(&texts::insert());
}
fn p09_replace() {
    account(&texts::replace());
}
fn p09_delete() {
    account(&texts::delete());
}
fn p09_line() {
    account(&texts::line());
}
fn p09_unlines() {
    account(&texts::unlines());
}
fn p09_swap() {
    account(&texts::swap());
}
fn p09_tokens() {
    account(&texts::tokens());
}
fn p09_expr() {
    account(&texts::expr());
}
fn p09_type() {
    account(&texts::types());
}
fn p09_stmt() {
    account(&texts::stmt());
}
fn p09_lines() {
    account(&texts::lines());
}
fn p09_module() {
    account(&texts::module());
}
fn p09_mem() {
    account(&texts::mem());
}
fn p09_reg() {
    account(&texts::reg());
}
fn p09_port() {
    account(&texts::port());
}
fn p09_dup() {
    account(&texts::dup());
}
fn p09_else() {
    account(&texts::elses());
}
fn p09_empty() {
    let (s, n, k) = texts::names();
    let ok = account(&s);
    sym::check(n > 0 || !ok, "an empty name is accepted");
    if ok && k > 1 {
        sym::reach(4)
    }
}
fn p09_calls() {
    account(&texts::calls());
}
fn p09_stops() {
    account(&texts::stops());
}
fn p09_extra() {
    account(&texts::extra());
}
