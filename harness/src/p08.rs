//! Reading any text ends in a result.
use super::{sym, util::*};

super::entries! { p08_short, p08_start, p08_cut, p08_insert, p08_replace, p08_delete, p08_wide, p08_expr, p08_type, p08_stmt, p08_lines, p08_module, p08_deep, p08_mem, p08_bytes, p08_calls, p08_stops, p08_extra }

pub const TEXT: &str = r#"circuit M: @[i]
  extmodule E:
    input p: UInt<1>
    defname = d
    parameter x = 1
    parameter y = 1.5
    parameter z = "s"
  module N:
    output q: { a: UInt<1>, flip b: SInt<2>[3]}
  module M: @[m]
    input c: Clock
    output o: Fixed<3><<1>>
    wire w: Analog<4>
    reg x: UInt<8>, c with: (reset => (w, UInt<8>(3)))
    node n = add(w, SInt("h-f"))
    mem m:
      data-type => UInt<3>
      depth => 4
      reader => r
      read-latency => 1
      read-under-write => old
    smem s: UInt<1>[4], new
    infer mport p = s[n], c
    inst i of N
    i.q <= w.x[3][n]
    x <- mux(w, validif(n, w), bits(x, 3, 1))
    when n: @[w]
      w is invalid
    else when x:
      attach(w, w)
    else:
      skip
    stop(c, n, 1) : name
    printf(c, n, "a%d", x)
"#;

/// Reads a text and looks at what comes out.
fn go(s: &str) {
    sym::log(s);
    match parse(s) {
        Ok(c) => {
            inspect(&c);
            sym::reach(1)
        }
        Err(e) => {
            sym::check(e.to_string().len() > 0, "an error without text");
            sym::reach(2)
        }
    }
}

/// Module by module, also beyond errors: no more results than lines.
fn each(s: &str) {
    go(s);
    let most = s.split('\n').count() + 1;
    match circuit::consumer(s) {
        Ok(c) => {
            let mut n = 0;
            for m in c {
                match m {
                    Ok(m) => {
                        sym::check(m.name().len() > 0, "a module without a name");
                        sym::reach(5)
                    }
                    Err(e) => {
                        sym::check(e.to_string().len() > 0, "an error without text");
                        sym::reach(6)
                    }
                }
                n += 1;
                sym::check(n <= most, "more modules than lines");
            }
        }
        Err(e) => sym::check(e.to_string().len() > 0, "an error without text"),
    }
}

/// Any position in the text.
fn at() -> usize {
    let h = sym::choice(TEXT.len() as u32 / 32 + 1) as usize;
    let k = h * 32 + sym::choice(32) as usize;
    sym::assume(k < TEXT.len());
    k
}
/// Every short text.
fn p08_short() {
    let n = sym::choice(if sym::thorough() { 6 } else { 5 }) as usize;
    each(&sym::text(n, sym::ASCII))
}
/// Every short continuation of a beginning.
fn p08_start() {
    let s = ["circuit", "circuit ", "circuit M", "circuit M:", "circuit M:\n", "circuit M:\n  module", "circuit M:\n  module M:", "circuit M:\n  module M:\n    "];
    let s = s[sym::choice(s.len() as u32) as usize];
    let n = sym::choice(if sym::thorough() { 5 } else { 4 }) as usize;
    each(&format!("{}{}", s, sym::text(n, sym::ASCII)))
}
/// Cut off anywhere.
fn p08_cut() {
    let k = at();
    let n = sym::choice(if sym::thorough() { 2 } else { 1 }) as usize;
    each(&format!("{}{}", &TEXT[..k], sym::text(n, sym::ASCII)))
}
/// Something more anywhere.
fn p08_insert() {
    let k = at();
    let n = if sym::thorough() { 2 } else { 1 };
    go(&format!("{}{}{}", &TEXT[..k], sym::text(n, sym::ASCII), &TEXT[k..]))
}
/// Something else anywhere.
fn p08_replace() {
    let k = at();
    let n = if sym::thorough() { 2 } else { 1 };
    let e = (k + n).min(TEXT.len());
    go(&format!("{}{}{}", &TEXT[..k], sym::text(n, sym::ASCII), &TEXT[e..]))
}
/// Something missing anywhere.
fn p08_delete() {
    let k = at();
    let n = [1, 2, 3, 5, 8, 13][sym::choice(6) as usize];
    let e = (k + n).min(TEXT.len());
    go(&format!("{}{}", &TEXT[..k], &TEXT[e..]))
}
/// Characters of several bytes anywhere, also such that count as letters,
/// digits or white space.
fn p08_wide() {
    let k = at();
    let w = ["\u{e9}", "\u{b2}", "\u{663}", "\u{85}", "\u{a0}", "\u{2028}", "\u{feff}", "\u{1d7d9}", "\u{10ffff}"];
    let w = w[sym::choice(if sym::thorough() { 9 } else { 3 }) as usize];
    go(&format!("{}{}{}", &TEXT[..k], w, &TEXT[k..]))
}

fn tokens(n: u32, v: &[&str]) -> String {
    let sep = if sym::flag() { " " } else { "" };
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            s.push_str(sep)
        }
        s.push_str(v[sym::choice(v.len() as u32) as usize])
    }
    s
}
fn len() -> u32 {
    1 + sym::choice(if sym::thorough() { 4 } else { 3 })
}
fn p08_expr() {
    let v = ["a", "b", "(", ")", ",", "[", "]", ".", "1", "70000", "-", "UInt", "SInt", "<", ">", "\"h\"", "\"b1\"", "mux", "add", "bits", "asFixed"];
    go(&format!("circuit M:\n  module M:\n    input a: UInt<1>\n    node n = {}\n    skip\n", tokens(len(), &v)))
}
fn p08_type() {
    let v = ["UInt", "Fixed", "Clock", "Analog", "<", ">", "<<", ">>", "1", "-1", "70000", "[", "]", "{", "}", "flip", "a", ":", ","];
    go(&format!("circuit M:\n  module M:\n    wire w: {}\n    skip\n", tokens(len(), &v)))
}
fn p08_stmt() {
    let v = [
        "a", "<=", "<-", "is", "invalid", "skip", "when", "else", ":", "wire", "node", "reg", "mem", "smem", "inst", "of", "read", "mport", "=", "attach",
        "(a)", "stop", "printf", "(a, a, ", "1)", "\"%d\"", "@[", "]",
    ];
    go(&format!("circuit M:\n  module M:\n    input a: UInt<1>\n    {}\n    skip\n", tokens(len(), &v)))
}
/// Whole lines in any order at any depth.
fn p08_lines() {
    let v = [
        "when a:", "else:", "else when a:", "skip", "wire w: UInt<1>", "w <= a", "mem m:", "data-type => UInt<1>", "depth => 0", "reader => a",
        "printf(a, a, \"%d%d\")", "module M:", "input a: UInt<1>", "bad", "extmodule E:",
    ];
    let mut s = String::from("circuit M:\n  module M:\n    input a: UInt<1>\n");
    for _ in 0..1 + sym::choice(3) {
        let d = if sym::thorough() { 1 + sym::choice(4) } else { 2 + sym::choice(2) };
        for _ in 0..d {
            s.push_str("  ")
        }
        s.push_str(v[sym::choice(v.len() as u32) as usize]);
        s.push('\n')
    }
    each(&s)
}
fn p08_module() {
    let h = ["", "module M:\n    ", "extmodule M:\n    ", "module M:\n    input ", "extmodule M:\n    parameter ", "extmodule M:\n    output a: UInt\n    "];
    let h = h[sym::choice(h.len() as u32) as usize];
    let v = [
        "module", "extmodule", "M", ":", "\n    ", "\n  ", "input", "output", "a", ": UInt<1>", "defname", "parameter", "=", "1", "-1", "99999999999999999999", "1.5", "\"",
        "'",
    ];
    each(&format!("circuit M:\n  {}{}\n", h, tokens(len(), &v)))
}
/// Nested far, with anything in the middle: no more than a few steps for each
/// character.
fn p08_deep() {
    let k = sym::choice(12) as usize;
    let n = [1, 2, 5, 10, 20, 40][sym::choice(6) as usize];
    let n = if k == 11 { n / 2 } else { n };
    let (a, b) = [
        ("node n = ", ""), ("node n = mux(a, ", ", a)"), ("node n = a[", "]"), ("node n = asUInt(", ")"), ("node n = bits(", ", 1, 0)"),
        ("node n = validif(", ", a)"), ("wire w: { x: ", "}"), ("wire w: { flip x: ", ", y: UInt}"), ("wire w: UInt<1>", ""), ("a", ""), ("printf(a, a, \"", "\")"), ("", ""),
    ][k];
    let (o, c) = [
        ("(", ")"), ("mux(a, ", ", a)"), ("a[", "]"), ("add(a, ", ")"), ("bits(", ", 1, 0)"), ("validif(", ", a)"), ("{ x: ", "}"), ("{ flip x: ", ", y: UInt}"),
        ("[2]", ""), (".a", ""), ("%d\\n", ""), ("", ""),
    ][k];
    let m = sym::text(1, sym::ASCII);
    let mut s = String::from("circuit M:\n  module M:\n    input a: UInt<1>\n");
    if k == 11 {
        for i in 0..n {
            for _ in 0..i + 2 {
                s.push_str("  ")
            }
            s.push_str("when a:\n")
        }
        for _ in 0..n + 2 {
            s.push_str("  ")
        }
        s.push_str(&m);
        s.push_str("kip\n")
    } else {
        s.push_str("    ");
        s.push_str(a);
        for _ in 0..n {
            s.push_str(o)
        }
        s.push_str(&m);
        for _ in 0..n {
            s.push_str(c)
        }
        s.push_str(b);
        s.push_str("\n    skip\n")
    }
    go(&s)
}
fn p08_mem() {
    let v = [
        "data-type", "depth", "reader", "writer", "read-latency", "write-latency", "read-under-write", "=>", "UInt<1>", "1", "99999", "old", "x", "\n      ", "\n    ",
    ];
    each(&format!("circuit M:\n  module M:\n    mem m:\n      {}\n    skip\n", tokens(len() + 1, &v)))
}
/// Bytes that are no text.
fn p08_bytes() {
    let n = sym::choice(if sym::thorough() { 4 } else { 3 }) as usize;
    let mut b = b"circuit M:\n  module M:\n    skip @[".to_vec();
    let f = sym::bytes_vec(n);
    b.extend_from_slice(&f);
    b.extend_from_slice(b"]\n");
    match Circuit::from_read(&b[..]) {
        Ok(c) => {
            inspect(&c);
            sym::check(std::str::from_utf8(&f).is_ok(), "bytes that are no text are accepted");
            sym::reach(3)
        }
        Err(e) => {
            sym::check(e.to_string().len() > 0, "an error without text");
            sym::reach(4)
        }
    }
}
fn p08_calls() {
    go(&super::texts::calls())
}
fn p08_stops() {
    go(&super::texts::stops())
}
fn p08_extra() {
    go(&super::texts::extra())
}
