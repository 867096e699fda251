//! Error reports are about the text that was read.
use super::{sym, util::*};
use firrtl_ast::module::Modules;

super::entries! { p25_line, p25_name, p25_char, p25_cut, p25_front, p25_modules, p25_relative, p25_io, p25_long }

const TEXT: &str = r#"circuit M: @[i]
  extmodule E:
    input p: UInt<1>
    defname = d
    parameter x = 1
    parameter z = "s"
  module N: @[n]
    output q: { a: UInt<1>, flip b: SInt<2>[3]} @[p]
    q.a <= q.b[1]
  module M:
    input c: Clock
    output o: Fixed<3><<1>>
    wire w: Analog<4>
    reg x: UInt<8>, c with: (reset => (w, UInt<8>(3)))
    node n = add(w, SInt<5>(-7))
    mem m: @[m]
      data-type => UInt<3>
      depth => 4
      reader => r
      read-latency => 1
      write-latency => 2
      read-under-write => old
    smem s: UInt<1>[4], new
    infer mport p = s[n], c
    inst i of N
    i.q <= w.x[3][n]
    when n: @[w]
      w is invalid
      when x:
        skip
    else when x:
      attach(w, w)
      x <= n
    else:
      wire v: AsyncReset
      v <= tail(w, 1)
    stop(c, n, 1) : name
    printf(c, n, "a%d", x) @[f]
  module Q:
    inst e of E
    skip
"#;
fn lines(s: &str) -> Vec<&str> {
    s.split('\n').collect()
}
fn indent(l: &str) -> usize {
    l.bytes().take_while(|b| *b == b' ').count()
}
/// The first line of what the line is a part of.
fn head(v: &[&str], k: usize) -> usize {
    let d = indent(v[k]);
    // within a memory
    let mut i = k;
    while i > 0 && indent(v[i]) >= d {
        i -= 1
    }
    if indent(v[i]) < d && v[i].trim_start().starts_with("mem ") {
        return i;
    }
    // an alternative
    let mut i = k;
    while v[i].trim_start().starts_with("else") {
        i -= 1;
        while indent(v[i]) > d {
            i -= 1
        }
    }
    i
}
fn number(s: &str) -> Option<usize> {
    if s.is_empty() {
        return None;
    }
    let mut n = 0;
    for b in s.bytes() {
        if !b.is_ascii_digit() {
            return None;
        }
        n = n * 10 + (b - b'0') as usize
    }
    Some(n)
}
/// The lines (counted from 0) that a report names; each has to be quoted.
fn reported(e: &ParseError, text: &str) -> Vec<usize> {
    let v = lines(text);
    let r = e.to_string();
    sym::log(&r);
    sym::check(r.len() > 0, "an empty report");
    let mut out = vec![];
    let rs = lines(&r);
    for i in 0..rs.len() {
        let at = match rs[i].find(": at line ") {
            Some(p) if number(&rs[i][..p]).is_some() => &rs[i][p + 10..],
            _ => continue,
        };
        let n = match at.find(|c: char| !c.is_ascii_digit()).and_then(|p| number(&at[..p])) {
            Some(n) => n,
            None => continue,
        };
        sym::check(n >= 1 && n <= v.len(), "a line that is not there is reported");
        sym::check(rs.get(i + 1).map_or(false, |q| q.trim_end() == v[n - 1].trim_end()), "another line is quoted than reported");
        out.push(n - 1)
    }
    out
}
/// Rejects the text, for the line k or what it is a part of.
fn blames(text: &str, k: usize, from: usize, e: &ParseError) {
    let n = reported(e, text);
    sym::check(n.len() > 0, "no line is reported");
    for n in n {
        sym::check(n <= k, "a line behind the malformed one is reported");
        sym::check(n >= from, "a line before the malformed one is reported");
    }
}
fn with_line(v: &[&str], k: usize, l: &str) -> String {
    let mut v = v.to_vec();
    v[k] = l;
    v.join("\n")
}
fn any_line(v: &[&str]) -> usize {
    sym::choice(v.len() as u32 - 1) as usize
}
fn garbage() -> String {
    let g = ["bad", "?", "{", "bad bad", "0", "@", "a <= ", "wire", ")", "\"", "when", "mem m", "\u{e9}\u{20ac}", "skip skip"];
    if sym::flag() {
        // ends too early
        let g = [
            "circuit", "circuit M", "module", "module M", "extmodule", "input", "input a", "input a:", "output o: ", "wire w", "wire w:", "node n", "node n =",
            "mem", "inst i", "inst i of", "reg r: UInt<1>,", "reg r:", "when n", "when x  ", "else", "parameter", "parameter x", "parameter x =", "defname",
            "defname =", "data-type", "data-type =>", "depth =>", "stop(", "stop(c, n,", "printf(c, n,", "printf(c, n, \"", "x <=", "x <= \t", "x is", "smem s:",
            "read mport p", "infer mport p = s[", "skip @[", "w.", "attach(w,", "node n = add(w,", "wire w: {", "wire w: { a: ", "wire w: UInt<",
        ];
        return g[sym::choice(g.len() as u32) as usize].into();
    }
    let k = sym::choice(g.len() as u32 + 1) as usize;
    if k < g.len() {
        g[k].into()
    } else {
        format!("?{}", sym::text(1, sym::ASCII))
    }
}

/// Any line replaced by something that is none.
fn p25_line() {
    let v = lines(TEXT);
    let k = any_line(&v);
    let l = format!("{}{}", &v[k][..indent(v[k])], garbage());
    let s = with_line(&v, k, &l);
    match parse(&s) {
        Ok(_) => sym::fail("a malformed text is accepted"),
        Err(e) => {
            sym::reach(1);
            blames(&s, k, head(&v, k), &e)
        }
    }
}
/// A name that is not declared, anywhere.
fn p25_name() {
    let v = lines(TEXT);
    let k = any_line(&v);
    let uses = [" w", " n", " x", "(w", "(c", "(n", "(x", "[n", " s[", ", c", ", n", ", x", ", w", "i.", "q.", " of N", " of E", " v"];
    let u = uses[sym::choice(uses.len() as u32) as usize];
    let p = match v[k].rfind(u) {
        Some(p) => p,
        None => return,
    };
    if v[k][..p].ends_with('@') {
        return;
    }
    // declarations introduce a name
    let t = v[k].trim_start();
    if u == " w" && t.starts_with("wire w") || u == " n" && t.starts_with("node") || u == " x" && (t.starts_with("reg") || t.starts_with("par")) || u == " v" && t.starts_with("wire") {
        return;
    }
    let b = u.bytes().position(|b| b.is_ascii_alphabetic()).unwrap();
    let b = if u.starts_with(" of") { 4 } else { b };
    let end = p + b + 1;
    if v[k].as_bytes().get(end).map_or(false, |b| b.is_ascii_alphanumeric() || *b == b'-') {
        return;
    }
    if !["w", "n", "x", "c", "s", "i", "q", "N", "E", "v"].contains(&&v[k][p + b..end]) || t.starts_with("circuit") || t.starts_with("mem ") || t.starts_with("read") || t.starts_with("parameter") {
        return;
    }
    let l = format!("{}{}{}", &v[k][..p + b], "undeclared", &v[k][end..]);
    let s = with_line(&v, k, &l);
    sym::log(&l);
    match parse(&s) {
        Ok(_) => sym::fail("an undeclared name is accepted"),
        Err(e) => {
            sym::reach(2);
            blames(&s, k, head(&v, k), &e)
        }
    }
}
/// Anything changed: what is reported is quoted as it is.
fn p25_char() {
    let h = sym::choice(TEXT.len() as u32 / 32 + 1) as usize;
    let k = h * 32 + sym::choice(32) as usize;
    sym::assume(k < TEXT.len());
    let n = if sym::thorough() { 2 } else { 1 };
    let e = (k + n).min(TEXT.len());
    let s = format!("{}{}{}", &TEXT[..k], sym::text(n, sym::ASCII), &TEXT[e..]);
    if let Err(e) = parse(&s) {
        sym::reach(3);
        reported(&e, &s);
    }
}
fn p25_cut() {
    let h = sym::choice(TEXT.len() as u32 / 32 + 1) as usize;
    let k = h * 32 + sym::choice(32) as usize;
    sym::assume(k < TEXT.len());
    let s = &TEXT[..k];
    if let Err(e) = parse(s) {
        sym::reach(4);
        reported(&e, s);
    }
}
/// Empty lines and comments count.
fn p25_front() {
    let v = lines(TEXT);
    let k = any_line(&v);
    let at = match sym::choice(3) {
        0 => 0,
        1 => k,
        _ => k / 2,
    };
    let more = ["", "; comment", "   ", "\t;", "  ;\u{e9}", "\r"];
    let n = 1 + sym::choice(if sym::thorough() { 3 } else { 2 }) as usize;
    let l = format!("{}bad", &v[k][..indent(v[k])]);
    let mut w = v.clone();
    w[k] = &l;
    for _ in 0..n {
        w.insert(at, more[sym::choice(more.len() as u32) as usize])
    }
    let s = w.join("\n");
    match parse(&s) {
        Ok(_) => sym::fail("a malformed text is accepted"),
        Err(e) => {
            sym::reach(5);
            let h = head(&v, k);
            // the empty lines in front may count as a part of it
            blames(&s, k + n, if h < at { h } else if at == k { h } else { h + n }, &e)
        }
    }
}
/// Module by module: those before are fine.
fn p25_modules() {
    let v = lines(TEXT);
    let k = any_line(&v);
    let l = format!("{}{}", &v[k][..indent(v[k])], garbage());
    let s = with_line(&v, k, &l);
    let mods = v[..k].iter().filter(|l| indent(l) == 2).count();
    let first = if indent(v[k]) == 2 { mods } else { mods.max(1) - 1 };
    let c = match circuit::consumer(&s) {
        Ok(c) => c,
        Err(e) => {
            sym::check(k == 0, "the head of a circuit is not accepted");
            return blames(&s, k, head(&v, k), &e);
        }
    };
    sym::check(k > 0, "a malformed head is accepted");
    let names = ["E", "N", "M", "Q"];
    let mut n = 0;
    for m in c {
        match m {
            Ok(m) => {
                sym::check(n < 4 && m.name().as_ref() == names[n], "another module");
                n += 1
            }
            Err(e) => {
                sym::reach(6);
                // a line at the end of a module may as well be a module
                sym::check(n == first || n == first + 1, "another module is malformed");
                return blames(&s, k, head(&v, k), &e);
            }
        }
    }
    sym::fail("a malformed text is accepted")
}
/// Lines are relative to the text that was given.
fn p25_relative() {
    let v = lines(TEXT);
    let k = 1 + sym::choice(v.len() as u32 - 2) as usize;
    let l = format!("{}bad", &v[k][..indent(v[k])]);
    let s = with_line(&v, k, &l);
    let skip = v[0].len() + 1;
    let whole = sym::flag();
    let (text, off) = if whole { (&s[..], 0) } else { (&s[skip..], 1) };
    let ms = if whole { Modules::new_with_origin(&s[skip..], &s) } else { Modules::new(&s[skip..]) };
    for m in ms {
        if let Err(e) = m {
            sym::reach(7);
            return blames(text, k - off, head(&v, k) - off, &e);
        }
    }
    sym::fail("a malformed text is accepted")
}

/// Errors from outside keep what they are.
fn p25_io() {
    use std::error::Error;
    use std::io;
    let kinds = [
        io::ErrorKind::NotFound, io::ErrorKind::PermissionDenied, io::ErrorKind::ConnectionReset, io::ErrorKind::InvalidData,
        io::ErrorKind::UnexpectedEof, io::ErrorKind::Other, io::ErrorKind::TimedOut, io::ErrorKind::WouldBlock,
    ];
    let k = kinds[sym::choice(8) as usize];
    let n = sym::choice(3) as usize;
    let t = sym::text(n, sym::ASCII);
    match sym::choice(3) {
        0 => {
            let e = ParseError::from(k);
            sym::check(matches!(&e, ParseError::IO(x) if x.kind() == k), "an error is of another kind");
            sym::check(e.source().is_some() && e.to_string().len() > 0, "an error without a source");
        }
        1 => {
            let own = sym::flag();
            let e = ParseError::from(if own { io::Error::new(k, t.clone()) } else { io::Error::from(k) });
            sym::check(matches!(&e, ParseError::IO(x) if x.kind() == k), "an error is of another kind");
            let s = e.source().and_then(|s| s.downcast_ref::<io::Error>());
            sym::check(s.map_or(false, |s| s.kind() == k), "an error has another source");
            let x = e.source().map(|s| s.to_string()).unwrap_or_default();
            sym::check(!own || x.as_bytes() == t.as_bytes(), "an error has another text");
            sym::check(e.to_string().len() > 0, "an error without text")
        }
        _ => {
            let e = ParseError::from(t.clone());
            sym::check(matches!(&e, ParseError::Other(x) if x.as_bytes() == t.as_bytes()), "an error has another text");
            sym::check(e.source().is_none() && e.to_string().as_bytes() == t.as_bytes(), "an error has another text")
        }
    }
    sym::reach(8)
}

// --- large ---
/// A malformed line far behind, or a long one.
fn p25_long() {
    let n = size();
    let mut v: Vec<String> = vec!["circuit M:".into()];
    match sym::choice(3) {
        0 => v.extend((0..n).flat_map(|i| vec![format!("  module n{}:", i), "    input p: UInt".into(), "    skip".into()])),
        1 => {
            v.push("  module M:".into());
            v.extend((0..n).map(|i| format!("    wire w{}: UInt", i)))
        }
        _ => {
            v.push("  module M:".into());
            v.push("    input p: UInt".into());
            v.extend((0..n).map(|i| if i % 2 == 0 { "    when p:".into() } else { "      skip ; x".into() }));
            v.push("      skip".into())
        }
    }
    let k = 1 + spot(v.len() - 1);
    let d = indent(&v[k]);
    let t = if sym::flag() { "bad".into() } else { long_text(n, "a? \u{1}") };
    v[k] = format!("{}{}", " ".repeat(d), t);
    v.push(String::new());
    let s = v.join("\n");
    match parse(&s) {
        Ok(_) => sym::fail("a malformed text is accepted"),
        Err(e) => {
            sym::reach(1);
            let w: Vec<&str> = v.iter().map(|s| s.as_str()).collect();
            blames(&s, k, head(&w, k), &e)
        }
    }
}
