//! Layout carries no meaning beyond line structure and indentation.
use super::{sym, text, util::*};

super::entries! { p11_base, p11_gap, p11_tight, p11_wide, p11_end, p11_ends, p11_empty, p11_head, p11_tail, p11_indent, p11_mix, p11_one, p11_blocks, p11_entries, p11_tab, p11_long, p11_many }

/// `~`: space may be added; `^`: space may be left out; ` ` between tokens:
/// space is needed.
const TEXT: &str = r#"circuit M~:^@[i]~
  extmodule E~:^@[e]~
    input p~:^UInt~<~1~>^@[p]~
    defname^=^d~
    parameter x^=^1~
    parameter y^=^1.5~
    parameter z^=^"s t"~
  module N~:~
    output q~:^{^a~:^UInt~<~1~>~,^flip b~:^SInt~<~2~>~[~3~]~[~4~]^}~
    q~.~a^<=^q~.~b~[~1~]~[~q~]~
  module M~:~
    input c~:^Clock~
    output o~:^Fixed~<~3~>~<<~1~>>~
    wire w~:^Analog~<~4~>^@[a]~
    reg x~:^UInt~<~8~>~,^c with~:^(~reset^=>^(~w~,^UInt~<~8~>~(~3~)~)~)^@[r]~
    reg y~:^AsyncReset~,^c~
    node n^=^add~(~w~,^SInt~<~5~>~(~"h-f"~)~)~
    mem m~:^@[m]~
      data-type^=>^UInt~<~3~>~
      depth^=>^16~
      reader^=>^r~
      writer^=>^v~
      readwriter^=>^u~
      read-latency^=>^1~
      write-latency^=>^2~
      read-under-write^=>^old~
    smem s~:^UInt~<~1~>~[~4~]~,^new~
    infer mport k^=^s~[~n~]~,^c~
    inst i of N~
    inst e of E~
    i~.~q^<-^w~.~x~[~3~]~[~n~]~
    x^<=^mux~(~w~,^validif~(~n~,^w~)~,^bits~(~x~,^3~,^1~)~)~
    when n~:^@[w]~
      w is invalid^@[v]~
    else when x~:~
      attach~(~w~,^w~)^@[t]~
    else~:~
      skip^@[s]~
    stop~(~c~,^n~,^1~)^:^name^@[o]~
    printf~(~c~,^n~,^"a %d"~,^x~)^:^o^@[f]~
"#;
/// The usual layout.
fn usual(l: &str) -> String {
    l.replace("~", "").replace("^", " ")
}
fn base() -> Circuit {
    parse(&usual(TEXT)).unwrap()
}
fn expect(s: &str) {
    sym::log(s);
    match parse(s) {
        Ok(c) => {
            sym::check(c == base(), "the layout changes the meaning");
            sym::reach(1)
        }
        Err(_) => sym::fail("the layout makes a text malformed"),
    }
}
fn blank(n: usize) -> String {
    sym::text(n, " \t")
}
/// The lines, each with its indentation cut off.
fn lines() -> Vec<(usize, &'static str)> {
    TEXT.lines().map(|l| (l.len() - l.trim_start().len(), l.trim_start())).collect()
}
fn line(n: usize) -> usize {
    let h = sym::choice(n as u32 / 16 + 1) as usize;
    let k = h * 16 + sym::choice(16) as usize;
    sym::assume(k < n);
    k
}
/// All lines, line k replaced.
fn with(k: usize, by: &str) -> String {
    let mut s = String::new();
    for (i, l) in TEXT.lines().enumerate() {
        if i == k {
            s.push_str(by)
        } else {
            s.push_str(&usual(l));
            s.push('\n')
        }
    }
    s
}
fn p11_base() {
    let c = base();
    sym::check(c.top_module().referenced_modules().count() == 2, "modules are missing");
    let again = parse(&c.to_string()).unwrap();
    sym::check(c == again, "not stable");
    sym::reach(2)
}
/// More space at any one place.
fn p11_gap() {
    let l = lines();
    let k = line(l.len());
    let (d, t) = l[k];
    let gaps: Vec<usize> = t.char_indices().filter(|(_, c)| "~^ ".contains(*c)).map(|(i, _)| i).collect();
    let g = gaps[sym::choice(gaps.len() as u32) as usize];
    let fill = blank(1 + sym::choice(if sym::thorough() { 3 } else { 2 }) as usize);
    let mut s = " ".repeat(d);
    s.push_str(&usual(&t[..g]));
    s.push_str(&fill);
    if &t[g..g + 1] == " " && sym::flag() {
        s.push_str(&fill)
    }
    s.push_str(&usual(&t[g + 1..]));
    s.push('\n');
    if t[..g].matches('"').count() % 2 == 1 {
        // within a string
        return;
    }
    expect(&with(k, &s))
}
/// No space at all where none is needed.
fn p11_tight() {
    let l = lines();
    if sym::flag() {
        let k = line(l.len());
        let mut s = " ".repeat(l[k].0);
        s.push_str(&l[k].1.replace("~", "").replace("^", ""));
        s.push('\n');
        return expect(&with(k, &s));
    }
    expect(&TEXT.replace("~", "").replace("^", ""))
}
/// Space everywhere.
fn p11_wide() {
    let n = 1 + sym::choice(2) as usize;
    let (a, b) = (blank(n), blank(1));
    expect(&TEXT.replace("^", &a).replace("~", &b))
}
/// A comment of n free characters (no line ends).
fn comment(n: usize) -> String {
    let mut c = sym::ASCII.to_string();
    c.retain(|c| c != '\n' && c != '\r');
    format!(";{}", sym::text(n, &c))
}
/// What may stand between the last token of a line and the first of the next.
fn ending(most: u32) -> String {
    let mut s = String::new();
    for _ in 0..1 + sym::choice(most) {
        s.push_str(&blank(sym::choice(2) as usize));
        if sym::flag() {
            s.push_str(&comment(sym::choice(3) as usize))
        }
        s.push_str(if sym::flag() { "\n" } else { "\r\n" })
    }
    s
}
/// One line ends otherwise.
fn p11_end() {
    let l = lines();
    let k = line(l.len());
    let mut s = " ".repeat(l[k].0);
    s.push_str(&usual(l[k].1));
    s.push_str(&ending(if sym::thorough() { 2 } else { 1 }));
    expect(&with(k, &s))
}
/// All lines end so.
fn p11_ends() {
    let e = ending(if sym::thorough() { 3 } else { 2 });
    expect(&usual(TEXT).replace("\n", &e))
}
/// Several blank lines, spaces or comments, anywhere.
fn p11_empty() {
    let l = lines();
    let k = line(l.len());
    let mut s = " ".repeat(l[k].0);
    s.push_str(&usual(l[k].1));
    s.push('\n');
    let (m, n) = if sym::thorough() { (3, 4) } else { (2, 2) };
    for _ in 0..1 + sym::choice(m) {
        s.push_str(&sym::text(sym::choice(n) as usize * if sym::thorough() { 1 } else { 3 }, " \t"));
        if sym::flag() {
            s.push_str("; when a:")
        }
        s.push('\n')
    }
    expect(&with(k, &s))
}
/// Before the first line.
fn p11_head() {
    let mut s = ending(if sym::thorough() { 3 } else { 2 });
    s.push_str(&usual(TEXT));
    expect(&s)
}
/// After the last line, not ended.
fn p11_tail() {
    let mut s = usual(TEXT);
    s.push_str(&blank(sym::choice(3) as usize));
    if sym::flag() {
        s.push_str(&comment(sym::choice(3) as usize))
    }
    expect(&s)
}

/// Prints the nodes with every block indented by a width of its own.
fn indent(v: &[(usize, &str)], d: usize, at: usize, out: &mut String, i: &mut usize, width: &mut dyn FnMut() -> usize) {
    while *i < v.len() && v[*i].0 == d {
        out.push_str(&" ".repeat(at));
        out.push_str(&usual(v[*i].1));
        out.push('\n');
        *i += 1;
        if *i < v.len() && v[*i].0 > d {
            let w = width();
            let n = v[*i].0;
            indent(v, n, at + w, out, i, width)
        }
    }
}
/// Every block has its own width of indentation.
fn p11_indent() {
    let l = lines();
    let (k, n) = (sym::choice(16) as usize, 1 + sym::choice(if sym::thorough() { 16 } else { 8 }) as usize);
    let rest = 1 + sym::choice(3) as usize;
    let mut c = 0;
    let mut s = String::new();
    let mut f = || {
        c += 1;
        if c == k + 1 {
            n
        } else {
            rest
        }
    };
    indent(&l, 0, 0, &mut s, &mut 0, &mut f);
    expect(&s)
}
/// Several blocks with free widths.
fn p11_mix() {
    let v = [
        (0, "circuit M:"), (2, "module N:"), (4, "input p: UInt"), (4, "when p:"), (6, "skip"), (4, "mem m:"), (6, "data-type => UInt"), (6, "depth => 1"),
        (2, "module M:"), (4, "input c: UInt"), (4, "when c:"), (6, "when c:"), (8, "skip"), (6, "else:"), (8, "skip"), (4, "else:"), (6, "inst i of N"), (4, "skip"),
    ];
    let mut s = String::new();
    let m = if sym::thorough() { 3 } else { 2 };
    let mut c = 0;
    let mut f = || {
        c += 1;
        if c <= 8 {
            1 + sym::choice(m) as usize * 3
        } else {
            2
        }
    };
    indent(&v, 0, 0, &mut s, &mut 0, &mut f);
    let mut t = String::new();
    indent(&v, 0, 0, &mut t, &mut 0, &mut || 2);
    sym::log(&s);
    let a = match parse(&s) {
        Ok(a) => a,
        Err(_) => sym::fail("the indentation makes a text malformed"),
    };
    sym::check(a == parse(&t).unwrap(), "the width of the indentation changes the meaning");
    sym::reach(3)
}

/// May the lines be blocks like this?
fn legal(v: &[text::Node]) -> bool {
    v.iter().all(|n| {
        let when = n.toks[0] == text::word("when");
        (when || n.body.len() == 0) && legal(&n.body) && legal(&n.els)
    })
}
/// Accepted exactly if every line belongs to a block, and then to that block.
fn structure(s: &str) {
    sym::log(s);
    let t = text::read(s);
    let ok = match &t {
        // one circuit with one module
        Some(t) => t.len() == 1 && t[0].body.len() == 1 && legal(&t[0].body[0].body),
        None => false,
    };
    match parse(s) {
        Ok(c) => {
            sym::check(ok, "a line that belongs to no block is accepted");
            sym::check(text::read(&c.to_string()) == t, "a line belongs to another block");
            sym::reach(4)
        }
        Err(_) => {
            sym::check(!ok, "a line that belongs to a block is not accepted");
            sym::reach(5)
        }
    }
}
/// Any one line with any indentation.
fn p11_one() {
    let v = [
        (4, "when c:"), (6, "skip"), (6, "when c:"), (8, "skip"), (6, "else when c:"), (8, "c is invalid"), (6, "else:"), (8, "wire v: UInt"), (6, "skip"), (4, "else:"),
        (6, "when c:"), (8, "skip"), (6, "skip"), (4, "wire x: UInt"), (4, "skip"),
    ];
    let k = sym::choice(v.len() as u32) as usize;
    let d = sym::choice(if sym::thorough() { 16 } else { 12 }) as usize;
    let (e, f) = if sym::thorough() { (sym::choice(v.len() as u32) as usize, sym::choice(12) as usize) } else { (v.len(), 0) };
    let mut s = String::from("circuit M:\n  module M:\n    input c: UInt<1>\n");
    for (i, (n, l)) in v.iter().enumerate() {
        s.push_str(&" ".repeat(if i == k { d } else if i == e { f } else { *n }));
        s.push_str(l);
        s.push('\n')
    }
    // a line next to the module is no module
    structure(&s)
}
/// Lines of any kind with any indentation.
fn p11_blocks() {
    let v = ["when c:", "else:", "else when c:", "skip"];
    let n = 1 + sym::choice(if sym::thorough() { 5 } else { 4 });
    let w = if n < 4 { 5 } else { 3 };
    let mut s = String::from("circuit M:\n  module M:\n    input c: UInt<1>\n");
    for _ in 0..n {
        s.push_str(&" ".repeat(3 + sym::choice(w) as usize));
        s.push_str(v[sym::choice(4) as usize]);
        s.push('\n')
    }
    structure(&s)
}
/// The entries of a memory and the lines behind.
fn p11_entries() {
    let v = ["data-type => UInt", "depth => 4", "reader => r", "read-latency => 1", "skip"];
    let n = v.len();
    let mut at = vec![];
    let mut s = String::from("circuit M:\n  module M:\n    input c: UInt<1>\n    mem m:\n");
    for l in v.iter() {
        let d = 4 + sym::choice(if sym::thorough() { 5 } else { 4 }) as usize;
        s.push_str(&" ".repeat(d));
        s.push_str(l);
        s.push('\n');
        at.push(d)
    }
    sym::log(&s);
    let ok = at[0] > 4 && at[1..n - 1].iter().all(|d| *d == at[0]) && at[n - 1] == 4;
    match parse(&s) {
        Ok(_) => {
            sym::check(ok, "a line that belongs to no block is accepted");
            sym::reach(4)
        }
        Err(_) => {
            sym::check(!ok, "a line that belongs to a block is not accepted");
            sym::reach(5)
        }
    }
}
/// A tab, or anything else, does not indent.
fn p11_tab() {
    let l = lines();
    let k = line(l.len());
    let c = sym::text(1, "\t\x0b\x0c\r,_;");
    let at = sym::choice(l[k].0 as u32 + 1) as usize;
    let mut s = " ".repeat(at);
    s.push_str(&c);
    s.push_str(&" ".repeat(l[k].0 - at));
    s.push_str(&usual(l[k].1));
    s.push('\n');
    let s = with(k, &s);
    sym::log(&s);
    if c == ";" {
        return;
    }
    match parse(&s) {
        Ok(_) => sym::fail("something else than spaces indents"),
        Err(_) => sym::reach(5),
    }
}

// --- large ---
/// Long comments, wide gaps, deep indentation.
fn p11_long() {
    let l = lines();
    let n = size();
    match sym::choice(4) {
        0 => {
            // a line that is indented far is one block
            let mut c = 0;
            let mut s = String::new();
            let k = [0, 1, 3, 5][sym::choice(4) as usize];
            let mut f = || {
                c += 1;
                if c == k + 1 {
                    n
                } else {
                    2
                }
            };
            indent(&l, 0, 0, &mut s, &mut 0, &mut f);
            expect(&s)
        }
        1 => {
            let k = spot(l.len());
            let c = format!("{} ;{}\n", usual(l[k].1), long_text(n, "a;\t\"@[]: \\x"));
            expect(&with(k, &format!("{}{}", " ".repeat(l[k].0), c)))
        }
        2 => {
            // blank lines and comments in front of a line
            let k = spot(l.len());
            let mut s = String::new();
            let at = spot(n);
            for i in 0..n {
                s.push_str(&match if i == at { sym::choice(5) } else { (i % 3) as u32 } {
                    0 => "\n".into(),
                    1 => format!("{}\n", " ".repeat(i % 7)),
                    2 => format!("{}; {}\n", " ".repeat(i % 9), i),
                    3 => format!("{};\r\n", blank(1)),
                    _ => format!("{}\r\n", blank(2)),
                })
            }
            s.push_str(&" ".repeat(l[k].0));
            s.push_str(&usual(l[k].1));
            s.push('\n');
            expect(&with(k, &s))
        }
        _ => {
            let k = spot(l.len());
            let (d, t) = l[k];
            let g = t.find(|c| "~^ ".contains(c)).unwrap();
            let mut s = " ".repeat(d);
            s.push_str(&usual(&t[..g]));
            let at = spot(n);
            s.push_str(&" ".repeat(at));
            s.push_str(&blank(1));
            s.push_str(&"\t".repeat(n - at - 1));
            s.push_str(&usual(&t[g + 1..]));
            s.push('\n');
            expect(&with(k, &s))
        }
    }
}
/// Many levels; a line at any of them.
fn p11_many() {
    let n = depth();
    let mut s = String::from("circuit M:\n  module M:\n    input c: UInt<1>\n");
    let w = 1 + sym::choice(3) as usize;
    for i in 0..n {
        s.push_str(&format!("{}when c:\n", " ".repeat(4 + i * w)))
    }
    s.push_str(&format!("{}skip\n", " ".repeat(4 + n * w)));
    // somewhere between the levels, too
    let at = match sym::choice(4) {
        0 => 4 + spot(n + 1) * w,
        1 => 4 + spot(n + 1) * w + 1,
        2 => 4 + spot(n) * w + w - 1,
        _ => 3,
    };
    let l = ["else:", "skip", "else when c:", "c is invalid"][sym::choice(4) as usize];
    s.push_str(&format!("{}{}\n", " ".repeat(at), l));
    if l.starts_with("else") {
        s.push_str(&format!("{}skip\n", " ".repeat(at + 1)))
    }
    structure(&s)
}
