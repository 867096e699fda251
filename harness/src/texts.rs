//! Texts near those that are circuits, and far from them.
use super::sym;

/// Uses every construct.
pub const TEXT: &str = r#"circuit M: @[i]
  extmodule E:
    input p: UInt<1>
    defname = d
    parameter x = 1
    parameter y = 1.5
    parameter z = "s"
  module N: @[n]
    output q: { a: UInt<1>, flip b: SInt<2>[3]} @[p]
    q.a <= q.b[1]
  module M:
    input c: Clock
    output o: Fixed<3><<1>>
    wire w: Analog<4>
    reg x: UInt<8>, c with: (reset => (w, UInt<8>(3)))
    node n = add(w, SInt<5>(-7))
    mem m: @[m]
      data-type => UInt<3>
      depth => 4
      reader => r
      read-latency => 1
      write-latency => 2
      read-under-write => old
    smem s: UInt<1>[4], new
    infer mport p = s[n], c
    inst i of N
    i.q <= w.x[3][n]
    x <- mux(w, validif(n, w), bits(x, 3, 1))
    when n: @[w]
      w is invalid
    else when x:
      attach(w, w)
    else:
      wire v: AsyncReset
      v <= tail(w, 1)
    stop(c, n, 1) : name
    printf(c, n, "a%d", x) @[f]
  module Q:
    inst e of E
    skip
"#;
fn at() -> usize {
    let h = sym::choice(TEXT.len() as u32 / 32 + 1) as usize;
    let k = h * 32 + sym::choice(32) as usize;
    sym::assume(k < TEXT.len());
    k
}
/// Cut off anywhere, with something behind.
pub fn cut() -> String {
    let k = at();
    let n = sym::choice(if sym::thorough() { 3 } else { 2 }) as usize;
    format!("{}{}", &TEXT[..k], sym::text(n, sym::ASCII))
}
pub fn insert() -> String {
    let k = at();
    let n = if sym::thorough() { 2 } else { 1 };
    format!("{}{}{}", &TEXT[..k], sym::text(n, sym::ASCII), &TEXT[k..])
}
pub fn replace() -> String {
    let k = at();
    let n = if sym::thorough() { 2 } else { 1 };
    let e = (k + n).min(TEXT.len());
    format!("{}{}{}", &TEXT[..k], sym::text(n, sym::ASCII), &TEXT[e..])
}
pub fn delete() -> String {
    let k = at();
    let n = [1, 2, 3, 4, 5, 6, 8, 11, 13, 20][sym::choice(if sym::thorough() { 10 } else { 6 }) as usize];
    let e = (k + n).min(TEXT.len());
    format!("{}{}", &TEXT[..k], &TEXT[e..])
}
fn all() -> Vec<&'static str> {
    TEXT.lines().collect()
}
fn nth() -> usize {
    let n = all().len() as u32;
    sym::choice(n) as usize
}
fn join(l: &[&str]) -> String {
    let mut s = String::new();
    for l in l {
        s.push_str(l);
        s.push('\n')
    }
    s
}
/// A line of any kind anywhere, indented as the line before, less or more.
pub fn line() -> String {
    let mut l = all();
    let k = nth();
    let v = [
        "skip", "x", "wire u: UInt<1>", "w <= x", "when x:", "else:", "else when x:", "module Z:", "extmodule Z:", "input z: UInt<1>", "output z: UInt<1>",
        "depth => 4", "reader => z", "read-latency => 0", "data-type => UInt<2>", "mem z:", "parameter k = 3", "parameter x = 3", "defname = z", "circuit M:",
        "stop(c, n, 1)", ";", "@[i]", "node y = w w", "w <= x x", "w is invalid invalid", "inst z of N, x", "skip skip", "printf(c, n, \"\", n)", "attach()",
    ];
    let v = v[sym::choice(v.len() as u32) as usize];
    let d = l[k].len() - l[k].trim_start().len();
    let d = match sym::choice(if sym::thorough() { 7 } else { 4 }) {
        0 => d,
        1 => d + 2,
        2 => d.saturating_sub(2),
        3 => d + 1,
        4 => d.saturating_sub(1),
        5 => d.saturating_sub(4),
        _ => 0,
    };
    let mut s = " ".repeat(d);
    s.push_str(v);
    l.insert(k + 1, &s);
    join(&l)
}
/// Some lines missing.
pub fn unlines() -> String {
    let mut l = all();
    let k = nth();
    for _ in 0..1 + sym::choice(if sym::thorough() { 6 } else { 3 }) {
        if k < l.len() {
            l.remove(k);
        }
    }
    join(&l)
}
/// Two lines exchanged, or one repeated elsewhere.
pub fn swap() -> String {
    let mut l = all();
    let (a, b) = (nth(), nth());
    match sym::choice(if sym::thorough() { 3 } else { 2 }) {
        0 => {
            sym::assume(a < b);
            l.swap(a, b)
        }
        1 => l.insert(b, l[a]),
        _ => l[b] = l[a],
    }
    join(&l)
}
/// Splits into words and single characters.
fn split(s: &str) -> Vec<&str> {
    let b = s.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        let a = i;
        let w = |c: u8| c.is_ascii_alphanumeric();
        i += 1;
        while w(b[a]) && i < b.len() && w(b[i]) {
            i += 1
        }
        v.push(&s[a..i])
    }
    v
}
/// A token dropped, doubled or exchanged for another of the line.
pub fn tokens() -> String {
    let mut l = all();
    let k = nth();
    let d = l[k].len() - l[k].trim_start().len();
    let mut t = split(&l[k][d..]);
    let a = sym::choice(t.len() as u32) as usize;
    match sym::choice(3) {
        0 => {
            t.remove(a);
        }
        1 => t.insert(a, t[a]),
        _ => {
            let b = sym::choice(t.len() as u32) as usize;
            sym::assume(a < b);
            t.swap(a, b)
        }
    }
    let s = format!("{}{}", &l[k][..d], t.concat());
    l[k] = &s;
    join(&l)
}

fn words(n: u32, v: &[&str]) -> String {
    let sep = if sym::flag() { " " } else { "" };
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            s.push_str(sep)
        }
        s.push_str(v[sym::choice(v.len() as u32) as usize])
    }
    s
}
fn len() -> u32 {
    1 + sym::choice(if sym::thorough() { 4 } else { 3 })
}
fn len_less() -> u32 {
    1 + sym::choice(if sym::thorough() { 3 } else { 2 })
}
fn pick<'a>(v: &[&'a str]) -> &'a str {
    v[sym::choice(v.len() as u32) as usize]
}
/// Anything between, before and behind the operands.
pub fn expr() -> String {
    let v = ["a", "(", ")", ",", "[", "]", ".", "1", "-", "UInt", "<", ">", "\"h1\"", "mux", "add", "not"];
    let (x, y) = [("", ""), ("add(a, ", ")"), ("mux(a, a", ")"), ("a[", "]"), ("bits(a, ", ", 2)"), ("UInt<3>(", ")"), ("validif(a, a)", "")][sym::choice(7) as usize];
    format!("circuit M:\n  module M:\n    input a: UInt<1>\n    node n = {}{}{}\n    skip\n", x, words(len(), &v), y)
}
pub fn types() -> String {
    let v = ["UInt", "Clock", "<", ">", "<<", ">>", "1", "-1", "[", "]", "{", "}", "flip", "a", ":", ","];
    let (x, y) = [("", ""), ("{ b: UInt", "}"), ("Fixed<1>", ""), ("{ b: ", "}"), ("UInt<1>[2]", "")][sym::choice(5) as usize];
    format!("circuit M:\n  module M:\n    wire w: {}{}{}\n    skip\n", x, words(len(), &v), y)
}
pub fn stmt() -> String {
    let v = ["a", "<=", "<-", "is", "invalid", "skip", ":", "=", "(", ")", ",", "1", "\"%d\"", "@[", "]", ";", "of", "UInt", "with"];
    let (x, y) = [
        ("", ""), ("a ", ""), ("a <= a ", ""), ("wire b: UInt ", ""), ("node b ", "= a"), ("smem s: UInt ", ""), ("stop(a, a, 1) ", ""), ("printf(a, a, \"%d\" ", ")"),
        ("attach(a ", ")"), ("reg r: UInt, a ", ""), ("when a: ", ""), ("inst i ", ""),
    ][sym::choice(12) as usize];
    format!("circuit M:\n  module M:\n    input a: UInt<1>\n    {}{}{}\n    skip\n", x, words(len_less(), &v), y)
}
/// Whole lines in any order at any depth.
pub fn lines() -> String {
    let v = ["when a:", "else:", "else when a:", "skip", "wire w: UInt<1>", "mem m:", "data-type => UInt<1>", "depth => 0", "module N:", "input b: UInt<1>"];
    let mut s = String::from("circuit M:\n  module M:\n    input a: UInt<1>\n");
    for _ in 0..1 + sym::choice(if sym::thorough() { 4 } else { 3 }) {
        let d = 2 + sym::choice(2);
        for _ in 0..d {
            s.push_str("  ")
        }
        s.push_str(pick(&v));
        s.push('\n')
    }
    s
}
pub fn module() -> String {
    let h = ["", "module M:\n    ", "extmodule M:\n    ", "module M:\n    input ", "extmodule M:\n    parameter ", "extmodule M:\n    output a: UInt\n    ", "extmodule M:\n    parameter x = 1"];
    let v = ["module", "M", ":", "\n    ", "\n  ", "input", "a", ": UInt<1>", "defname", "parameter", "=", "1", "-1", "1.5", "E2", "\"", "'", "@["];
    format!("circuit M:\n  {}{}\n", pick(&h), words(len_less(), &v))
}
pub fn mem() -> String {
    let v = ["data-type", "depth", "reader", "writer", "readwriter", "read-latency", "write-latency", "read-under-write"];
    let x = ["4", "old", "r", "UInt<4>", "r r", "4 4", ""];
    let mut s = String::from("circuit M:\n  module M:\n    mem m:\n");
    let full = sym::flag();
    if full {
        s.push_str("      data-type => UInt<3>\n      depth => 4\n")
    }
    for _ in 0..1 + sym::choice(if sym::thorough() { 3 } else { 2 }) {
        s.push_str("      ");
        s.push_str(pick(&v));
        s.push_str(" => ");
        s.push_str(pick(&x));
        s.push('\n')
    }
    s.push_str("    skip\n");
    s
}
pub fn reg() -> String {
    let t = split("reg x: UInt<8>, a with: (reset => (a, b))");
    let mut s = String::new();
    let (a, b) = (sym::choice(t.len() as u32), sym::choice(t.len() as u32));
    let v = ["", " ", "a", ",", "(", ")", "1"];
    let r = pick(&v);
    sym::assume(a <= b);
    for (i, t) in t.iter().enumerate() {
        if (i as u32) < a || i as u32 > b {
            s.push_str(t)
        } else if i as u32 == a {
            s.push_str(r)
        }
    }
    format!("circuit M:\n  module M:\n    input a: UInt<1>\n    input b: UInt<1>\n    {}\n    skip\n", s)
}
pub fn port() -> String {
    let t = split("infer mport p = s[a], b");
    let mut s = String::new();
    let (a, b) = (sym::choice(t.len() as u32), sym::choice(t.len() as u32));
    let v = ["", " ", "a", ",", "[", "]", "read"];
    let r = pick(&v);
    sym::assume(a <= b);
    for (i, t) in t.iter().enumerate() {
        if (i as u32) < a || i as u32 > b {
            s.push_str(t)
        } else if i as u32 == a {
            s.push_str(r)
        }
    }
    format!("circuit M:\n  module M:\n    input a: UInt<1>\n    input b: UInt<1>\n    cmem s: UInt<1>[2]\n    {}\n    skip\n", s)
}
/// Every place of a name.
pub const PLACES: [&str; 18] = [
    "circuit #:\n  module M:\n    skip\n",
    "circuit M:\n  module #:\n    skip\n",
    "circuit M:\n  extmodule #:\n    input a: UInt\n",
    "circuit M:\n  module M:\n    input #: UInt\n",
    "circuit M:\n  module M:\n    output #: UInt\n",
    "circuit M:\n  module M:\n    wire #: UInt\n",
    "circuit M:\n  module M:\n    input a: UInt\n    reg #: UInt, a\n",
    "circuit M:\n  module M:\n    input a: UInt\n    node # = a\n",
    "circuit M:\n  module M:\n    mem #:\n      data-type => UInt\n      depth => 1\n",
    "circuit M:\n  module M:\n    mem m:\n      data-type => UInt\n      depth => 1\n      reader => #\n",
    "circuit M:\n  module M:\n    cmem #: UInt\n",
    "circuit M:\n  module M:\n    input a: UInt\n    cmem s: UInt[2]\n    read mport # = s[a], a\n",
    "circuit M:\n  module N:\n    skip\n  module M:\n    inst # of N\n",
    "circuit M:\n  module M:\n    input a: UInt\n    stop(a, a, 1) : #\n",
    "circuit M:\n  extmodule M:\n    defname = #\n",
    "circuit M:\n  extmodule M:\n    parameter # = 1\n",
    "circuit M:\n  module M:\n    input a: { #: UInt}\n",
    "circuit M:\n  module M:\n    input a: UInt\n    node n = a.#\n",
];
/// No name where one belongs.
/// With the length of the name and the place.
pub fn names() -> (String, usize, usize) {
    let k = sym::choice(PLACES.len() as u32) as usize;
    // anything that could be taken for a name
    let n = sym::choice(if sym::thorough() { 3 } else { 2 }) as usize;
    let name = sym::text(n, sym::ASCII);
    (PLACES[k].replace("#", &name), n, k)
}
/// The same thing stated twice.
pub fn dup() -> String {
    let v = ["data-type => UInt<2>", "depth => 2", "read-latency => 2", "write-latency => 2", "read-under-write => new"];
    let p = ["parameter x = 1", "parameter x = 1.5", "parameter x = \"s\"", "parameter y = 1"];
    let s = if sym::flag() {
        let mut s = String::from("circuit M:\n  module M:\n    mem m:\n      data-type => UInt<3>\n      depth => 3\n      read-latency => 3\n");
        s.push_str("      write-latency => 3\n      read-under-write => old\n      ");
        s.push_str(pick(&v));
        s.push('\n');
        s
    } else {
        format!("circuit M:\n  extmodule M:\n    {}\n    {}\n", pick(&p), pick(&p))
    };
    s
}
/// The info of an `else`.
pub fn elses() -> String {
    let i = pick(&["@[i]", "@[]"]);
    format!("circuit M:\n  module M:\n    input a: UInt<1>\n    when a:\n      skip\n    else: {}\n      skip\n", i)
}

/// Any operation with any arguments.
pub fn calls() -> String {
    let ops = [
        "add", "sub", "mul", "div", "rem", "lt", "leq", "gt", "geq", "eq", "neq", "pad", "asUInt", "asSInt", "asFixed", "asClock", "asAsyncReset", "shl", "shr",
        "dshl", "dshr", "cvt", "neg", "not", "and", "or", "xor", "andr", "orr", "xorr", "cat", "bits", "head", "tail", "incp", "decp", "setp", "mux", "validif",
        "asFixedPoint", "asReset", "asAnalog", "asInterval", "UInt", "addw",
    ];
    let o = pick(&ops);
    let v = ["a", "1", "-1", "UInt<1>(1)", "a.b[0]"];
    let n = sym::choice(if sym::thorough() { 6 } else { 5 });
    let args: Vec<&str> = (0..n).map(|i| v[sym::choice(if i < 2 { 5 } else { 3 }) as usize]).collect();
    format!("circuit M:\n  module M:\n    input a: UInt<1>\n    node n = {}({})\n    skip\n", o, args.join(", "))
}
/// Any statement in parentheses with any arguments.
pub fn stops() -> String {
    let o = pick(&["stop", "printf", "attach", "skip", "assert"]);
    let v = ["a", "1", "-1", "\"x\"", "\"%d%b\"", "\"\""];
    let n = sym::choice(if sym::thorough() { 7 } else { 6 });
    let args: Vec<&str> = (0..n).map(|i| v[sym::choice(if i < 2 { 3 } else if i == 2 { 6 } else { 2 }) as usize]).collect();
    let x = pick(&["", " : b", " : 1", " b"]);
    format!("circuit M:\n  module M:\n    input a: UInt<1>\n    {}({}){}\n    skip\n", o, args.join(", "), x)
}
/// Something more behind a token of a line, or some tokens of it repeated.
pub fn extra() -> String {
    let mut l = all();
    let k = nth();
    let d = l[k].len() - l[k].trim_start().len();
    let t = split(&l[k][d..]);
    let a = sym::choice(t.len() as u32) as usize;
    sym::assume(t[a] != " ");
    let v = [
        "@[b]", ": z", ",", "x", "7", "UInt<1>", "@[a] @[b]", "with: (reset => (n, n))", "[0]", ".a", "(x)", ", x", "=> 1", "<= x", "is invalid", "= x", "\"s\"", "flip", "skip",
        ":", "else:", "@[b] : z", ": z @[b]", ": z : y", ", old", "of N", "-1", "< x", "<<2>>", "<2>", "{}", "[x]", "[1][2]",
    ];
    let most = v.len() as u32 + if sym::thorough() { 8 } else { 5 };
    let c = sym::choice(most) as usize;
    let more = if c < v.len() { v[c].to_string() } else { t[a..(a + c - v.len() + 2).min(t.len())].concat() };
    let s = format!("{}{} {}{}", &l[k][..d], t[..=a].concat(), more, t[a + 1..].concat());
    // the same again, directly
    let s = if c < v.len() { s } else { format!("{}{}{}", &l[k][..d], t[..a].concat(), [more.as_str(), " ", &t[a..].concat()].concat()) };
    l[k] = &s;
    join(&l)
}
