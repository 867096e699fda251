//! What a text says: an independent reading of the layout and the tokens of a
//! text, for comparing two texts.

#[derive(Clone, PartialEq, Debug)]
pub enum Tok {
    /// A word or a single other character.
    Word(Vec<u8>),
    Num(i64),
    Double(u64),
    Str(Vec<u8>),
    Info(Vec<u8>),
}
#[derive(Clone, PartialEq, Debug)]
pub struct Node {
    pub toks: Vec<Tok>,
    pub body: Vec<Node>,
    pub els: Vec<Node>,
    /// Tokens of an `else:` besides these two.
    pub els_toks: Vec<Tok>,
    chain: bool,
    /// Is there an `else`, even if empty?
    closed: bool,
}
struct Line {
    indent: usize,
    toks: Vec<Tok>,
}

fn word_char(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'$' || c >= 0x80
}
fn is_word(t: Option<&Tok>, s: &str) -> bool {
    match t {
        Some(Tok::Word(w)) => w[..] == *s.as_bytes(),
        _ => false,
    }
}
pub fn word(s: &str) -> Tok {
    Tok::Word(s.as_bytes().to_vec())
}
fn digits(w: &[u8]) -> Option<i64> {
    if w.len() == 0 || w.len() > 18 {
        return None;
    }
    let mut v = 0i64;
    for &c in w {
        if !(b'0'..=b'9').contains(&c) {
            return None;
        }
        v = v * 10 + (c - b'0') as i64
    }
    Some(v)
}
/// Reads up to `end`, resolving escapes.  None: unterminated.
fn quoted(b: &[u8], mut i: usize, end: u8, keep: bool) -> Option<(Vec<u8>, usize)> {
    let mut v = vec![];
    loop {
        let c = *b.get(i)?;
        i += 1;
        if c == end {
            return Some((v, i));
        }
        if c == b'\\' {
            let c = *b.get(i)?;
            i += 1;
            if keep && c == b'%' {
                // stands for itself, where a bare one would not
                v.push(b'%')
            }
            v.push(match c {
                b'n' => b'\n',
                b't' => b'\t',
                c => c,
            })
        } else if c == b'\n' || c == b'\t' {
            return None;
        } else {
            v.push(c)
        }
    }
}
fn lines(b: &[u8]) -> Option<Vec<Line>> {
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        let start = i;
        while i < b.len() && b[i] == b' ' {
            i += 1
        }
        let mut l = Line { indent: i - start, toks: vec![] };
        // is there space before the token?
        let mut fresh = true;
        while i < b.len() {
            let c = b[i];
            if c == b'\n' {
                i += 1;
                break;
            }
            if c == b'\r' && b.get(i + 1) == Some(&b'\n') {
                i += 2;
                break;
            }
            if c == b' ' || c == b'\t' {
                i += 1;
                fresh = true;
                continue;
            }
            if c == b';' {
                while i < b.len() && b[i] != b'\n' {
                    i += 1
                }
                continue;
            }
            if c == b'@' && b.get(i + 1) == Some(&b'[') {
                let (v, j) = quoted(b, i + 2, b']', false)?;
                l.toks.push(Tok::Info(v));
                i = j;
                continue;
            }
            let param = is_word(l.toks.first(), "parameter") && is_word(l.toks.last(), "=");
            if c == b'"' || (c == b'\'' && param) {
                let print = is_word(l.toks.first(), "printf");
                let (v, j) = quoted(b, i + 1, c, print)?;
                l.toks.push(Tok::Str(v));
                i = j;
                continue;
            }
            let s = i;
            if param {
                while i < b.len() && (b[i].is_ascii_digit() || b[i] == b'.' || b[i] == b'+' || b[i] == b'-' || b[i] == b'E') {
                    i += 1
                }
                if i > s {
                    let t = unsafe { std::str::from_utf8_unchecked(&b[s..i]) };
                    l.toks.push(if t.contains('.') {
                        Tok::Double(t.parse::<f64>().ok()?.to_bits())
                    } else {
                        Tok::Num(t.parse().ok()?)
                    });
                    continue;
                }
            }
            if word_char(c) {
                while i < b.len() && word_char(b[i]) {
                    i += 1
                }
                let w = &b[s..i];
                let sign = match l.toks.last() {
                    Some(Tok::Word(w)) if !fresh && w[..] == *b"-" => -1,
                    Some(Tok::Word(w)) if !fresh && w[..] == *b"+" => 1,
                    _ => 0,
                };
                match digits(w) {
                    Some(v) if !is_word(l.toks.last(), ".") => {
                        if sign != 0 {
                            l.toks.pop();
                        }
                        l.toks.push(Tok::Num(if sign < 0 { -v } else { v }))
                    }
                    _ => l.toks.push(Tok::Word(w.to_vec())),
                }
                fresh = false;
                continue;
            }
            i += 1;
            fresh = false;
            l.toks.push(Tok::Word(vec![c]))
        }
        if l.toks.len() > 0 {
            literals(&mut l.toks);
            if is_word(l.toks.get(1), "mport") {
                mport(&mut l.toks)
            }
            out.push(l)
        }
    }
    Some(out)
}
/// Brings literals into one form, filling in omitted widths.
fn literals(t: &mut Vec<Tok>) {
    // values in other radices
    for i in 2..t.len() {
        let head = is_word(t.get(i - 2), ">") || is_word(t.get(i - 2), "UInt") || is_word(t.get(i - 2), "SInt");
        if !head || !is_word(t.get(i - 1), "(") {
            continue;
        }
        let (neg, radix, ds) = match &t[i] {
            Tok::Str(s) if s.len() >= 2 && s.len() < 12 => {
                let r = match s[0] {
                    b'h' => 16,
                    b'o' => 8,
                    b'b' => 2,
                    _ => continue,
                };
                match s[1] {
                    b'-' => (true, r, s[2..].to_vec()),
                    b'+' => (false, r, s[2..].to_vec()),
                    _ => (false, r, s[1..].to_vec()),
                }
            }
            _ => continue,
        };
        let mut v = 0i64;
        let mut ok = ds.len() > 0;
        for c in ds {
            let d = match c {
                b'0'..=b'9' => c - b'0',
                b'a'..=b'z' => c - b'a' + 10,
                b'A'..=b'Z' => c - b'A' + 10,
                _ => 99,
            };
            ok &= d < radix;
            v = v * radix as i64 + d as i64
        }
        if ok {
            t[i] = Tok::Num(if neg { -v } else { v })
        }
    }
    let mut i = 0;
    while i + 1 < t.len() {
        let signed = is_word(t.get(i), "SInt");
        if (signed || is_word(t.get(i), "UInt")) && is_word(t.get(i + 1), "(") {
            if let Some(Tok::Num(v)) = t.get(i + 2) {
                let v = *v;
                let mut w = if v < 0 { 64 - (-v as u64).leading_zeros() } else { 64 - (v as u64).leading_zeros() };
                if signed {
                    w += 1
                }
                t.insert(i + 1, word("<"));
                t.insert(i + 2, Tok::Num(w as i64));
                t.insert(i + 3, word(">"));
            }
        }
        i += 1
    }
}
/// The comma before the clock may be missing.
fn mport(t: &mut Vec<Tok>) {
    let mut d = 0;
    for i in 0..t.len() {
        if is_word(t.get(i), "[") {
            d += 1
        }
        if is_word(t.get(i), "]") {
            d -= 1;
            if d == 0 {
                if is_word(t.get(i + 1), ",") {
                    t.remove(i + 1);
                }
                return;
            }
        }
    }
}
fn block(l: &[Line], i: &mut usize, parent: Option<usize>) -> Option<Vec<Node>> {
    let mut out: Vec<Node> = vec![];
    let deeper = |k: usize| k < l.len() && parent.map_or(true, |p| l[k].indent > p);
    if !deeper(*i) {
        return Some(out);
    }
    let n = l[*i].indent;
    while *i < l.len() && l[*i].indent == n {
        let toks = l[*i].toks.clone();
        *i += 1;
        let body = block(l, i, Some(n))?;
        let node = Node { toks, body, els: vec![], els_toks: vec![], chain: false, closed: false };
        if is_word(node.toks.first(), "else") {
            otherwise(out.last_mut()?, node)?
        } else {
            out.push(node)
        }
    }
    if deeper(*i) {
        return None;
    }
    for o in out.iter_mut() {
        finish(o)
    }
    Some(out)
}
fn otherwise(to: &mut Node, e: Node) -> Option<()> {
    if to.chain {
        return otherwise(&mut to.els[0], e);
    }
    if !is_word(to.toks.first(), "when") || to.closed {
        return None;
    }
    to.closed = true;
    if is_word(e.toks.get(1), "when") {
        to.chain = true;
        let mut e = e;
        e.toks.remove(0);
        to.els = vec![e]
    } else if is_word(e.toks.get(1), ":") {
        to.els_toks = e.toks[2..].to_vec();
        to.els = e.body
    } else {
        return None;
    }
    Some(())
}
fn key(n: &Node) -> u32 {
    let k = ["data", "depth", "", "read", "write"];
    let w = match n.toks.first() {
        Some(Tok::Word(w)) => w,
        _ => return 9,
    };
    for (i, k) in k.iter().enumerate() {
        if w[..] == *k.as_bytes() {
            // read-latency, read-under-write
            return if is_word(n.toks.get(2), "under") { 5 } else { i as u32 };
        }
    }
    2
}
fn entry(s: &str, v: Tok) -> Node {
    let mut toks = vec![];
    for (i, p) in s.split('-').enumerate() {
        if i > 0 {
            toks.push(word("-"))
        }
        toks.push(word(p))
    }
    toks.push(word("="));
    toks.push(word(">"));
    toks.push(v);
    Node { toks, body: vec![], els: vec![], els_toks: vec![], chain: false, closed: false }
}
/// Brings what may be written in several ways into one form.
fn finish(n: &mut Node) {
    n.chain = false;
    n.closed = false;
    for e in n.els.iter_mut() {
        finish(e)
    }
    if is_word(n.toks.first(), "when") && n.body.len() == 0 {
        n.body.push(Node { toks: vec![word("skip")], body: vec![], els: vec![], els_toks: vec![], chain: false, closed: false })
    }
    if is_word(n.toks.first(), "mem") {
        let mut v: [Vec<Node>; 10] = Default::default();
        for e in std::mem::take(&mut n.body) {
            v[key(&e) as usize].push(e)
        }
        // what may be omitted
        if v[3].len() == 0 {
            v[3].push(entry("read-latency", Tok::Num(0)))
        }
        if v[4].len() == 0 {
            v[4].push(entry("write-latency", Tok::Num(0)))
        }
        if v[5].len() == 0 {
            v[5].push(entry("read-under-write", word("undefined")))
        }
        for e in v {
            n.body.extend(e)
        }
    }
    if is_word(n.toks.first(), "extmodule") {
        // parameters come last, in any order
        let mut p: Vec<Node> = vec![];
        let mut r = vec![];
        for e in std::mem::take(&mut n.body) {
            if is_word(e.toks.first(), "parameter") {
                let name = |n: &Node| match n.toks.get(1) {
                    Some(Tok::Word(w)) => w.clone(),
                    _ => vec![],
                };
                let at = p.iter().position(|o| name(o) > name(&e)).unwrap_or(p.len());
                p.insert(at, e)
            } else {
                r.push(e)
            }
        }
        r.extend(p);
        n.body = r
    }
}
/// None: the text is malformed.
pub fn read(s: &str) -> Option<Vec<Node>> {
    let l = lines(s.as_bytes())?;
    block(&l, &mut 0, None)
}
