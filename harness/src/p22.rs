//! All ways of reading a circuit agree.
use super::{sym, util::*};
use firrtl_ast::circuit::ModuleConsumer;
use firrtl_ast::module::Modules;
use std::io::{self, ErrorKind, Read};

super::entries! { p22_agree, p22_text, p22_more, p22_custom, p22_added, p22_chunks, p22_pieces, p22_error, p22_utf8, p22_wide, p22_bytes, p22_many, p22_large, p22_plain }

const NAMES: [&str; 4] = ["A", "B", "C", "D"];

/// A text and what it says.
struct Scene {
    text: String,
    /// What precedes the first module.
    head: usize,
    top: &'static str,
    info: Option<&'static str>,
    head_ok: bool,
    /// The modules up to the first fault.
    good: Vec<Arc<Module>>,
    ok: bool,
    /// Is there something behind the last of them that may belong to it?
    open: bool,
}
/// A module of a free kind.  None: it is malformed.
fn a_module(s: &mut String, i: usize, good: &[Arc<Module>], kinds: u32) -> Option<Arc<Module>> {
    let n = NAMES[i];
    let p = || vec![input("p", uint(1)), output("q", uint(2))];
    let ports = "    input p: UInt<1>\n    output q: UInt<2>\n";
    match sym::choice(kinds) {
        0 => {
            s.push_str(&format!("  module {}:\n{}    skip\n", n, ports));
            Some(module_of(n, p(), vec![StmtKind::Empty.into()]))
        }
        1 => {
            // of another module, maybe of an unknown one
            let o = sym::choice(3) as usize;
            s.push_str(&format!("  module {}:\n    inst i of {}\n    skip\n", n, NAMES[o]));
            let m = good.iter().find(|m| &**m.name() == NAMES[o])?;
            let d = decl(&ent(Entity::Instance(Instance::new("i", m.clone()))));
            Some(module_of(n, vec![], vec![d, StmtKind::Empty.into()]))
        }
        2 => {
            s.push_str(&format!("  extmodule {}:\n{}    defname = x\n    parameter y = 3\n", n, ports));
            let params = vec![("y".into(), ParamValue::Int(3.into()))].into_iter().collect();
            Some(Arc::new(Module::new(n.into(), p(), ModKind::External { defname: Some("x".into()), params })))
        }
        3 => {
            s.push_str(&format!("  module {}: @[i]\n", n));
            Some(Arc::new(Module::new(n.into(), vec![], ModKind::empty_regular()).with_info(Some("i".to_string()))))
        }
        k => {
            let fault = [
                "  module :\n",
                "  module A\n",
                "  modul A:\n",
                "module A:\n",
                "   module A:\n  module A:\n",
                "  module A:\n    input p UInt\n",
                "  module A:\n    skip\n      skip\n",
                "  module A:\n    skip\n   skip\n",
                "  module A:\n    skip skip\n",
                "  module A:\n    x <= x\n",
                "  module A:\n    wire x: UInt\n    x <=\n    skip\n",
                "  module A:\n    skip\n    when\n    skip\n",
                "  module A:\n    skip\n    @[\n",
                "  extmodule A:\n    skip\n",
                "  extmodule A:\n    parameter x =\n    parameter y = 1\n",
                "  extmodule A:\n    parameter x = 1\n    parameter x = 1\n",
                "  extmodule A:\n    parameter x = 1\n    defname = y\n",
                "  module A:\n    mem m:\n      depth => 1\n    skip\n",
                "circuit A:\n",
                "  circuit A:\n",
                "x\n",
                "\t;\n  )\n",
                "  module A: skip\n",
                "  module A:\n    skip",
            ];
            let f = sym::choice(fault.len() as u32) as usize;
            s.push_str(if k == 4 { fault[f] } else { fault[0] });
            None
        }
    }
}
fn scene(most: u32, kinds: u32) -> Scene {
    let n = sym::choice(most + 1) as usize;
    let top = NAMES[sym::choice(4) as usize];
    let info = if sym::flag() { Some("i") } else { None };
    let mut text = if sym::flag() { String::from("\n; c\r\n") } else { String::new() };
    let heads = ["circuit", "circut", ""];
    let h = if n < 2 { sym::choice(3) as usize } else { 0 };
    text.push_str(&format!("{} {}:{}\n", heads[h], top, info.map_or("", |_| " @[i]")));
    let head = text.len();
    let mut s = Scene { text, head, top, info, head_ok: h == 0, good: vec![], ok: h == 0, open: false };
    for i in 0..n {
        if s.ok {
            let at = s.text.len();
            match a_module(&mut s.text, i, &s.good, kinds) {
                Some(m) => s.good.push(m),
                None => {
                    s.ok = false;
                    let l = s.text[at..].as_bytes();
                    s.open = l[0] != b' ' || l[1] != b' ' || l[2] == b' '
                }
            }
        } else {
            s.text.push_str(&format!("  module {}:\n    skip\n", NAMES[i]))
        }
    }
    s
}
fn expected(s: &Scene) -> Option<Circuit> {
    if !s.ok {
        return None;
    }
    let m = s.good.iter().find(|m| &**m.name() == s.top)?;
    Some(Circuit::new(m.clone()).with_info(s.info.map(String::from)))
}
fn same(r: Result<Circuit, ParseError>, want: &Option<Circuit>) {
    match (r, want) {
        (Ok(c), Some(w)) => {
            sym::check(c == *w, "another circuit");
            sym::check(c.info() == w.info(), "another info");
            sym::reach(1)
        }
        (Err(_), None) => sym::reach(2),
        (Ok(_), None) => sym::fail("a circuit from a part of the input"),
        (Err(_), Some(_)) => sym::fail("no circuit although the text is well-formed"),
    }
}
/// The circuit, the modules one by one, and any mixture.
fn p22_agree() {
    let s = scene(if sym::thorough() { 4 } else { 3 }, 5);
    sym::log(&s.text);
    let want = expected(&s);
    same(parse(&s.text), &want);
    same(Circuit::from_read(s.text.as_bytes()), &want);
    let mut c = match circuit::consumer(&s.text) {
        Ok(c) => c,
        Err(_) => {
            sym::check(!s.head_ok, "the head is not accepted");
            return sym::reach(3);
        }
    };
    sym::check(s.head_ok, "a malformed head is accepted");
    // stop after k modules
    let k = sym::choice(s.good.len() as u32 + 1) as usize;
    for (i, m) in s.good.iter().enumerate() {
        let had = c.circuit();
        let top_seen = s.good[..i].iter().position(|m| &**m.name() == s.top);
        sym::check(had.is_some() == top_seen.is_some(), "the top module is not known once it was read");
        if let (Some(had), Some(t)) = (had, top_seen) {
            sym::check(*had.top_module() == s.good[t] && had.info() == s.info, "another circuit");
        }
        if i == k {
            return same(c.into_circuit(), &want);
        }
        match c.next() {
            Some(Ok(n)) => sym::check(n == *m, "another module"),
            Some(Err(_)) if s.open && i + 1 == s.good.len() => return,
            Some(Err(_)) => sym::fail("a module is not accepted"),
            None => sym::fail("a module is missing"),
        }
        sym::reach(4)
    }
    if sym::flag() {
        return same(c.into_circuit(), &want);
    }
    match c.next() {
        Some(Ok(_)) => sym::fail("a module that is none"),
        Some(Err(_)) => sym::check(!s.ok, "an error although the text is well-formed"),
        None => sym::check(s.ok, "the rest of the text is ignored"),
    }
    if s.ok {
        sym::check(c.next().is_none() && c.next().is_none(), "something behind the end");
        same(c.into_circuit(), &want)
    } else {
        // an error is reported once, at most again
        for _ in 0..3 {
            sym::check(!matches!(c.next(), Some(Ok(_))), "a module behind an error")
        }
    }
}
/// The modules without the circuit.
fn p22_text() {
    let s = scene(3, 5);
    sym::log(&s.text);
    let part = &s.text[s.head..];
    let mut m = if sym::flag() { Modules::new(part) } else { Modules::new_with_origin(part, &s.text) };
    for (i, g) in s.good.iter().enumerate() {
        for (j, g) in s.good.iter().enumerate() {
            let f = m.module(g.name());
            sym::check(f.is_some() == (j < i), "a module is not known once it was read");
            if let Some(f) = f {
                sym::check(f == g, "another module")
            }
        }
        match m.next() {
            Some(Ok(n)) => sym::check(n == *g, "another module"),
            Some(Err(_)) if s.open && i + 1 == s.good.len() => return,
            _ => sym::fail("a module is missing"),
        }
        sym::reach(4)
    }
    if s.head_ok {
        match m.next() {
            Some(Ok(_)) => sym::fail("a module that is none"),
            Some(Err(_)) => sym::check(!s.ok, "an error although the text is well-formed"),
            None => sym::check(s.ok, "the rest of the text is ignored"),
        }
    }
}
/// A well-formed text with anything behind it, in front of it or within it.
fn p22_more() {
    let t = "circuit B:\n  module A:\n    input a: UInt\n    node n = add(a, a)\n  module B:\n    input a: UInt\n    inst i of A\n    i.a <= a\n  extmodule C:\n    defname = x\n";
    let at = sym::choice(6) as usize * 32 + sym::choice(32) as usize;
    sym::assume(at <= t.len());
    let n = if sym::thorough() { 2 } else { 1 };
    let kinds = ["\n", "\n  ", "  module D:\n", " ", ":", "x", "  x\n", "    skip\n", "@[", "\"", "", "\n    module E:\n", "\r", "circuit B:\n", "}", "\u{0}"];
    let mut s = t[..at].to_string();
    for _ in 0..n {
        s.push_str(kinds[sym::choice(kinds.len() as u32) as usize])
    }
    s.push_str(&t[at..]);
    sym::log(&s);
    ways(&s)
}
/// All ways for a text of which nothing is known.
fn ways(s: &str) {
    let a = parse(s).ok();
    let b = Circuit::from_read(s.as_bytes()).ok();
    sym::check(a == b, "reading from a stream differs");
    // one by one
    let mut v = vec![];
    let mut bad = false;
    if let Ok(mut c) = circuit::consumer(s) {
        while let Some(r) = c.next() {
            match r {
                Ok(m) => v.push(m),
                Err(_) => {
                    bad = true;
                    break;
                }
            }
        }
        let d = c.circuit();
        let known = d.is_some();
        if !bad {
            sym::check(d == a && c.into_circuit().ok() == a, "reading one by one differs");
        }
        sym::check(a.is_some() == (known && !bad), "an error is ignored");
        let k = sym::choice(3) as usize;
        if k <= v.len() {
            let mut c = circuit::consumer(s).ok().unwrap();
            for m in &v[..k] {
                sym::check(c.next().map(|r| r.ok()) == Some(Some(m.clone())), "not repeatable")
            }
            let r = c.into_circuit();
            sym::check(r.is_ok() == a.is_some(), "reading the rest succeeds or fails otherwise");
            sym::check(r.ok() == a, "reading the rest differs");
            sym::reach(4)
        }
    } else {
        sym::check(a.is_none(), "a malformed head is accepted")
    }
    sym::reach(if a.is_some() { 1 } else { 2 })
}
/// Modules and errors from elsewhere.
fn p22_custom() {
    let n = sym::choice(if sym::thorough() { 5 } else { 4 }) as usize;
    let top = NAMES[sym::choice(3) as usize];
    let mut v: Vec<Result<Arc<Module>, ParseError>> = vec![];
    let mut want = vec![];
    for _ in 0..n {
        let k = sym::choice(6) as usize;
        if k < 3 {
            // nothing says that the names differ
            let m = module_of(NAMES[k], vec![input("p", uint(v.len() as u16))], vec![]);
            want.push(Some(m.clone()));
            v.push(Ok(m))
        } else {
            want.push(None);
            v.push(Err(if k == 3 {
                "e".to_string().into()
            } else if k == 4 {
                ErrorKind::UnexpectedEof.into()
            } else {
                io::Error::new(ErrorKind::Other, "e").into()
            }))
        }
    }
    let info = if sym::flag() { Some(String::from("i")) } else { None };
    let mut c = ModuleConsumer::new(top, info.clone(), v.into_iter());
    let k = sym::choice(n as u32 + 1) as usize;
    for w in &want[..k] {
        match (c.next(), w) {
            (Some(Ok(m)), Some(w)) => sym::check(Arc::ptr_eq(&m, w), "another module"),
            (Some(Err(_)), None) => {}
            _ => sym::fail("an item is not passed on"),
        }
    }
    let is_top = |w: &&Option<Arc<Module>>| w.as_ref().map_or(false, |m| &**m.name() == top);
    let seen = want[..k].iter().find(is_top);
    match (c.circuit(), seen) {
        (None, None) => {}
        (Some(c), Some(Some(m))) => sym::check(&**c.top_module().name() == top && c.info() == info.as_deref() && (count(&want[..k], top) > 1 || Arc::ptr_eq(c.top_module(), m)), "another circuit"),
        _ => sym::fail("the top module is not known once it was read"),
    }
    // what was consumed was seen by the caller
    let all_ok = want[k..].iter().all(|w| w.is_some());
    let top_m = want.iter().find(is_top);
    match c.into_circuit() {
        Ok(c) => {
            sym::check(all_ok, "an error is ignored");
            let m = match top_m {
                Some(Some(m)) => m,
                _ => sym::fail("a circuit without its top module"),
            };
            sym::check(&**c.top_module().name() == top && c.info() == info.as_deref(), "another circuit");
            if count(&want, top) == 1 {
                sym::check(Arc::ptr_eq(c.top_module(), m), "another top module");
            }
            sym::reach(1)
        }
        Err(_) => {
            sym::check(!all_ok || top_m.is_none(), "an error although everything was read");
            sym::reach(2)
        }
    }
}
fn count(v: &[Option<Arc<Module>>], n: &str) -> usize {
    v.iter().filter(|w| w.as_ref().map_or(false, |m| &**m.name() == n)).count()
}
/// Modules added before or while reading are known from then on.
fn p22_added() {
    let t = "  module B:\n    inst i of A\n  module C:\n    inst i of A\n    inst j of B\n";
    let a = module_of("A", vec![input("p", uint(sym::int(3) as u16))], vec![]);
    let mut m = Modules::new(t);
    let when = sym::choice(4);
    if when == 0 {
        m.add_module(a.clone())
    }
    match m.next() {
        Some(Ok(b)) => {
            sym::check(when == 0, "an unknown module is instantiated");
            sym::check(b.referenced_modules().all(|m| Arc::ptr_eq(m, &a)), "another module is instantiated");
            sym::check(m.module("B").map_or(false, |n| Arc::ptr_eq(n, &b)), "a module that was read is not known");
            sym::check(m.module("A").map_or(false, |n| Arc::ptr_eq(n, &a)), "an added module is not known");
            match m.next() {
                Some(Ok(c)) => {
                    let v: Vec<_> = c.referenced_modules().collect();
                    sym::check(v.len() == 2 && Arc::ptr_eq(v[0], &a) && Arc::ptr_eq(v[1], &b), "another module is instantiated");
                    sym::check(m.next().is_none(), "something behind the end");
                    sym::reach(4)
                }
                _ => sym::fail("an added module is forgotten"),
            }
        }
        Some(Err(_)) => {
            sym::check(when != 0, "an added module is unknown");
            sym::check(!matches!(m.next(), Some(Ok(_))), "a module behind an error");
            sym::reach(2)
        }
        None => sym::fail("a module is missing"),
    }
}

const TEXT: &str = "; \u{e9}\u{20ac}\ncircuit M: @[\u{1f600}\u{e9}]\n  module N:\n    input p\u{e9}: UInt<1>\n  module M:\n    input c: Clock\n    inst i of N\n    printf(c, i.p\u{e9}, \"\u{20ac}\")\n";
/// A stream that delivers pieces and maybe an error.
struct Stream<'a> {
    data: &'a [u8],
    /// How many bytes at most by each call, 0: interrupted.
    pieces: Vec<usize>,
    /// The error once this many bytes were delivered.
    error: Option<(usize, u32)>,
    done: usize,
    calls: usize,
}
fn error(k: u32) -> io::Error {
    match k {
        0 => ErrorKind::UnexpectedEof.into(),
        1 => ErrorKind::WouldBlock.into(),
        2 => ErrorKind::InvalidData.into(),
        3 => ErrorKind::BrokenPipe.into(),
        4 => ErrorKind::TimedOut.into(),
        5 => io::Error::from_raw_os_error(5),
        6 => ErrorKind::NotFound.into(),
        _ => io::Error::new(ErrorKind::Other, "e"),
    }
}
impl Read for Stream<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let most = self.pieces.get(self.calls).copied().unwrap_or(usize::MAX);
        self.calls += 1;
        if most == 0 {
            return Err(ErrorKind::Interrupted.into());
        }
        let mut n = most.min(buf.len()).min(self.data.len() - self.done);
        if let Some((at, k)) = self.error {
            n = n.min(at - self.done);
            if n == 0 && buf.len() > 0 {
                return Err(error(k));
            }
        }
        buf[..n].copy_from_slice(&self.data[self.done..self.done + n]);
        self.done += n;
        Ok(n)
    }
}
fn stream(data: &[u8], pieces: Vec<usize>) -> Stream<'_> {
    Stream { data, pieces, error: None, done: 0, calls: 0 }
}
fn place(n: usize) -> usize {
    let k = sym::choice(n as u32 / 16 + 1) as usize * 16 + sym::choice(16) as usize;
    sym::assume(k < n);
    k
}
/// Small pieces with interruptions in any order.
fn p22_chunks() {
    let n = if sym::thorough() { 6 } else { 4 };
    let sizes = [0, 1, 2, 3, 7, 40];
    let v = (0..n).map(|_| sizes[sym::choice(6) as usize]).collect();
    let rest = sym::choice(3) as usize;
    let mut s = stream(TEXT.as_bytes(), v);
    let l = s.pieces.len();
    for _ in 0..if rest == 0 { 0 } else { 200 } {
        s.pieces.push(rest)
    }
    sym::log_num(l as u64);
    whole(s)
}
fn whole(mut s: Stream) {
    match Circuit::from_read(&mut s) {
        Ok(c) => {
            sym::check(c == parse(TEXT).unwrap(), "pieces give another circuit");
            sym::check(s.done == s.data.len(), "not everything is read");
            sym::reach(1)
        }
        Err(_) => sym::fail("pieces of a well-formed text are not accepted"),
    }
}
/// Three pieces split at any two places, interruptions between.
fn p22_pieces() {
    let (p, q) = (place(TEXT.len()), if sym::thorough() { place(TEXT.len()) } else { sym::choice(5) as usize });
    let v = match sym::choice(3) {
        0 => vec![p + 1, q + 1],
        1 => vec![0, p + 1, 0, 0, q + 1, 0],
        _ => vec![p + 1, 0, q + 1],
    };
    whole(stream(TEXT.as_bytes(), v))
}
/// An error at any place, even behind a complete text.
fn p22_error() {
    let cut = ["circuit M:\n  module N:\n    skip\n  module M:\n    inst i of N\n", TEXT][sym::choice(2) as usize];
    let at = place(cut.len() + 1);
    let k = sym::choice(8);
    let v = if sym::flag() { vec![at / 2 + 1, 0, 3] } else { vec![] };
    let mut s = stream(cut.as_bytes(), v);
    s.error = Some((at, k));
    match Circuit::from_read(s) {
        Ok(_) => sym::fail("a circuit in spite of a read error"),
        Err(e) => {
            // it can be told what happened
            sym::check(e.to_string().len() > 0, "an error without a message");
            sym::reach(2)
        }
    }
}

/// Is this UTF-8?
fn valid(b: &[u8]) -> bool {
    let mut i = 0;
    let cont = |i: usize, lo: u8, hi: u8| i < b.len() && b[i] >= lo && b[i] <= hi;
    while i < b.len() {
        let c = b[i];
        let n = if c < 0x80 {
            1
        } else if c < 0xc2 || c > 0xf4 {
            return false;
        } else if c < 0xe0 {
            2
        } else if c < 0xf0 {
            3
        } else {
            4
        };
        if n > 1 {
            let lo = if c == 0xe0 { 0xa0 } else if c == 0xf0 { 0x90 } else { 0x80 };
            let hi = if c == 0xed { 0x9f } else if c == 0xf4 { 0x8f } else { 0xbf };
            if !cont(i + 1, lo, hi) {
                return false;
            }
            for k in 2..n {
                if !cont(i + k, 0x80, 0xbf) {
                    return false;
                }
            }
        }
        i += n
    }
    true
}
fn bytes_of(b: &[u8]) {
    let ok = valid(b);
    let v = if sym::flag() { vec![place(b.len()) + 1] } else { vec![] };
    match Circuit::from_read(stream(b, v)) {
        Ok(c) => {
            sym::check(ok, "text that is not UTF-8 is accepted");
            // this is UTF-8
            let t = unsafe { std::str::from_utf8_unchecked(b) };
            sym::check(parse(t).ok() == Some(c), "the stream gives another circuit");
            sym::reach(1)
        }
        Err(_) => {
            if ok {
                let t = unsafe { std::str::from_utf8_unchecked(b) };
                sym::check(parse(t).is_err(), "the stream gives no circuit")
            }
            sym::reach(2)
        }
    }
}
const SHORT: &str = "; c\ncircuit M: @[i]\n  module M:\n    input p: UInt\n    stop(p, p, 1)\n";
/// Any byte that is no ASCII character anywhere.
fn p22_utf8() {
    let at = place(SHORT.len() + 1);
    let mut b = SHORT.as_bytes()[..at].to_vec();
    let x = sym::int(7) as u8 | 0x80;
    b.push(x);
    let skip = sym::choice(2) as usize;
    if at + skip <= SHORT.len() {
        b.extend(&SHORT.as_bytes()[at + skip..])
    }
    let ok = valid(&b);
    sym::check(!ok, "harness");
    match Circuit::from_read(&b[..]) {
        Ok(_) => sym::fail("text that is not UTF-8 is accepted"),
        Err(_) => sym::reach(2),
    }
}
/// Any two bytes that are no ASCII characters, anywhere.
fn p22_wide() {
    let at = place(SHORT.len());
    let mut b = SHORT.as_bytes()[..at].to_vec();
    for _ in 0..2 {
        b.push(sym::int(7) as u8 | 0x80)
    }
    b.extend(&SHORT.as_bytes()[at..]);
    bytes_of(&b)
}
/// Any bytes in a comment, an info or a string.
fn p22_bytes() {
    let at = [3, 18, SHORT.len()][sym::choice(3) as usize];
    let n = 1 + sym::choice(if sym::thorough() { 4 } else { 3 }) as usize;
    let mut b = SHORT.as_bytes()[..at].to_vec();
    b.extend(sym::bytes_vec(n));
    if sym::flag() {
        b.extend(&SHORT.as_bytes()[at..]);
    }
    bytes_of(&b)
}

// --- large ---
/// Many modules, or long ones, in one text or in pieces.
fn p22_many() {
    let n = half_size();
    let k = spot(n);
    let mut s = String::from("circuit T:\n");
    let bad = sym::choice(3);
    let all = names(n);
    for (i, m) in all.iter().enumerate() {
        let one = if i == k && bad == 1 { "    a is nothing\n" } else { "    a is invalid\n" };
        s.push_str(&format!("  module {}:\n    input a: UInt<{}>\n{}", m, i, one))
    }
    // or many statements
    s.push_str("  module T:\n    input a: UInt\n");
    for i in 0..n {
        s.push_str(if i == k && bad == 2 { "    skip skip\n" } else { "    a is invalid\n" })
    }
    sym::log(&s);
    let r = parse(&s);
    sym::check(r.is_ok() == (bad == 0), "a text is not read to its end");
    let len = s.len();
    let at = [1, len / 2, len - 1, len.min(8192)][sym::choice(4) as usize];
    let t = Circuit::from_read(stream(s.as_bytes(), vec![at, len]));
    sym::check(t.ok() == r.as_ref().ok().cloned(), "reading from a stream differs");
    let mut c = match circuit::consumer(&s) {
        Ok(c) => c,
        Err(_) => sym::fail("the head is not accepted"),
    };
    let upto = match bad {
        0 => n + 1,
        1 => k,
        _ => n,
    };
    for i in 0..upto {
        match c.next() {
            Some(Ok(m)) if i < n => {
                sym::check(m.name().as_ref() == all[i].as_str() && m.ports().next().map_or(false, |p| *p.r#type() == uint(i as u16)), "another module")
            }
            Some(Ok(m)) => sym::check(m.name().as_ref() == "T" && m.statements().len() == n, "another module"),
            _ if bad == 2 && i + 1 == n => return,
            _ => sym::fail("a module is not accepted"),
        }
    }
    sym::reach(4);
    match c.next() {
        Some(Ok(_)) => sym::fail("a module that is none"),
        Some(Err(_)) => sym::check(bad > 0, "an error although the text is well-formed"),
        None => sym::check(bad == 0, "the rest of the text is ignored"),
    }
}

/// A text of many thousand bytes, all of it one token.
fn p22_large() {
    let n = [4_096, 9_000, 40_000, 70_000, 140_000, 300_000][sym::choice(if sym::thorough() { 6 } else { 5 }) as usize];
    let fill = |c: char| std::iter::repeat(c).take(n).collect::<String>();
    let (a, b) = ("circuit A:\n", "  module A:\n    input p: UInt<1>\n    skip\n");
    // where in the text, and what follows it
    let mut info = None;
    let mut name = String::from("A");
    let text = match sym::choice(7) {
        0 => format!("; {}\n{}{}", fill('c'), a, b),
        1 => format!("{}; {}\n{}", a, fill('c'), b),
        2 => format!("{}{}    ; {}\n", a, b, fill('c')),
        3 => {
            info = Some(fill('i'));
            format!("circuit A: @[{}]\n{}", fill('i'), b)
        }
        4 => {
            name = fill('N');
            format!("circuit {}:\n  module {}:\n    input p: UInt<1>\n    skip\n", name, name)
        }
        5 => format!("{}{}{}", a, fill('\n'), b),
        _ => format!("{}{}{}", a, b, fill(' ')),
    };
    // or a fault at the very end
    let fault = sym::choice(2) == 1;
    let text = if fault { format!("{}\n    skip skip\n", text) } else { text };
    sym::log_num(n as u64);
    let size = [1_000, 4_096, 8_192, 65_536][sym::choice(4) as usize];
    let pieces = vec![size; if sym::choice(2) == 0 { 0 } else { text.len() / size + 1 }];
    let m = module_of(&name, vec![input("p", uint(1))], vec![StmtKind::Empty.into()]);
    let r = parse(&text);
    let t = Circuit::from_read(stream(text.as_bytes(), pieces));
    if fault {
        sym::check(r.is_err() && t.is_err(), "a fault is not found");
        return sym::reach(4);
    }
    let c = Circuit::new(m).with_info(info);
    sym::check(r.ok().as_ref() == Some(&c), "a long text is read differently");
    sym::check(t.ok().as_ref() == Some(&c), "reading a long text from a stream differs");
    sym::reach(4)
}

/// Modules that have next to nothing, and a top module among them.
fn p22_plain() {
    let n = if sym::thorough() { 3 } else { 2 };
    let top = sym::choice(n + 1) as usize;
    let mut s = format!("circuit {}:\n", NAMES[top]);
    let mut all = vec![];
    for i in 0..n as usize {
        let ext = sym::choice(2) == 1;
        let info = if sym::choice(2) == 1 { Some("i".to_string()) } else { None };
        s.push_str(&format!("  {} {}:{}\n", if ext { "extmodule" } else { "module" }, NAMES[i], if info.is_some() { " @[i]" } else { "" }));
        let ports = match sym::choice(3) {
            0 => vec![],
            1 => {
                s.push_str("    input p: UInt<1>\n");
                vec![input("p", uint(1))]
            }
            _ => {
                s.push_str("    output p: UInt<1>\n");
                vec![output("p", uint(1))]
            }
        };
        let kind = if ext {
            let mut defname = None;
            let mut params = std::collections::HashMap::new();
            let k = sym::choice(4);
            if k & 1 > 0 {
                s.push_str("    defname = x\n");
                defname = Some("x".into())
            }
            if k & 2 > 0 {
                s.push_str("    parameter y = 3\n");
                params.insert("y".into(), ParamValue::Int(3));
            }
            ModKind::External { defname, params }
        } else {
            let k = sym::choice(2);
            if k > 0 {
                s.push_str("    skip\n")
            }
            ModKind::Regular { stmts: (0..k).map(|_| StmtKind::Empty.into()).collect() }
        };
        all.push(Arc::new(Module::new(NAMES[i].into(), ports, kind).with_info(info)))
    }
    sym::log(&s);
    let r = parse(&s).ok();
    sym::check(r == all.get(top).map(|m| Circuit::new(m.clone())), "another circuit");
    sym::check(Circuit::from_read(s.as_bytes()).ok() == r, "reading from a stream differs");
    let mut c = match circuit::consumer(&s) {
        Ok(c) => c,
        Err(_) => sym::fail("the head is not accepted"),
    };
    for m in &all {
        match c.next() {
            Some(Ok(o)) => sym::check(o == *m, "another module"),
            _ => sym::fail("a module is not accepted"),
        }
    }
    sym::check(c.next().is_none() && c.circuit() == r && c.into_circuit().ok() == r, "the consumer gives another circuit");
    sym::reach(4)
}
