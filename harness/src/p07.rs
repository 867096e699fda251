//! Integer literals and other numbers.
use super::{sym, util::*};
use num_bigint::{BigInt, BigUint};

super::entries! { p07_dec, p07_radix, p07_malformed, p07_width, p07_long, p07_fields, p07_limits, p07_signed, p07_decl, p07_huge, p07_double }

enum Lit {
    U(BigUint, u16),
    S(BigInt, u16),
}
/// What a text denotes as an expression.
fn read(x: &str) -> Result<Lit, ()> {
    let s = format!("circuit M:\n  module M:\n    node n = {}\n    skip\n", x);
    sym::log(&s);
    let c = parse(&s).map_err(|_| ())?;
    let v = c.top_module().statements();
    sym::check(v.len() == 2, "a statement is lost");
    if let StmtKind::Declaration(d) = v[0].kind() {
        if let Entity::Node { value, .. } = d.as_ref() {
            return Ok(match value {
                Expression::UIntLiteral { value, width } => Lit::U(value.clone(), *width),
                Expression::SIntLiteral { value, width } => Lit::S(value.clone(), *width),
                _ => sym::fail("a literal is read as something else"),
            });
        }
    }
    sym::fail("another statement")
}
fn number(s: &[u8], radix: u32) -> Option<u64> {
    if s.is_empty() {
        return None;
    }
    let mut v = 0u64;
    for c in s {
        let d = match c {
            b'0'..=b'9' => c - b'0',
            b'a'..=b'z' => c - b'a' + 10,
            b'A'..=b'Z' => c - b'A' + 10,
            _ => return None,
        };
        if d as u32 >= radix {
            return None;
        }
        v = v * radix as u64 + d as u64;
    }
    Some(v)
}
/// Sign and magnitude, independently of the code.
fn oracle(s: &str, radix: u32) -> Option<(bool, u64)> {
    let s = s.as_bytes();
    match s.first() {
        Some(b'-') => number(&s[1..], radix).map(|v| (true, v)),
        Some(b'+') => number(&s[1..], radix).map(|v| (false, v)),
        _ => number(s, radix).map(|v| (false, v)),
    }
}
fn fits_u(v: &BigUint, w: u16) -> bool {
    v.bits() <= w as u64
}
/// -2^(w-1) <= v < 2^(w-1)
fn fits_s(v: &BigInt, w: u16) -> bool {
    let m = v.magnitude();
    if v.sign() == num_bigint::Sign::Minus {
        w > 0 && (m - 1u8).bits() < w as u64
    } else {
        *m == BigUint::from(0u8) || m.bits() < w as u64
    }
}
fn small_u(v: u64) -> BigUint {
    BigUint::from(v)
}
fn small_s(neg: bool, v: u64) -> BigInt {
    let v = BigInt::from(v);
    if neg {
        -v
    } else {
        v
    }
}
/// Compares what was read with sign and magnitude.
fn judge(got: Result<Lit, ()>, signed: bool, w: Option<u16>, want: Option<(bool, u64)>) {
    match (got, want) {
        (Ok(Lit::U(v, gw)), Some((neg, m))) => {
            sym::check(!signed, "a signed literal is read as unsigned");
            sym::check(!neg || m == 0, "a negative unsigned literal is accepted");
            sym::check(v == small_u(m), "an unsigned literal has another value");
            match w {
                Some(w) => sym::check(gw == w, "the width of a literal is lost"),
                None => sym::check(fits_u(&v, gw), "the width is too small for an unsigned literal"),
            }
            sym::reach(1)
        }
        (Ok(Lit::S(v, gw)), Some((neg, m))) => {
            sym::check(signed, "an unsigned literal is read as signed");
            sym::check(v == small_s(neg, m), "a signed literal has another value");
            match w {
                Some(w) => sym::check(gw == w, "the width of a literal is lost"),
                None => sym::check(fits_s(&v, gw), "the width is too small for a signed literal"),
            }
            sym::reach(2)
        }
        (Ok(_), None) => sym::fail("a malformed literal is accepted"),
        // a minus sign cannot stand before an unsigned number, not even zero
        (Err(()), Some((true, _))) if !signed => sym::reach(3),
        (Err(()), Some(_)) => sym::fail("a literal is rejected"),
        (Err(()), None) => sym::reach(4),
    }
}
fn spell(signed: bool, w: Option<u16>, x: &str) -> String {
    let w = match w {
        Some(w) => format!("<{}>", w),
        None => String::new(),
    };
    format!("{}{}({})", if signed { "SInt" } else { "UInt" }, w, x)
}
fn width() -> Option<u16> {
    if sym::flag() {
        Some(40)
    } else {
        None
    }
}
/// A free sign and digits over the given characters.
fn signed_text(n: usize, set: &str) -> String {
    let sign = ["", "-", "+"][sym::choice(3) as usize];
    format!("{}{}", sign, sym::text(n, set))
}

const DIGITS: &str = "0123456789";
const ALNUM: &str = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_'.+- \\$";

/// Decimal digits.
fn p07_dec() {
    let n = sym::choice(if sym::thorough() { 7 } else { 6 }) as usize;
    let (signed, w) = (sym::flag(), width());
    let t = signed_text(n, DIGITS);
    judge(read(&spell(signed, w, &t)), signed, w, oracle(&t, 10))
}
/// Digits of any base, also those that are none there and what is no digit at
/// all.
fn p07_radix() {
    let n = sym::choice(if sym::thorough() { 5 } else { 4 }) as usize;
    let (signed, w) = (sym::flag(), width());
    let (c, r) = [('b', 2), ('o', 8), ('h', 16)][sym::choice(3) as usize];
    let t = signed_text(n, ALNUM);
    judge(read(&spell(signed, w, &format!("\"{}{}\"", c, t))), signed, w, oracle(&t, r))
}
/// Anything between the parentheses.
fn p07_malformed() {
    let n = sym::choice(if sym::thorough() { 6 } else { 5 }) as usize;
    let signed = sym::flag();
    let t = sym::text(n, "019f\"hbox+-_.a");
    let got = read(&spell(signed, Some(9), &t));
    let b = t.as_bytes();
    let want = if n > 2 && b[0] == b'"' && b[n - 1] == b'"' {
        match b[1] {
            b'b' => oracle(&t[2..n - 1], 2),
            b'o' => oracle(&t[2..n - 1], 8),
            b'h' => oracle(&t[2..n - 1], 16),
            _ => None,
        }
    } else {
        oracle(&t, 10)
    };
    judge(got, signed, Some(9), want)
}
/// Omitted widths: every value.
fn p07_width() {
    let signed = sym::flag();
    let neg = signed && sym::flag();
    let (t, v) = if sym::flag() {
        let n = 1 + sym::choice(if sym::thorough() { 5 } else { 4 }) as usize;
        let t = sym::text(n, "0123456789abcdef");
        let v = number(t.as_bytes(), 16);
        (format!("\"h{}{}\"", if neg { "-" } else { "" }, t), v)
    } else {
        // around the powers of two
        let k = sym::choice(62);
        let v = (1u64 << k).wrapping_add(sym::choice(3) as u64).wrapping_sub(1);
        (format!("{}{}", if neg { "-" } else { "" }, v), Some(v))
    };
    judge(read(&spell(signed, None, &t)), signed, None, v.map(|v| (neg, v)))
}
/// Numbers of several machine words: 16 free bits anywhere in them.
fn p07_long() {
    let (signed, w) = (sym::flag(), if sym::flag() { Some(500) } else { None });
    let (c, bits) = [('b', 1), ('o', 3), ('h', 4)][sym::choice(3) as usize];
    // digits before and behind the free ones
    let before = sym::choice(3) as usize * 7;
    let behind = (sym::choice(if sym::thorough() { 6 } else { 4 }) * (48 / bits)) as usize + sym::choice(3) as usize;
    let f = sym::text(if bits == 1 { 4 } else { 2 }, ["01", "", "01234567", "0123456789abcdef"][bits as usize - 1]);
    let t = format!("\"{}{}{}{}\"", c, "1".repeat(before), f, "0".repeat(behind));
    // ones, then the free bits, then zeros
    let fv = number(f.as_bytes(), 1 << bits).unwrap_or(0);
    let mut v = BigUint::from(0u8);
    for _ in 0..before {
        v = (v << bits) + 1u8;
    }
    v = (v << (bits as usize * f.len())) + fv;
    v = v << (bits as usize * behind);
    match read(&spell(signed, w, &t)) {
        Ok(Lit::U(x, gw)) => {
            sym::check(!signed && x == v, "a long literal has another value");
            sym::check(w.map_or(fits_u(&v, gw), |w| w == gw), "a long literal has another width")
        }
        Ok(Lit::S(x, gw)) => {
            let v = BigInt::from(v);
            sym::check(signed && x == v, "a long literal has another value");
            sym::check(w.map_or(fits_s(&v, gw), |w| w == gw), "a long literal has another width")
        }
        Err(()) => sym::fail("a long literal is rejected"),
    }
    sym::reach(5)
}

/// A place for a number: the text around it and the largest number there.
fn place(k: u32, x: &str) -> (String, u64) {
    let m = |s: String| format!("circuit M:\n  module M:\n    input a: UInt<1>\n{}    skip\n", s);
    match k {
        0 => (m(format!("    wire w: UInt<{}>\n", x)), 65535),
        1 => (m(format!("    wire w: UInt<1>[{}]\n", x)), 65535),
        2 => (m(format!("    node n = a[{}]\n", x)), 65535),
        3 => (m(format!("    node n = pad(a, {})\n", x)), 65535),
        4 => (m(format!("    node n = bits(a, {}, 0)\n", x)), 65535),
        5 => (m(format!("    node n = bits(a, 0, {})\n", x)), 65535),
        6 => (m(format!("    node n = UInt<{}>(0)\n", x)), 65535),
        7 => (
            m(format!("    mem m:\n      data-type => UInt<1>\n      depth => {}\n", x)),
            u64::MAX,
        ),
        8 => (
            m(format!("    mem m:\n      data-type => UInt<1>\n      depth => 1\n      read-latency => {}\n", x)),
            65535,
        ),
        9 => (
            m(format!("    mem m:\n      data-type => UInt<1>\n      depth => 1\n      write-latency => {}\n", x)),
            65535,
        ),
        10 => (m(format!("    stop(a, a, {})\n", x)), i64::MAX as u64),
        11 => (
            format!("circuit M:\n  extmodule M:\n    parameter p = {}\n", x),
            i64::MAX as u64,
        ),
        12 => (m(format!("    wire w: Fixed<4><<{}>>\n", x)), 32767),
        13 => (m(format!("    node n = setp(a, {})\n", x)), 32767),
        _ => (m(format!("    node n = shl(a, {})\n", x)), 65535),
    }
}
const PLACES: u32 = 15;
/// The number that was read there, negative ones in two's complement.
fn got(k: u32, c: &Circuit) -> u64 {
    if k == 11 {
        if let ModKind::External { params, .. } = c.top_module().kind() {
            if let Some(ParamValue::Int(v)) = params.get("p") {
                return *v as u64;
            }
        }
        sym::fail("no parameter")
    }
    let v = c.top_module().statements();
    sym::check(v.len() == 2, "a statement is lost");
    match v[0].kind() {
        StmtKind::Stop { code, .. } => *code as u64,
        StmtKind::Declaration(d) => match d.as_ref() {
            Entity::Wire { r#type: Type::GroundType(GT::UInt(Some(w))), .. } => *w as u64,
            Entity::Wire { r#type: Type::Vector(_, n), .. } => *n as u64,
            Entity::Wire { r#type: Type::GroundType(GT::Fixed(_, Some(p))), .. } => *p as u64,
            Entity::Memory(m) => match k {
                7 => m.depth() as u64,
                8 => m.read_latency() as u64,
                _ => m.write_latency() as u64,
            },
            Entity::Node { value, .. } => match value {
                Expression::SubIndex { index, .. } => *index as u64,
                Expression::UIntLiteral { width, .. } => *width as u64,
                Expression::PrimitiveOp(Op::Pad(_, n)) => *n as u64,
                Expression::PrimitiveOp(Op::Shl(_, n)) => *n as u64,
                Expression::PrimitiveOp(Op::SetPrecision(_, n)) => *n as u64,
                Expression::PrimitiveOp(Op::Bits(_, Some(l), Some(h))) => {
                    if k == 4 {
                        *h as u64
                    } else {
                        *l as u64
                    }
                }
                _ => sym::fail("another expression"),
            },
            _ => sym::fail("another declaration"),
        },
        _ => sym::fail("another statement"),
    }
}
fn judge_field(k: u32, t: &str, neg: bool, want: Option<u64>) {
    let (s, max) = place(k, t);
    sym::log(&s);
    let min = if k == 10 || k == 11 || k == 12 || k == 13 { max + 1 } else { 0 };
    let c = parse(&s);
    match (&c, want) {
        (Ok(c), Some(v)) => {
            sym::check(if neg { v <= min } else { v <= max }, "a number too large for its field is accepted");
            let g = got(k, c);
            sym::check(g == if neg { v.wrapping_neg() } else { v }, "a number is read differently");
            sym::reach(6)
        }
        (Ok(_), None) => sym::fail("no number is accepted as one"),
        (Err(_), Some(v)) => {
            let fits = if neg { min > 0 && v <= min } else { v <= max };
            sym::check(!fits, "a number that fits is rejected");
            sym::reach(7)
        }
        (Err(_), None) => sym::reach(8),
    }
}
/// Every number of some digits in every field.
fn p07_fields() {
    let k = sym::choice(PLACES);
    let n = 1 + sym::choice(if sym::thorough() { 6 } else { 5 }) as usize;
    let t = sym::text(n, DIGITS);
    judge_field(k, &t, false, number(t.as_bytes(), 10))
}
/// Numbers around the ends of each field's range, and far behind.
fn p07_limits() {
    let k = sym::choice(PLACES);
    let max = place(k, "").1.to_string();
    let n = max.len();
    let t = match sym::choice(4) {
        // the last digits are free
        0 => format!("{}{}", &max[..n - 2], sym::text(2, DIGITS)),
        // one digit more
        1 => format!("{}{}", max, sym::text(1, DIGITS)),
        2 => format!("{}{}", sym::text(1, DIGITS), max),
        // a multiple of the range and something small
        _ => match place(k, "").1 {
            m if m > 65535 => ["18446744073709551616", "18446744073709551617", "36893488147419103233", "340282366920938463463374607431768211457"]
                [sym::choice(4) as usize]
                .to_string(),
            _ => (65536 * (1 + sym::choice(2)) + sym::choice(4)).to_string(),
        },
    };
    let neg = sym::flag();
    let mut v = Some(0u64);
    for c in t.bytes() {
        let d = (c - b'0') as u64;
        v = match v {
            Some(v) if v < u64::MAX / 10 || v == u64::MAX / 10 && d <= 5 => Some(v * 10 + d),
            _ => None,
        };
    }
    let t = if neg { format!("-{}", t) } else { t };
    match v {
        Some(v) => judge_field(k, &t, neg && v > 0, Some(v)),
        None => {
            // beyond 64 bits
            sym::log(&t);
            sym::check(parse(&place(k, &t).0).is_err(), "a number too large for its field is accepted");
            sym::reach(11)
        }
    }
}
/// Fields that are signed.
fn p07_signed() {
    let k = [10, 11, 12, 13][sym::choice(4) as usize];
    let n = sym::choice(if sym::thorough() { 6 } else { 5 }) as usize;
    let sign = ["-", "+", "--", "-+"][sym::choice(4) as usize];
    let t = sym::text(n, DIGITS);
    let want = if sign.len() > 1 { None } else { number(t.as_bytes(), 10) };
    let neg = sign == "-";
    judge_field(k, &format!("{}{}", sign, t), neg, want)
}
/// Something that is no number, in every field.
fn p07_decl() {
    let k = sym::choice(PLACES);
    let n = 1 + sym::choice(if sym::thorough() { 3 } else { 2 }) as usize;
    let t = sym::text(n, "059+-_.xe\"a");
    let x = t.as_bytes();
    // an expression, a floating point number
    sym::assume(k != 2 || !(x[0] == b'a' || x[0] == b'_' || x[0] == b'x' || x[0] == b'e'));
    sym::assume(k != 11 || !x.contains(&b'.') && x[0] != b'"');
    sym::assume(x != b"-0" || k >= 10);
    let (neg, d) = match x[0] {
        b'-' => (true, &x[1..]),
        b'+' => (false, &x[1..]),
        _ => (false, x),
    };
    let v = number(d, 10);
    // an explicit plus sign is as good as none
    judge_field(k, &t, neg, v)
}
/// More bits than a width can state.
fn p07_huge() {
    let n = [16383, 16384, 16385][sym::choice(3) as usize];
    let signed = sym::flag();
    let neg = signed && sym::flag();
    let d = ["1", "2", "4", "8", "f"][sym::choice(5) as usize];
    let t = format!("\"h{}{}{}\"", if neg { "-" } else { "" }, d, "0".repeat(n - 1));
    let s = format!("circuit M:\n  module M:\n    node n = {}\n", spell(signed, None, &t));
    sym::log_num(n as u64);
    let m = BigUint::from(number(d.as_bytes(), 16).unwrap()) << (4 * (n - 1));
    let r = parse(&s);
    match &r {
        Err(e) => {
            sym::check(m.bits() + signed as u64 > 65535, "a literal is rejected");
            sym::check(e.to_string().len() > 0, "an error without text");
            sym::reach(9)
        }
        Ok(c) => {
            if let StmtKind::Declaration(d) = c.top_module().statements()[0].kind() {
                if let Entity::Node { value, .. } = d.as_ref() {
                    sym::check(
                        match value {
                            Expression::UIntLiteral { value, width } => *value == m && fits_u(&m, *width),
                            Expression::SIntLiteral { value, width } => {
                                let m = if neg { -BigInt::from(m) } else { BigInt::from(m) };
                                *value == m && fits_s(&m, *width)
                            }
                            _ => false,
                        },
                        "a huge literal is read differently",
                    );
                    sym::reach(10)
                }
            }
        }
    }
}

/// Doubles: the nearest to what is written, or too large for one.
fn p07_double() {
    let sign = ["", "-", "+"][sym::choice(3) as usize];
    let large = sym::choice(3) == 0;
    let (t, want) = if large {
        let n = 290 + sym::choice(20);
        let (d, f) = [("1", "0"), ("1", "7976931348623157"), ("1", "7976931348623159"), ("17", "9"), ("0", "18")][sym::choice(5) as usize];
        let ok = match (d, f) {
            // 1.7976931348623157E308 is the largest
            ("1", "7976931348623159") | ("17", _) => n < 308,
            _ => n < 309,
        };
        (format!("{}{}.{}E{}", sign, d, f, n), if ok { None } else { Some(None) })
    } else {
        // digits and a power of ten that are both exact, so that one division or multiplication rounds
        let d = [0u64, 1, 7, 10, 123, 65536, 9007199254740991][sym::choice(7) as usize];
        let f = if sym::thorough() { sym::choice(250) as u64 * 4 + 1 } else { sym::choice(31) as u64 * 33 };
        let (m, e) = if d < 1 << 50 { (d * 1000 + f, -3) } else { (d, 0) };
        let x = sym::choice(25) as i32 - 12;
        let e = e + x;
        let p = (0..e.abs()).fold(1.0f64, |p, _| p * 10.0);
        let v = if e < 0 { m as f64 / p } else { m as f64 * p };
        let v = if sign == "-" { -v } else { v };
        let f = if d < 1 << 50 { format!("{:03}", f) } else { "0".into() };
        let x = match (x, sym::flag()) {
            (0, true) => String::new(),
            (x, plus) if x >= 0 && plus => format!("E+{}", x),
            (x, _) => format!("E{}", x),
        };
        (format!("{}{}.{}{}", sign, d, f, x), Some(Some(v)))
    };
    let s = format!("circuit M:\n  extmodule M:\n    parameter x = {}\n", t);
    sym::log(&s);
    let got = match parse(&s) {
        Ok(c) => match c.top_module().kind() {
            ModKind::External { params, .. } => match params.get("x") {
                Some(ParamValue::Double(v)) => Some(*v),
                _ => sym::fail("a double is read as something else"),
            },
            _ => sym::fail("an external module is another"),
        },
        Err(_) => None,
    };
    match (got, want) {
        (Some(v), None) => sym::check(v.is_finite(), "a double is read as infinity"),
        (Some(v), Some(Some(w))) => sym::check(v.to_bits() == w.to_bits(), "a double has another value"),
        (Some(_), Some(None)) => sym::fail("a double that is too large is accepted"),
        (None, Some(None)) => sym::reach(12),
        (None, _) => sym::fail("a double is rejected"),
    }
}
