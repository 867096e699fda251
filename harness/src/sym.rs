//! Symbolic inputs.  The interpreter implements the `sym_*` functions; the
//! native runner implements them over a recorded input.
use std::fmt;

extern "C" {
    pub fn sym_bytes(p: *mut u8, n: usize);
    pub fn sym_set(p: *mut u8, n: usize, set: *const u8, m: usize);
    pub fn sym_int(bits: u32) -> u64;
    pub fn sym_digit(lo: u32, hi: u32) -> u64;
    pub fn sym_choice(n: u32) -> u32;
    pub fn sym_assume(c: u32);
    pub fn sym_fail(p: *const u8, n: usize) -> !;
    pub fn sym_log(p: *const u8, n: usize);
    pub fn sym_reach(id: u32);
    pub fn sym_tier() -> u32;
    pub fn sym_part() -> u32;
}

/// One of 0..n, a separate path for each.
#[inline(never)]
pub fn choice(n: u32) -> u32 {
    unsafe { sym_choice(n) }
}
pub fn flag() -> bool {
    choice(2) == 1
}
#[inline(never)]
pub fn int(bits: u32) -> u64 {
    unsafe { sym_int(bits) }
}
/// A number in lo..=hi (at most 255).
#[inline(never)]
pub fn digit(lo: u32, hi: u32) -> u64 {
    if lo == hi {
        lo as u64
    } else {
        unsafe { sym_digit(lo, hi) }
    }
}
/// Every number 0..=max, split by its decimal digits.
pub fn upto(max: u64) -> u64 {
    within(0, max)
}
/// Every number min..=max, where min is 0 or 1.
pub fn within(min: u32, max: u64) -> u64 {
    let mut ds = [0u64; 20];
    let mut len = 0;
    let mut m = max;
    while len == 0 || m > 0 {
        ds[len] = m % 10;
        m /= 10;
        len += 1;
    }
    // ds[len - 1] is the leading digit
    let n = 1 + choice(len as u32) as usize;
    let mut v = 0;
    if n < len {
        for i in 0..n {
            let lo = if i == 0 && n > 1 { 1 } else if i == 0 { min } else { 0 };
            v = v * 10 + digit(lo, 9);
        }
        return v;
    }
    // agrees with max on p digits, is smaller at the next
    let p = choice(len as u32 + 1) as usize;
    for i in 0..len {
        let d = ds[len - 1 - i];
        v = v * 10
            + if i < p {
                d
            } else if i == p {
                let lo = if i == 0 && len > 1 { 1 } else if i == 0 { min } else { 0 };
                assume(d > lo as u64);
                digit(lo, d as u32 - 1)
            } else {
                digit(0, 9)
            };
    }
    v
}
#[inline(never)]
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    unsafe { sym_bytes(b.as_mut_ptr(), N) };
    b
}
#[inline(never)]
pub fn bytes_vec(n: usize) -> Vec<u8> {
    let mut b = vec![0u8; n];
    unsafe { sym_bytes(b.as_mut_ptr(), n) };
    b
}
/// n bytes, each one of `set`.
#[inline(never)]
pub fn from_set(n: usize, set: &[u8]) -> Vec<u8> {
    let mut b = vec![0u8; n];
    if n > 0 {
        unsafe { sym_set(b.as_mut_ptr(), n, set.as_ptr(), set.len()) };
    }
    b
}
/// n ASCII characters, each one of `set`.
pub fn text(n: usize, set: &str) -> String {
    assert!(set.is_ascii());
    let b = from_set(n, set.as_bytes());
    // every byte is ASCII
    unsafe { String::from_utf8_unchecked(b) }
}
pub fn assume(c: bool) {
    unsafe { sym_assume(c as u32) }
}
#[cold]
#[inline(never)]
pub fn fail(msg: &str) -> ! {
    unsafe { sym_fail(msg.as_ptr(), msg.len()) }
}
#[inline(always)]
pub fn check(c: bool, msg: &str) {
    if !c {
        fail(msg)
    }
}
#[inline(never)]
pub fn log(s: &str) {
    unsafe { sym_log(s.as_ptr(), s.len()) }
}
pub fn log_num(n: u64) {
    let b = n.to_le_bytes();
    unsafe { sym_log(b.as_ptr(), 8) }
}
/// Marks that a path got here (guards against vacuous passes).
pub fn reach(id: u32) {
    unsafe { sym_reach(id) }
}
/// Is this the deep exploration?
pub fn thorough() -> bool {
    unsafe { sym_tier() == 1 }
}
pub fn show(x: &dyn fmt::Display) -> String {
    x.to_string()
}

/// All 7-bit characters.
pub const ASCII: &str = {
    const B: [u8; 128] = {
        let mut b = [0u8; 128];
        let mut i = 0;
        while i < 128 {
            b[i] = i as u8;
            i += 1;
        }
        b
    };
    match std::str::from_utf8(&B) {
        Ok(s) => s,
        Err(_) => "",
    }
};
