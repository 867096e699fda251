#![allow(dead_code)]
pub mod sym;

macro_rules! entries {
    ($($n:ident),* $(,)?) => {
        pub const TABLE: &[(&str, fn())] = &[$((stringify!($n), $n as fn())),*];
        pub mod ir {
            $(#[no_mangle] pub extern "C" fn $n() { super::$n() })*
        }
    };
}
pub(crate) use entries;

pub mod text;
pub mod texts;
pub mod util;

macro_rules! props {
    ($($f:literal $m:ident),* $(,)?) => {
        $(#[cfg(feature = $f)] pub mod $m;)*
        pub fn tables() -> Vec<&'static [(&'static str, fn())]> {
            #[allow(unused_mut)]
            let mut v: Vec<&'static [(&'static str, fn())]> = vec![];
            $(#[cfg(feature = $f)] v.push($m::TABLE);)*
            v
        }
    };
}
props!(
    "p01" p01,
    "p02" p02,
    "p03" p03,
    "p04" p04,
    "p05" p05,
    "p06" p06,
    "p07" p07,
    "p08" p08,
    "p09" p09,
    "p10" p10,
    "p11" p11,
    "p12" p12,
    "p13" p13,
    "p14" p14,
    "p15" p15,
    "p16" p16,
    "p17" p17,
    "p18" p18,
    "p19" p19,
    "p20" p20,
    "p21" p21,
    "p22" p22,
    "p23" p23,
    "p24" p24,
    "p25" p25,
    "p26" p26,
    "p27" p27,
);
