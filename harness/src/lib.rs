#![cfg_attr(not(feature = "replay"), no_std)]
#![allow(dead_code, unused_imports, non_snake_case)]
pub mod vf;
pub mod spec;
#[cfg(feature = "tls")]
pub mod tls;

/// Defines harness entry points and, for native replay, the table that finds them by name.
macro_rules! entries {
    ($($(#[$m:meta])* fn $n:ident() $b:block)*) => {
        $($(#[$m])* #[no_mangle] pub extern "C" fn $n() { $b; crate::vf::reach(stringify!($n)); })*
        #[cfg(feature = "replay")]
        pub const ENTRIES: &[(&str, extern "C" fn())] = &[$((stringify!($n), $n)),*];
    };
}
macro_rules! modules {
    ($($f:literal $n:ident)*) => {
        $(#[cfg(feature = $f)] pub mod $n;)*
        #[cfg(feature = "replay")]
        pub fn entries() -> Vec<(&'static str, extern "C" fn())> {
            let mut v: Vec<(&'static str, extern "C" fn())> = vec![];
            $(#[cfg(feature = $f)] v.extend_from_slice($n::ENTRIES);)*
            v
        }
    };
}
modules!("c01" c01 "c02" c02 "c03" c03 "c04" c04 "c05" c05 "c06" c06 "c08" c08 "c09" c09 "c11" c11 "c13" c13 "c10" c10 "t01" t01 "t02" t02 "t03" t03 "t04" t04 "t05" t05 "t06" t06 "t07" t07 "t08" t08 "t09" t09 "t10" t10 "t11" t11 "t12" t12 "t13" t13);
