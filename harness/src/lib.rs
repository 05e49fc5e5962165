#![allow(dead_code, unused_imports, unused_variables, unused_mut)]
pub mod sym;
pub mod model;
#[macro_use]
pub mod conv;
#[macro_use]
pub mod targets;
pub mod visit;

pub struct H {
    pub name: &'static str,
    pub property: &'static str,
    pub params: usize,
    pub deep_params: usize,
    pub covers: &'static [&'static str],
    pub bounds: &'static str,
    /// Extra executor options of this harness ("steps=..").
    pub own: &'static str,
    pub run: fn(),
}

/// `harnesses! { "C01"; name(params, deep_params) [covers..] "bounds" "options" { body } ... }`
macro_rules! harnesses {
    ($prop:literal; $( $name:ident ($p:expr, $dp:expr) [$($c:literal),* $(,)?] $bounds:literal $own:literal $body:block )*) => {
        $( #[no_mangle] #[inline(never)] pub extern "C-unwind" fn $name() { $body } )*
        pub fn table() -> Vec<crate::H> {
            vec![ $( crate::H { name: stringify!($name), property: $prop, params: $p, deep_params: $dp, covers: &[$($c),*], bounds: $bounds, own: $own, run: || $name() } ),* ]
        }
    };
}

macro_rules! modules {
    ($($f:literal $m:ident),* $(,)?) => {
        $( #[cfg(feature = $f)] pub mod $m; )*
        pub fn table() -> Vec<H> {
            #[allow(unused_mut)]
            let mut v = vec![];
            $( #[cfg(feature = $f)] v.extend($m::table()); )*
            v
        }
    };
}
modules! {
    "c01" c01,
    "c02" c02,
    "c03" c03,
    "c04" c04,
    "c05" c05,
    "c06" c06,
    "c07" c07,
    "c08" c08,
    "c09" c09,
    "c10" c10,
    "c11" c11,
    "c12" c12,
    "c13" c13,
    "c14" c14,
    "c15" c15,
    "c16" c16,
    "c17" c17,
    "c18" c18,
    "c19" c19,
    "c20" c20,
    "c21" c21,
    "c22" c22,
    "c23" c23,
    "c24" c24,
    "c25" c25,
}
