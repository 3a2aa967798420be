#[macro_use]
pub mod hooks;
pub mod model;
pub mod class;
pub mod gen;
pub mod large;
pub mod places;
pub mod shapes;
pub mod util;

macro_rules! harnesses {
    ($($feat:literal $m:ident $sym:ident;)*) => {
        $(#[cfg(feature = $feat)] pub mod $m;
          #[cfg(all(feature = $feat, not(feature = "native")))]
          #[no_mangle] pub extern "C" fn $sym() { $m::run() })*
        pub fn lookup(name: &str) -> Option<fn()> {
            match name {
                $(#[cfg(feature = $feat)] $feat => Some($m::run as fn()),)*
                _ => None,
            }
        }
    };
}

harnesses! {
    "c01" c01 h_c01;
    "c02" c02 h_c02;
    "c03" c03 h_c03;
    "c04" c04 h_c04;
    "c05" c05 h_c05;
    "c06" c06 h_c06;
    "c07" c07 h_c07;
    "c08" c08 h_c08;
    "c09" c09 h_c09;
    "c10" c10 h_c10;
    "c11" c11 h_c11;
    "c12" c12 h_c12;
    "c13" c13 h_c13;
    "c14" c14 h_c14;
    "c15" c15 h_c15;
    "c16" c16 h_c16;
    "c17" c17 h_c17;
    "c18" c18 h_c18;
    "c19" c19 h_c19;
    "c20" c20 h_c20;
}
