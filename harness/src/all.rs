// Shared by the symbolic build (lib.rs) and the native replay build (../native).
// A module per property, each behind a feature of its own.
macro_rules! list {
    ($($n:ident),* $(,)?) => {
        pub const ALL: &[(&str, extern "C" fn())] = &[$((stringify!($n), $n)),*];
    };
}
macro_rules! properties {
    ($($f:literal $m:ident)*) => {
        $(#[cfg(feature = $f)] pub mod $m;)*
        pub fn find(name: &str) -> Option<extern "C" fn()> {
            $(#[cfg(feature = $f)]
            if let Some(x) = $m::ALL.iter().find(|x| x.0 == name) {
                return Some(x.1);
            })*
            None
        }
    };
}
pub mod geo;
pub mod gr;
#[cfg(all(feature = "p20", not(feature = "p19")))]
pub mod p19;
properties! {
    "p01" p01
    "p02" p02
    "p03" p03
    "p04" p04
    "p05" p05
    "p06" p06
    "p07" p07
    "p08" p08
    "p09" p09
    "p10" p10
    "p11" p11
    "p12" p12
    "p13" p13
    "p14" p14
    "p15" p15
    "p16" p16
    "p17" p17
    "p18" p18
    "p19" p19
    "p20" p20
    "p21" p21
    "p23" p23
    "p24" p24
    "p26" p26
    "p25" p25
    "p27" p27
    "p28" p28
    "p30" p30
}
