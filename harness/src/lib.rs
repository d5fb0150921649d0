#![allow(dead_code, unused_imports, clippy::all)]
#[cfg(feature = "ext")]
pub mod ext;
pub mod faulty;
#[cfg(any(feature = "p06", feature = "p07", feature = "p12", feature = "p16", feature = "p17", feature = "p18", feature = "p19", feature = "p20", feature = "p21", feature = "p22", feature = "p23", feature = "p24"))]
pub mod model;
pub mod sx;
pub mod sym;
pub mod types;
pub mod util;

macro_rules! props {
	($($f:literal $m:ident),* $(,)?) => {
		$(#[cfg(feature = $f)] pub mod $m;)*
		pub fn find(name: &str) -> Option<fn()> {
			let _ = name;
			$(#[cfg(feature = $f)] for (n, f) in $m::LIST { if *n == name { return Some(*f); } })*
			None
		}
	}
}
props!("p01" p01, "p02" p02, "p03" p03, "p04" p04, "p05" p05, "p06" p06, "p07" p07, "p08" p08, "p09" p09, "p10" p10, "p11" p11, "p12" p12, "p13" p13, "p14" p14, "p15" p15, "p16" p16, "p17" p17, "p18" p18, "p19" p19, "p20" p20, "p21" p21, "p22" p22, "p23" p23, "p24" p24, "p25" p25, "p26" p26, "p27" p27, "p29" p29);
