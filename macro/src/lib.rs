#![allow(dead_code, unused_imports, clippy::all)]
include!(concat!(env!("OUT_DIR"), "/root.rs"));

#[path = "../../harness/src/sx.rs"]
pub mod sx;
pub mod base;

macro_rules! props {
	($($f:literal $m:ident),* $(,)?) => {
		$(#[cfg(feature = $f)] pub mod $m;)*
		pub fn find(name: &str) -> Option<fn()> {
			$(#[cfg(feature = $f)] for (n, f) in $m::LIST { if *n == name { return Some(*f); } })*
			None
		}
	}
}
props!("p30" p30, "p31" p31);
