//! Turns the derive crate's root into a module that works outside the compiler:
//! `proc_macro` becomes `proc_macro2`, and the modules are taken from /repo.
use std::fmt::Write;

fn main() {
	let dir = "/repo/revision-derive/src";
	let src = std::fs::read_to_string(format!("{dir}/lib.rs")).unwrap();
	let mut out = String::new();
	for l in src.lines() {
		let t = l.trim_start();
		if t.starts_with("//!") || t.starts_with("#![") || t.starts_with("///") || t.starts_with("#[proc_macro") {
			continue;
		}
		if let Some(m) = t.strip_prefix("mod ").or(t.strip_prefix("pub mod ")).and_then(|m| m.strip_suffix(';')) {
			let f = format!("{dir}/{m}.rs");
			let f = if std::path::Path::new(&f).exists() { f } else { format!("{dir}/{m}/mod.rs") };
			writeln!(out, "#[path = \"{f}\"]\npub mod {m};").unwrap();
			continue;
		}
		writeln!(out, "{}", l.replace("proc_macro::", "proc_macro2::")).unwrap();
	}
	std::fs::write(format!("{}/root.rs", std::env::var("OUT_DIR").unwrap()), out).unwrap();
	println!("cargo:rerun-if-changed={dir}");
}
