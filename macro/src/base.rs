//! Shared by the harnesses.
use crate::sx;
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use quote::quote;

/// the macro's verdict
pub fn accepted(attr: TokenStream, item: TokenStream) -> bool {
	let out = crate::revisioned(attr, item);
	!compile_error(out)
}
pub fn compile_error(out: TokenStream) -> bool {
	for t in out {
		match t {
			TokenTree::Ident(i) => {
				if i == "compile_error" {
					return true;
				}
			}
			_ => {}
		}
	}
	false
}
pub fn num(n: u32) -> Literal {
	Literal::u32_unsuffixed(n)
}
pub fn upto(n: u32) -> u32 {
	let v = sx::u8() as u32;
	sx::assume(v <= n);
	v
}
/// the same, one path per value
pub fn each(n: u32) -> u32 {
	sx::concrete(upto(n) as usize) as u32
}
pub fn each_maybe(n: u32) -> Option<u32> {
	if sx::flag() {
		Some(each(n))
	} else {
		None
	}
}
pub fn verdict(got: bool, want: bool) {
	sx::check(got || !want, "a declaration within the rules is rejected");
	sx::check(!got || want, "a declaration that breaks a rule is accepted");
	if got {
		sx::cover("accepted");
	} else {
		sx::cover("rejected");
	}
	sx::observe(got as u64);
}
/// `#[revision(key = n)]`, or nothing
pub fn opt(key: &str, n: Option<u32>) -> TokenStream {
	match n {
		None => quote! {},
		Some(n) => {
			let (k, n) = (Ident::new(key, Span::call_site()), num(n));
			quote! { #[revision(#k = #n)] }
		}
	}
}
/// absent, or any of 0 ..= n
pub fn maybe(n: u32) -> Option<u32> {
	if sx::flag() {
		Some(upto(n))
	} else {
		None
	}
}
pub fn convert(there: bool) -> TokenStream {
	if there {
		quote! { #[revision(convert_fn = "gone")] }
	} else {
		quote! {}
	}
}
pub fn alive(s: Option<u32>, e: Option<u32>, r: u32) -> bool {
	s.unwrap_or(0) <= r && e.unwrap_or(u32::MAX) > r
}
/// one revision entry, compact or not
pub fn entry(n: u32, compact: bool) -> TokenStream {
	let n = num(n);
	if compact {
		quote! { revision(#n, optimised) }
	} else {
		quote! { revision(#n) }
	}
}
/// `#[revision(override(revision = r, discriminant = d))]`
pub fn over(o: Option<(u32, u32)>) -> TokenStream {
	match o {
		None => quote! {},
		Some((r, d)) => {
			let (r, d) = (num(r), num(d));
			quote! { #[revision(override(revision = #r, discriminant = #d))] }
		}
	}
}
/// The numbers of three variants at revision `r` (None: not alive, or in conflict), as documented:
/// the override, or the smallest number not in use, in the order of declaration.
pub fn numbering(alive: [bool; 3], o: [Option<(u32, u32)>; 3], r: u32) -> Option<[u32; 3]> {
	let mut used: Vec<u32> = Vec::new();
	let mut out = [0u32; 3];
	let mut fixed = [false; 3];
	for i in 0..3 {
		if let (true, Some((at, d))) = (alive[i], o[i]) {
			if at == r {
				if used.contains(&d) {
					return None;
				}
				used.push(d);
				out[i] = d;
				fixed[i] = true;
			}
		}
	}
	let mut next = 0;
	for i in 0..3 {
		if alive[i] && !fixed[i] {
			while used.contains(&next) {
				next += 1;
			}
			used.push(next);
			out[i] = next;
		}
	}
	Some(out)
}
