//! Declarations the macro accepts and rejects.
use crate::base::*;
use crate::harnesses;
use crate::sx;
use proc_macro2::{Ident, Literal, Span, TokenStream};
use quote::quote;

fn discriminants((r1, r2): (u32, u32), e: Option<u32>, (d1, d2): (u32, u32)) {
	let (o1, o2) = (over(Some((r1, d1))), over(Some((r2, d2))));
	let ce = match e {
		Some(n) => {
			let n = num(n);
			quote! { #[revision(end = #n, convert_fn = "gone")] }
		}
		None => quote! {},
	};
	let got = accepted(quote! { revision = 2 }, quote! { enum E { #o1 #ce A, #o2 B, C } });
	let o = [Some((r1, d1)), Some((r2, d2)), None];
	let mut want = true;
	for r in 1..=2 {
		want &= numbering([alive(None, e, r), true, true], o, r).is_some();
	}
	verdict(got, want);
}
fn many(x: bool, y: bool) {
	let n = sx::pick(2) + 31;
	let s = if sx::flag() { Some(2) } else { None };
	let (e1, e2, cs) = (entry(1, x), entry(2, y), opt("start", s));
	let mut t = TokenStream::new();
	for i in 0..n {
		let v = Ident::new(&format!("V{i}"), Span::call_site());
		t.extend(quote! { #[revision(size = "inline")] #v, });
	}
	let got = accepted(quote! { #e1, #e2 }, quote! { enum E { #t #[revision(size = "inline")] #cs Last } });
	let mut want = true;
	for (r, compact) in [(1, x), (2, y)] {
		want &= !compact || n + (alive(s, None, r) as usize) <= 32;
	}
	verdict(got, want);
}

harnesses! {
	/// `revision = n` with a field that starts and ends somewhere
	fn h_legacy_field() {
		let n = upto(4);
		let (s, e, c) = (maybe(6), maybe(6), sx::flag());
		let (l, fs, fe, fc) = (num(n), opt("start", s), opt("end", e), convert(c));
		let got = accepted(quote! { revision = #l }, quote! { struct S { #fs #fe #fc a: u8, b: u8 } });
		verdict(got, n >= 1 && s.unwrap_or(0) <= n && e.unwrap_or(0) <= n && (e.is_none() || c));
	}
	/// the same for a variant, and for a field of a variant
	fn h_legacy_variant() {
		let n = upto(3);
		let (s, e, c) = (maybe(4), maybe(4), sx::flag());
		let (l, fs, fe, fc) = (num(n), opt("start", s), opt("end", e), convert(c));
		let got = if sx::flag() {
			accepted(quote! { revision = #l }, quote! { enum S { A, #fs #fe #fc B(u8), C } })
		} else {
			accepted(quote! { revision = #l }, quote! { enum S { A, B { #fs #fe #fc x: u8, y: u8 } } })
		};
		verdict(got, n >= 1 && s.unwrap_or(0) <= n && e.unwrap_or(0) <= n && (e.is_none() || c));
	}
	/// entries in any order must number the revisions from 1 without gap or repetition
	fn h_entries() {
		let (a, b, c) = (upto(4), upto(4), upto(4));
		let (x, y, z) = (sx::flag(), sx::flag(), sx::flag());
		let k = sx::pick(3) + 1;
		let mut t = TokenStream::new();
		for (i, (n, o)) in [(a, x), (b, y), (c, z)].into_iter().enumerate() {
			if i < k {
				let e = entry(n, o);
				t.extend(quote! { #e, });
			}
		}
		let got = accepted(t, quote! { struct S { a: u8 } });
		let want = match k {
			1 => a == 1,
			2 => (a == 1 && b == 2) || (a == 2 && b == 1),
			_ => a != b && b != c && a != c && a >= 1 && b >= 1 && c >= 1 && a <= 3 && b <= 3 && c <= 3,
		};
		verdict(got, want);
	}
	/// exactly one source of revisions
	fn h_sources() {
		let (a, b, c) = (sx::pick(3), sx::pick(2), sx::flag());
		let mut t = TokenStream::new();
		let mut n = 0;
		if a > 0 {
			t.extend(quote! { revision = 1, });
			n += 1;
		}
		if a > 1 {
			t.extend(quote! { revision = 1, });
			n += 1;
		}
		if b > 0 {
			t.extend(quote! { revision(1), });
			n += 1;
		}
		let item = if c {
			n += 1;
			quote! { #[revision(revision = 1)] struct S { a: u8 } }
		} else {
			quote! { struct S { a: u8 } }
		};
		verdict(accepted(t, item), n == 1);
	}
	/// options that belong to the compact layout
	fn h_entry_options() {
		let (o, i) = (sx::flag(), sx::flag());
		let (m, s) = (sx::pick(4), sx::pick(4));
		let mut t = TokenStream::new();
		if o {
			t.extend(quote! { , optimised });
		}
		if i {
			t.extend(quote! { , indexed_struct });
		}
		match m {
			1 => t.extend(quote! { , map = "default" }),
			2 => t.extend(quote! { , map = "indexed" }),
			3 => t.extend(quote! { , map = "other" }),
			_ => {}
		}
		match s {
			1 => t.extend(quote! { , seq = "default" }),
			2 => t.extend(quote! { , seq = "indexed" }),
			3 => t.extend(quote! { , seq = "other" }),
			_ => {}
		}
		let got = accepted(quote! { revision(1 #t) }, quote! { struct S { a: u8, b: Vec<u8> } });
		verdict(got, (o || !i) && m < 2 && s < 2);
	}
	/// per-field encodings exclude one another, and the fixed one is for integers of 32 bits and more
	fn h_field_encodings() {
		let (m, s, t) = (sx::flag(), sx::flag(), sx::flag());
		let mut a = TokenStream::new();
		if m {
			a.extend(quote! { #[revision(indexed_map)] });
		}
		if s {
			a.extend(quote! { #[revision(indexed_seq)] });
		}
		if t {
			a.extend(quote! { #[revision(indexed_set)] });
		}
		let got = accepted(quote! { revision(1, optimised) }, quote! { struct S { #a a: T, b: u8 } });
		verdict(got, (m as u8) + (s as u8) + (t as u8) <= 1);
	}
	fn h_fixed_types() {
		let k = sx::pick(16);
		let ty = match k {
			0 => quote! { u32 },
			1 => quote! { i32 },
			2 => quote! { u64 },
			3 => quote! { i64 },
			4 => quote! { u128 },
			5 => quote! { i128 },
			6 => quote! { u8 },
			7 => quote! { i8 },
			8 => quote! { u16 },
			9 => quote! { i16 },
			10 => quote! { usize },
			11 => quote! { isize },
			12 => quote! { String },
			13 => quote! { ::core::primitive::u32 },
			14 => quote! { Option<u32> },
			_ => quote! { Alias },
		};
		let at = if sx::flag() {
			quote! { revision(1, optimised) }
		} else {
			quote! { revision = 1 }
		};
		verdict(accepted(at, quote! { struct S { #[revision(fixed)] a: #ty, b: u8 } }), k < 6);
	}
	/// an option given twice
	fn h_twice() {
		let (k, two) = (sx::pick(13), sx::flag());
		let x = match k {
			0 | 5 => quote! { start = 1 },
			1 | 6 => quote! { end = 2 },
			2 | 7 => quote! { convert_fn = "gone" },
			3 | 8 => quote! { default_fn = "first" },
			4 => quote! { fixed },
			9 => quote! { fields_name = "Fields" },
			10 => quote! { size = "varlen" },
			11 => quote! { indexed_map },
			_ => quote! { specialised },
		};
		let again = if two {
			quote! { #[revision(#x)] }
		} else {
			quote! {}
		};
		let c = if k == 1 || k == 6 {
			quote! { #[revision(convert_fn = "gone")] }
		} else {
			quote! {}
		};
		let item = if k >= 5 && k <= 10 {
			quote! { enum E { #[revision(#x)] #again #c A { a: u32 }, B } }
		} else {
			quote! { struct S { #[revision(#x)] #again #c a: u32, b: u8 } }
		};
		let got = accepted(quote! { revision = 2 }, item);
		verdict(got, !two);
	}
	/// numbers given to variants: distinct among those alive at the revision
	fn h_discriminants() {
		let at = [(1, 1), (1, 2), (2, 2), (0, 1)][sx::pick(4)];
		discriminants(at, None, (each(3), each(3)));
	}
	fn h_discriminants_ended() {
		let at = [(1, 1), (2, 2), (1, 2)][sx::pick(3)];
		discriminants(at, Some(sx::pick(2) as u32 + 1), (each(2), each(2)));
	}
	/// ... and below 32 at the revisions in the compact layout
	fn h_compact_discriminants() {
		let (r1, d1) = (sx::pick(2) as u32 + 1, [0, 2, 31, 32][sx::pick(4)]);
		let (x, y) = (sx::flag(), sx::flag());
		let (o1, e1, e2) = (over(Some((r1, d1))), entry(1, x), entry(2, y));
		let s = if sx::flag() { Some(2) } else { None };
		let cs = opt("start", s);
		let got = accepted(
			quote! { #e1, #e2 },
			quote! { enum E { #[revision(size = "inline")] #o1 #cs A, #[revision(size = "varlen")] B(u8), #[revision(size = "fixed(1)")] C(u8) } },
		);
		let o = [Some((r1, d1)), None, None];
		let mut want = true;
		for (r, compact) in [(1, x), (2, y)] {
			match numbering([alive(s, None, r), true, true], o, r) {
				None => want = false,
				Some(n) => want &= !compact || n.iter().all(|d| *d < 32),
			}
		}
		verdict(got, want);
	}
	/// a variant alive at a compact revision needs a size class, and no fields to be inline
	fn h_sizes() {
		let (x, y) = (sx::flag(), sx::flag());
		let (s, k) = (maybe(2), sx::pick(4));
		let fields = sx::pick(3);
		let (e1, e2, cs) = (entry(1, x), entry(2, y), opt("start", s));
		let size = match k {
			0 => quote! {},
			1 => quote! { #[revision(size = "inline")] },
			2 => quote! { #[revision(size = "varlen")] },
			_ => quote! { #[revision(size = "other")] },
		};
		let f = match fields {
			0 => quote! {},
			1 => quote! { (u8) },
			_ => quote! { { a: u8, b: u8 } },
		};
		let got = accepted(quote! { #e1, #e2 }, quote! { enum E { #[revision(size = "inline")] A, #cs #size B #f } });
		let seen = (x && alive(s, None, 1)) || (y && alive(s, None, 2));
		let want = match k {
			0 => !seen,
			1 => !(y && fields > 0),
			2 => true,
			_ => false,
		};
		// inline with fields at an old compact revision only: nothing can be read then; unspecified
		sx::assume(!(k == 1 && fields > 0 && x && !y));
		verdict(got, want);
	}
	/// `fixed(N)`: any text of up to four digits
	fn h_fixed_size() {
		let n = sx::pick(4) + 1;
		let d = sx::bytes::<4>();
		let mut v = 0u32;
		let mut t = String::from("fixed(");
		for b in &d[..n] {
			sx::assume(*b >= b'0' && *b <= b'9');
			v = v * 10 + (*b - b'0') as u32;
			t.push(*b as char);
		}
		t.push(')');
		let l = Literal::string(&t);
		let got = accepted(quote! { revision(1, optimised) }, quote! { enum E { #[revision(size = #l)] A(u8) } });
		verdict(got, v <= 255);
	}
	/// up to 32 variants at a compact revision
	fn h_many_first() {
		many(true, sx::flag());
	}
	fn h_many_last() {
		many(false, sx::flag());
	}
}
