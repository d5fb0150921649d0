//! What a declaration expands to does not depend on how it is spelled, and the item is kept as written.
use crate::harnesses;
use crate::base::*;
use crate::sx;
use proc_macro2::{Ident, Span, TokenStream, TokenTree};
use quote::quote;

fn expand(attr: TokenStream, item: TokenStream) -> TokenStream {
	crate::revisioned(attr, item)
}
/// the same tokens
fn same(a: TokenStream, b: TokenStream) -> bool {
	let (mut a, mut b) = (a.into_iter(), b.into_iter());
	loop {
		match (a.next(), b.next()) {
			(None, None) => return true,
			(Some(x), Some(y)) => {
				if !same_tree(x, y) {
					return false;
				}
			}
			_ => return false,
		}
	}
}
fn same_tree(x: TokenTree, y: TokenTree) -> bool {
	match (x, y) {
		(TokenTree::Group(g), TokenTree::Group(h)) => g.delimiter() == h.delimiter() && same(g.stream(), h.stream()),
		(TokenTree::Ident(i), TokenTree::Ident(j)) => i == j,
		(TokenTree::Punct(p), TokenTree::Punct(q)) => p.as_char() == q.as_char(),
		(TokenTree::Literal(l), TokenTree::Literal(m)) => l.to_string() == m.to_string(),
		_ => false,
	}
}
fn alike(a: TokenStream, b: TokenStream) {
	sx::check(!compile_error(a.clone()) && !compile_error(b.clone()), "a declaration within the rules is rejected");
	sx::check(same(a, b), "two spellings of one declaration expand to different code");
	sx::cover("compared");
}
/// the tokens of `part`, one after another, somewhere at the top level of `whole`
fn contains(whole: TokenStream, part: TokenStream) -> bool {
	let w: Vec<TokenTree> = whole.into_iter().collect();
	let p: Vec<TokenTree> = part.into_iter().collect();
	let mut i = 0;
	while i + p.len() <= w.len() {
		let mut k = 0;
		while k < p.len() && same_tree(w[i + k].clone(), p[k].clone()) {
			k += 1;
		}
		if k == p.len() {
			return true;
		}
		i += 1;
	}
	false
}
fn at_most(n: u32) -> u32 {
	let v = sx::u8() as u32;
	sx::assume(v <= n);
	v
}
/// entries 1 ..= n in some order
fn entries(n: u32) -> TokenStream {
	let orders: &[[u32; 3]] = &[[1, 2, 3], [2, 3, 1]];
	let mut t = TokenStream::new();
	for r in orders[sx::pick(2)] {
		if r <= n {
			let e = entry(r, false);
			t.extend(quote! { #e, });
		}
	}
	t
}
fn life(n: u32) -> TokenStream {
	let mut t = TokenStream::new();
	if sx::flag() {
		let s = num(at_most(n));
		t.extend(quote! { #[revision(start = #s)] });
	}
	if sx::flag() {
		let e = num(at_most(n));
		t.extend(quote! { #[revision(end = #e, convert_fn = "gone")] });
	}
	t
}
fn switch(k: usize, name: &str) -> TokenStream {
	let id = Ident::new(name, Span::call_site());
	match k {
		0 => quote! {},
		1 => quote! { , #id = true },
		_ => quote! { , #id = false },
	}
}
/// the switches of an item, on the macro or on the item
fn switches(optimised: bool) {
	let (s, d, k, w) = (sx::pick(3), sx::pick(3), sx::pick(3), sx::pick(3));
	let (a, b, c, e) = (switch(s, "serialize"), switch(d, "deserialize"), switch(k, "skip"), switch(w, "walk"));
	let r = if optimised {
		quote! { revision(1, optimised) }
	} else {
		quote! { revision = 1 }
	};
	let out = if sx::flag() {
		expand(quote! { #r #a #b #c #e }, quote! { struct S { a: u8 } })
	} else {
		expand(quote! { #r }, quote! { #[revision(serialize = true #a #b #c #e)] struct S { a: u8 } })
	};
	let on = |k: usize, other: bool| if k == 0 { other } else { k == 1 };
	let (s, d) = (s != 2, d != 2);
	let has = |t: TokenStream| contains(out.clone(), quote! { impl ::revision::#t for S });
	sx::check(has(quote! { SerializeRevisioned }) == s, "the serialize switch is not honoured");
	sx::check(has(quote! { DeserializeRevisioned }) == d, "the deserialize switch is not honoured");
	sx::check(has(quote! { SkipRevisioned }) == on(k, d), "the skip switch is not honoured");
	sx::check(has(quote! { SkipCheckRevisioned }) == (on(k, d) && d), "the skip switch is not honoured");
	sx::check(has(quote! { WalkRevisioned }) == on(w, d), "the walk switch is not honoured");
	sx::check(has(quote! { Revisioned }), "the type has no revision");
	sx::cover("all looked up");
}

harnesses! {
	/// `revision = n` and n plain entries in any order
	fn h_syntax_struct() {
		let n = sx::pick(2) as u32 + 2;
		let (l, es) = (num(n), entries(n));
		let f = life(n);
		let i = quote! { struct S { #f a: u8, b: u16 } };
		alike(expand(quote! { revision = #l }, i.clone()), expand(es, i));
	}
	fn h_syntax_enum() {
		let n = 2;
		let (l, es) = (num(n), entries(n));
		let f = life(n);
		let i = if sx::flag() {
			quote! { enum E { A, #f B(u8), C { x: u16 } } }
		} else {
			quote! { enum E { A, C { #f x: u16, y: u8 } } }
		};
		alike(expand(quote! { revision = #l }, i.clone()), expand(es, i));
	}
	/// on the macro or on the item
	fn h_place() {
		let n = 2;
		let f = life(n);
		let h = if sx::flag() {
			let l = num(n);
			quote! { revision = #l }
		} else {
			let (e1, e2) = (entry(1, sx::flag()), entry(2, true));
			quote! { #e1, #e2 }
		};
		alike(
			expand(h.clone(), quote! { pub struct S { #f a: u8, b: u16 } }),
			expand(quote! {}, quote! { #[revision(#h)] pub struct S { #f a: u8, b: u16 } }),
		);
	}
	/// options of a field, together or apart, in any order
	fn h_split_field() {
		let (s, e) = (num(at_most(2)), num(at_most(2)));
		let (a, b, c, d) = (quote! { start = #s }, quote! { end = #e }, quote! { convert_fn = "gone" }, quote! { default_fn = "first" });
		let once = quote! { #[revision(#a, #b, #c, #d)] };
		let other = match sx::pick(4) {
			0 => quote! { #[revision(#d, #c, #b, #a)] },
			1 => quote! { #[revision(#a)] #[revision(#b, #c)] #[revision(#d)] },
			2 => quote! { #[revision(#c)] #[revision(#d)] #[revision(#a, #b)] },
			_ => quote! { #[revision(#b, #a, #d, #c,)] },
		};
		let at = match sx::pick(2) {
			0 => quote! { revision = 2 },
			_ => quote! { revision(1), revision(2, optimised) },
		};
		alike(
			expand(at.clone(), quote! { struct S { #once x: u8, y: u8 } }),
			expand(at, quote! { struct S { #other x: u8, y: u8 } }),
		);
	}
	fn h_split_variant() {
		let (s, e, v) = (num(at_most(2)), num(at_most(2)), num(each(2)));
		let (a, b, c) = (quote! { start = #s }, quote! { end = #e }, quote! { convert_fn = "gone" });
		let (d, f) = (quote! { size = "varlen" }, quote! { override(revision = 1, discriminant = #v) });
		let once = quote! { #[revision(#a, #b, #c, #d, #f)] };
		let other = match sx::pick(3) {
			0 => quote! { #[revision(#f, #d, #c, #b, #a)] },
			1 => quote! { #[revision(#a)] #[revision(#b, #c)] #[revision(#d)] #[revision(#f)] },
			_ => quote! { #[revision(override(discriminant = #v, revision = 1))] #[revision(#c)] #[revision(#a, #b)] #[revision(#d)] },
		};
		let at = quote! { revision = 2 };
		alike(
			expand(at.clone(), quote! { enum E { A, #once B(u8) } }),
			expand(at, quote! { enum E { A, #other B(u8) } }),
		);
	}
	/// the options of an entry
	fn h_split_entry() {
		let at = match sx::pick(3) {
			0 => quote! { revision(1, indexed_struct, optimised) },
			1 => quote! { revision(1, map = "default", optimised, seq = "default", indexed_struct) },
			_ => quote! { revision(1, optimised, indexed_struct,) },
		};
		let i = quote! { struct S { a: u8, b: u16 } };
		alike(expand(quote! { revision(1, optimised, indexed_struct) }, i.clone()), expand(at, i));
	}
	/// the struct, without what is gone and without the macro's own attributes
	fn h_item_struct() {
		let n = sx::pick(2) as u32 + 1;
		let (s, e) = (at_most(n), at_most(n + 1));
		sx::assume(e != 0);
		let (l, fs) = (num(n), opt("start", Some(s)));
		let end = num(e);
		let fe = if e <= n {
			quote! { #[revision(end = #end, convert_fn = "gone")] }
		} else {
			quote! {}
		};
		let there = alive(Some(s), if e <= n { Some(e) } else { None }, n);
		let (mark, field) = (quote! { #[mark(one)] }, quote! { #[mark(two)] pub(crate) });
		let own = quote! { #fs #fe };
		if sx::flag() {
			let f = if there {
				quote! { #field b: Vec<u8>, }
			} else {
				quote! {}
			};
			let out = expand(quote! { revision = #l }, quote! { #mark pub struct S { a: u8, #own #field b: Vec<u8>, pub c: [u8; 2] } });
			sx::check(contains(out, quote! { #mark pub struct S { a: u8, #f pub c: [u8; 2] } }), "the struct is not kept as written");
		} else {
			let f = if there {
				quote! { #field Vec<u8>, }
			} else {
				quote! {}
			};
			let out = expand(quote! { revision = #l }, quote! { #mark pub struct S(u8, #own #field Vec<u8>, pub [u8; 2]); });
			sx::check(contains(out, quote! { #mark pub struct S(u8, #f pub [u8; 2]); }), "the struct is not kept as written");
		}
		if there {
			sx::cover("kept");
		} else {
			sx::cover("gone");
		}
	}
	fn h_item_enum() {
		let n = sx::pick(2) as u32 + 1;
		let (s, e) = (at_most(n), at_most(n + 1));
		sx::assume(e != 0);
		let (l, fs) = (num(n), opt("start", Some(s)));
		let end = num(e);
		let fe = if e <= n {
			quote! { #[revision(end = #end, convert_fn = "gone")] }
		} else {
			quote! {}
		};
		let there = alive(Some(s), if e <= n { Some(e) } else { None }, n);
		let own = quote! { #fs #fe };
		if sx::flag() {
			let f = if there {
				quote! { #[mark(two)] B { x: u8, y: Vec<u8> }, }
			} else {
				quote! {}
			};
			let out = expand(quote! { revision = #l }, quote! { #[repr(u8)] pub enum E { A = 7, #own #[mark(two)] B { x: u8, y: Vec<u8> }, C(u8) } });
			sx::check(contains(out, quote! { #[repr(u8)] pub enum E { A = 7, #f C(u8) } }), "the enum is not kept as written");
		} else {
			let f = if there {
				quote! { #[mark(two)] x: Vec<u8>, }
			} else {
				quote! {}
			};
			let out = expand(quote! { revision = #l }, quote! { #[mark(one)] enum E { A, B { #own #[mark(two)] x: Vec<u8>, y: u8 }, #[mark(three)] C } });
			sx::check(contains(out, quote! { #[mark(one)] enum E { A, B { #f y: u8 }, #[mark(three)] C } }), "the enum is not kept as written");
		}
		if there {
			sx::cover("kept");
		} else {
			sx::cover("gone");
		}
	}
	fn h_switches() {
		switches(false);
	}
	fn h_switches_compact() {
		switches(true);
	}
}
