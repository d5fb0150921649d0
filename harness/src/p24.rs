//! A type that switches layout: what older programs wrote decodes to the same logical value, and a
//! compact payload is exactly as long as its tag says.
use crate::model::{few, text};
use crate::sx;
use crate::sym::*;
use crate::util::*;
use revision::optimised::envelope::{read_optimised_tag, skip_varlen, skip_varlen_borrowed};
use revision::optimised::tag::SizeClass;
use std::collections::BTreeMap;

/// The same types as programs of different ages declare them.
macro_rules! enums {
	($m:ident $name:ident $($rev:tt)*) => {
		pub mod $m {
			use super::*;
			#[revisioned($($rev)*)]
			#[derive(PartialEq)]
			pub enum $name {
				#[revision(size = "inline")]
				A,
				#[revision(size = "fixed(1)")]
				B(u8),
				#[revision(size = "fixed(8)")]
				C(f64),
				#[revision(size = "fixed(5)")]
				D { x: bool, y: [u8; 4] },
				#[revision(size = "varlen")]
				F(u64),
				#[revision(size = "varlen")]
				G { s: String, t: Option<i32> },
				#[revision(size = "varlen")]
				H(Vec<bool>, u16),
				#[revision(size = "varlen")]
				I(Box<$name>),
			}
		}
	};
}
enums!(el E revision(1));
enums!(eo E revision(1), revision(2, optimised));
enums!(ep E revision(1), revision(2, optimised), revision(3, optimised));
enums!(eq E revision(1, optimised));
macro_rules! fix {
	($($m:ident)*) => { $(impl PartialEq<Le> for $m::E {
		fn eq(&self, o: &Le) -> bool {
			use $m::E::*;
			match (self, o) {
				(A, Le::A) => true,
				(B(x), Le::B(y)) => x == y,
				(C(x), Le::C(y)) => x.to_bits() == *y,
				(D { x, y }, Le::D(p, q)) => x == p && y == q,
				(F(x), Le::F(y)) => x == y,
				(G { s, t }, Le::G(p, q)) => s == p && t == q,
				(H(v, n), Le::H(w, k)) => v == w && n == k,
				(I(x), Le::I(y)) => **x == **y,
				_ => false,
			}
		}
	}
	impl Make for $m::E {
		type L = Le;
		fn make(l: &Le) -> Self {
			use $m::E::*;
			match l {
				Le::A => A,
				Le::B(y) => B(*y),
				Le::C(y) => C(f64::from_bits(*y)),
				Le::D(p, q) => D { x: *p, y: *q },
				Le::F(y) => F(*y),
				Le::G(p, q) => G { s: p.clone(), t: *q },
				Le::H(w, k) => H(w.clone(), *k),
				Le::I(y) => I(Box::new(Self::make(y))),
			}
		}
		fn is(&self, l: &Le) -> bool { self == l }
	})* };
}
/// A value as the user sees it, whatever the layout.
pub trait Make: SerializeRevisioned + DeserializeRevisioned + SkipRevisioned + SkipCheckRevisioned {
	type L;
	fn make(l: &Self::L) -> Self;
	fn is(&self, l: &Self::L) -> bool;
}
pub enum Le {
	A,
	B(u8),
	C(u64),
	D(bool, [u8; 4]),
	F(u64),
	G(String, Option<i32>),
	H(Vec<bool>, u16),
	I(Box<Le>),
}
fix!(el eo ep eq);
fn small_le() -> Le {
	match sx::pick(4) {
		0 => Le::A,
		1 => Le::B(u8::sym()),
		2 => Le::D(bool::sym(), sx::bytes::<4>()),
		_ => Le::F(u64::sym()),
	}
}
fn le() -> Le {
	match sx::pick(6) {
		0 => small_le(),
		1 => Le::C(u64::sym()),
		2 => Le::G(text(), Option::<i32>::sym()),
		3 => Le::H(few::<bool>(2), u16::sym()),
		4 => Le::H((0..9).map(|_| bool::sym()).collect(), 7),
		_ => Le::I(Box::new(small_le())),
	}
}
macro_rules! structs {
	($($m:ident $e:ident ($($rev:tt)*);)*) => { $(
		pub mod $m {
			use super::*;
			#[revisioned($($rev)*)]
			pub struct S {
				pub a: u32,
				pub s: String,
				pub v: Vec<u16>,
				pub b: bool,
			}
			#[revisioned($($rev)*)]
			pub struct T(pub u64, pub i16, pub Option<u8>);
			#[revisioned($($rev)*)]
			pub struct N {
				pub e: $e::E,
				pub t: T,
				pub v: Vec<$e::E>,
				pub m: BTreeMap<u8, T>,
			}
		}
		impl Make for $m::S {
			type L = (u32, String, Vec<u16>, bool);
			fn make(l: &Self::L) -> Self { Self { a: l.0, s: l.1.clone(), v: l.2.clone(), b: l.3 } }
			fn is(&self, l: &Self::L) -> bool { self.a == l.0 && self.s == l.1 && self.v == l.2 && self.b == l.3 }
		}
		impl Make for $m::T {
			type L = (u64, i16, Option<u8>);
			fn make(l: &Self::L) -> Self { Self(l.0, l.1, l.2) }
			fn is(&self, l: &Self::L) -> bool { self.0 == l.0 && self.1 == l.1 && self.2 == l.2 }
		}
		impl Make for $m::N {
			type L = (Le, (u64, i16, Option<u8>), Vec<Le>, Option<(u8, (u64, i16, Option<u8>))>);
			fn make(l: &Self::L) -> Self {
				Self {
					e: $e::E::make(&l.0),
					t: $m::T::make(&l.1),
					v: l.2.iter().map($e::E::make).collect(),
					m: l.3.iter().map(|(k, t)| (*k, $m::T::make(t))).collect(),
				}
			}
			fn is(&self, l: &Self::L) -> bool {
				self.e.is(&l.0) && self.t.is(&l.1) && self.v.len() == l.2.len() && self.v.iter().zip(&l.2).all(|(a, b)| a.is(b))
					&& match &l.3 {
						None => self.m.is_empty(),
						Some((k, t)) => self.m.len() == 1 && self.m.get(k).is_some_and(|x| x.is(t)),
					}
			}
		}
	)* };
}
structs! {
	sl el (revision(1));
	so eo (revision(1), revision(2, optimised));
	sx3 ep (revision(1), revision(2, optimised), revision(3, optimised, indexed_struct));
	sb eo (revision(1), revision(2, optimised), revision(3, optimised, indexed_struct), revision(4, optimised));
	si ep (revision(1), revision(2, optimised, indexed_struct));
	sn el (revision(1), revision(2, optimised), revision(3));
	sq eq (revision(1, optimised), revision(2, optimised, indexed_struct));
}

/// What `Old` wrote, `New` reads as the same logical value, and skips exactly.
fn reads<Old: Make, New: Make<L = Old::L>>(l: &Old::L) {
	let mut s = ser(&Old::make(l));
	let n = s.len();
	s.push(sx::u8());
	let mut r = &s[..];
	match New::deserialize_revisioned(&mut r) {
		Ok(v) => sx::check(v.is(l) && r.len() == 1, "an older program's value decodes to another one"),
		Err(_) => sx::fail("an older program's value is rejected"),
	}
	let mut r = &s[..];
	sx::check(New::skip_revisioned(&mut r).is_ok() && r.len() == 1, "skipping an older program's value ends elsewhere");
	let mut r = &s[..];
	sx::check(New::skip_check_revisioned(&mut r).is_ok() && r.len() == 1, "the checking skip of an older program's value ends elsewhere");
	let mut r = revision::slice_reader::SliceReader::new(&s);
	sx::check(New::skip_revisioned_slice(&mut r).is_ok() && r.consumed_len() == n, "the slice skip of an older program's value ends elsewhere");
	sx::observe_bytes(&s);
}
/// The payload of a compact enum is as long as its tag says, without knowing the type.
fn sized<E: Make<L = Le> + Revisioned>(l: &Le) {
	let s = ser(&E::make(l));
	let mut r = &s[..];
	sx::check(u16::deserialize_revisioned(&mut r).ok() == Some(E::revision()), "the revision is not written first");
	let (tag, class) = match read_optimised_tag(&mut r) {
		Ok(x) => x,
		Err(_) => sx::fail("a written tag is not valid"),
	};
	let (id, want) = match l {
		Le::A => (0, Some(0)),
		Le::B(_) => (1, Some(1)),
		Le::C(_) => (2, Some(8)),
		Le::D(..) => (3, Some(5)),
		Le::F(_) => (4, None),
		Le::G(..) => (5, None),
		Le::H(..) => (6, None),
		Le::I(_) => (7, None),
	};
	sx::check(tag.variant_id() == id, "the tag names another variant");
	match (class, want) {
		(SizeClass::Inline, Some(0)) => sx::check(r.is_empty(), "an inline variant has a payload"),
		(SizeClass::Fixed, Some(n)) => sx::check(n > 0 && r.len() == n, "a fixed payload is not as long as declared"),
		(SizeClass::Varlen, None) => {
			let mut q = r;
			sx::check(skip_varlen(&mut q).is_ok() && q.is_empty(), "the length of a payload is not the bytes written");
			sx::check(skip_varlen_borrowed(&mut r).is_ok() && r.is_empty(), "the length of a payload is not the bytes written");
		}
		_ => sx::fail("the size class is not the declared one"),
	}
}
/// The payload of a compact struct is as long as its length prefix says.
fn enveloped<S: Make + Revisioned>(l: &S::L) {
	let s = ser(&S::make(l));
	let mut r = &s[..];
	sx::check(u16::deserialize_revisioned(&mut r).ok() == Some(S::revision()), "the revision is not written first");
	sx::check(skip_varlen(&mut r).is_ok() && r.is_empty(), "the length of a payload is not the bytes written");
}
fn s() -> (u32, String, Vec<u16>, bool) {
	(u32::sym(), text(), few::<u16>(2), bool::sym())
}
fn t() -> (u64, i16, Option<u8>) {
	(u64::sym(), i16::sym(), Option::<u8>::sym())
}
fn n() -> (Le, (u64, i16, Option<u8>), Vec<Le>, Option<(u8, (u64, i16, Option<u8>))>) {
	// one wide part at a time
	let k = sx::pick(4);
	let small = || (9u64, -3i16, Some(1u8));
	(
		if k == 0 { le() } else { Le::B(u8::sym()) },
		if k == 1 { t() } else { small() },
		if k == 2 { (0..sx::pick(3)).map(|_| small_le()).collect() } else { vec![Le::A] },
		if k == 3 { Some((u8::sym(), (u64::sym(), 4, None))) } else { None },
	)
}
/// payloads of every order of magnitude a declared size has
#[revisioned(revision(1), revision(2, optimised))]
pub enum Big {
	#[revision(size = "fixed(31)")]
	A([u8; 31]),
	#[revision(size = "fixed(32)")]
	B([u8; 32]),
	#[revision(size = "fixed(64)")]
	C([u8; 32], [u8; 32]),
	#[revision(size = "fixed(127)")]
	D([u8; 32], [u8; 32], [u8; 32], [u8; 31]),
	#[revision(size = "fixed(128)")]
	E([u8; 32], [u8; 32], [u8; 32], [u8; 32]),
	#[revision(size = "fixed(255)")]
	F { a: [u8; 32], b: [u8; 32], c: [u8; 32], d: [u8; 32], e: [u8; 32], f: [u8; 32], g: [u8; 32], h: [u8; 31] },
	#[revision(size = "varlen")]
	G([u8; 32], [u8; 32], [u8; 32], [u8; 32], [u8; 32], [u8; 32], [u8; 32], [u8; 32]),
}
fn arr<const N: usize>(fill: u8) -> [u8; N] {
	let mut a = [fill; N];
	a[0] = sx::u8();
	a[N - 1] = sx::u8();
	a
}
fn big() -> (Big, usize) {
	match sx::pick(7) {
		0 => (Big::A(arr(1)), 31),
		1 => (Big::B(arr(2)), 32),
		2 => (Big::C(arr(3), arr(4)), 64),
		3 => (Big::D(arr(5), arr(6), arr(7), arr(8)), 127),
		4 => (Big::E(arr(5), arr(6), arr(7), arr(8)), 128),
		5 => (Big::F { a: arr(1), b: arr(2), c: arr(3), d: arr(4), e: arr(5), f: arr(6), g: arr(7), h: arr(8) }, 255),
		_ => (Big::G(arr(1), arr(2), arr(3), arr(4), arr(5), arr(6), arr(7), arr(8)), 256),
	}
}
fn large() {
	let (v, n) = big();
	let mut s = ser(&v);
	sx::check(n == 256 || s.len() == ser(&Big::revision()).len() + 1 + n, "a fixed payload is not as long as declared");
	let body = ser(&v);
	let total = s.len();
	s.push(sx::u8());
	let mut r = &s[..];
	match Big::deserialize_revisioned(&mut r) {
		Ok(w) => sx::check(r.len() == 1 && ser(&w) == body, "a large payload decodes to another value"),
		Err(_) => sx::fail("a large payload is rejected"),
	}
	let mut r = &s[..];
	sx::check(Big::skip_revisioned(&mut r).is_ok() && r.len() == 1, "skipping a large payload ends elsewhere");
	let mut r = revision::slice_reader::SliceReader::new(&s);
	sx::check(Big::skip_revisioned_slice(&mut r).is_ok() && r.consumed_len() == total, "the slice skip of a large payload ends elsewhere");
	// cut short anywhere
	let cut = sx::concrete(sx::pick(total));
	let mut r = &s[..cut];
	sx::check(Big::deserialize_revisioned(&mut r).is_err(), "a large payload cut short decodes");
	let mut r = &s[..cut];
	sx::check(Big::skip_revisioned(&mut r).is_err(), "a large payload cut short is skipped");
}
/// fields and variants that come and go while the layout changes
fn both<M: crate::model::Model>() {
	if sx::flag() {
		crate::model::evolves::<M>()
	} else {
		crate::model::skips_written::<M>()
	}
}
crate::harnesses! {
	fn h_large() { large() }
	fn h_ev_os() { both::<crate::model::Os>() }
	fn h_ev_oc() { both::<crate::model::Oc>() }
	fn h_ev_ot() { both::<crate::model::Ot>() }
	fn h_ev_oi() { both::<crate::model::Oi>() }
	fn h_ev_or() { both::<crate::model::Or>() }
	fn h_ev_on() { both::<crate::model::On>() }
	fn h_ev_oe() { both::<crate::model::Oe>() }
	fn h_ev_ow() { both::<crate::model::Ow>() }
	fn h_ev_ol() { both::<crate::model::Ol>() }
	fn h_s_lo() { reads::<sl::S, so::S>(&s()) }
	fn h_s_lx() { reads::<sl::S, sx3::S>(&s()) }
	fn h_s_ox() { reads::<so::S, sx3::S>(&s()) }
	fn h_s_xb() { reads::<sx3::S, sb::S>(&s()) }
	fn h_s_lb() { reads::<sl::S, sb::S>(&s()) }
	fn h_s_li() { reads::<sl::S, si::S>(&s()) }
	fn h_s_on() { reads::<so::S, sn::S>(&s()) }
	fn h_t_lo() { reads::<sl::T, so::T>(&t()) }
	fn h_t_lx() { reads::<sl::T, sx3::T>(&t()) }
	fn h_t_ox() { reads::<so::T, sx3::T>(&t()) }
	fn h_t_xb() { reads::<sx3::T, sb::T>(&t()) }
	fn h_t_li() { reads::<sl::T, si::T>(&t()) }
	fn h_t_on() { reads::<so::T, sn::T>(&t()) }
	fn h_n_lo() { reads::<sl::N, so::N>(&n()) }
	fn h_n_lx() { reads::<sl::N, sx3::N>(&n()) }
	fn h_n_ox() { reads::<so::N, sx3::N>(&n()) }
	fn h_n_xb() { reads::<so::N, sb::N>(&n()) }
	fn h_n_li() { reads::<sl::N, si::N>(&n()) }
	fn h_e_lo() { reads::<el::E, eo::E>(&le()) }
	fn h_e_lp() { reads::<el::E, ep::E>(&le()) }
	fn h_e_op() { reads::<eo::E, ep::E>(&le()) }
	fn h_e_qq() { reads::<eq::E, eq::E>(&le()) }
	fn h_size_eo() { sized::<eo::E>(&le()) }
	fn h_size_ep() { sized::<ep::E>(&le()) }
	fn h_size_eq() { sized::<eq::E>(&le()) }
	fn h_len_so() { enveloped::<so::S>(&s()); enveloped::<sx3::S>(&s()) }
	fn h_len_to() { enveloped::<so::T>(&t()); enveloped::<sx3::T>(&t()) }
	fn h_len_no() { enveloped::<so::N>(&n()) }
	fn h_len_nx() { enveloped::<sx3::N>(&n()) }
	fn h_len_nq() { enveloped::<sq::N>(&n()) }
}
