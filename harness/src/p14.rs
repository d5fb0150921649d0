//! Walking agrees with decoding under every sequence of choices.
use crate::harnesses;
use crate::sx;
use crate::sym::*;
use crate::util::*;
use revision::slice_reader::{BorrowedReader, SliceReader};
use std::borrow::Cow;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap};
use std::num::Wrapping;
use std::ops::{Bound, Range};
use std::path::PathBuf;
use std::sync::Arc;
use std::time::{Duration, SystemTime};

type R<'s> = SliceReader<'s>;

/// Walks with arbitrary choices, comparing what is seen with `want` (what decoding gave, if it
/// succeeded). `Ok(true)`: every part was decoded.
pub trait Ex: WalkRevisioned + DeserializeRevisioned + SkipRevisioned + Sym {
	fn explore<'r, 's: 'r>(w: Self::Walker<'r, R<'s>>, want: Option<&Self>) -> Result<bool, Error>;
	/// the same as a part of something larger, with fewer choices
	fn part<'r, 's: 'r>(w: Self::Walker<'r, R<'s>>, want: Option<&Self>) -> Result<bool, Error> {
		Self::explore(w, want)
	}
}
fn seen<T: Sym>(got: &T, want: Option<&T>) {
	if let Some(x) = want {
		sx::check(got.same(x), "walking gives another value than decoding");
	}
}
macro_rules! leaf {
	($t:ty, $w:expr, $want:expr) => {{
		let (w, want) = ($w, $want);
		match sx::pick(5) {
			0 => seen(&w.decode()?, want),
			1 => {
				w.skip()?;
				return Ok(false);
			}
			2 => seen(&w.walk()?.decode()?, want),
			3 => {
				let mut w = w;
				seen(&<$t>::deserialize_revisioned(w.reader())?, want)
			}
			_ => seen(&<$t>::deserialize_revisioned(w.into_reader())?, want),
		}
		Ok(true)
	}};
}
macro_rules! leaves {
	($($t:ty),*) => {$(
		impl Ex for $t {
			fn explore<'r, 's: 'r>(w: Self::Walker<'r, R<'s>>, want: Option<&Self>) -> Result<bool, Error> {
				leaf!($t, w, want)
			}
			fn part<'r, 's: 'r>(w: Self::Walker<'r, R<'s>>, want: Option<&Self>) -> Result<bool, Error> {
				seen(&w.decode()?, want);
				Ok(true)
			}
		}
	)*};
}
leaves!(bool, u8, i8, u16, u32, i32, u64, i64, u128, usize, f32, f64, char, Duration, SystemTime, (u8, bool), [u8; 3], Range<u16>, Bound<u8>);
macro_rules! texts {
	($($t:ty)*) => {$(
		impl Ex for $t {
			fn explore<'r, 's: 'r>(w: Self::Walker<'r, R<'s>>, want: Option<&Self>) -> Result<bool, Error> {
				if sx::flag() {
					return leaf!($t, w, want);
				}
				w.with_bytes(|b| {
					if let Some(x) = want {
						let x: &[u8] = text(x);
						sx::check(*b == *x, "the borrowed bytes are not the text's");
					}
				})?;
				Ok(false)
			}
			fn part<'r, 's: 'r>(w: Self::Walker<'r, R<'s>>, want: Option<&Self>) -> Result<bool, Error> {
				seen(&w.walk()?.decode()?, want);
				Ok(true)
			}
		}
	)*};
}
trait Text {
	fn text(&self) -> &[u8];
}
fn text<T: Text>(t: &T) -> &[u8] {
	t.text()
}
impl Text for String {
	fn text(&self) -> &[u8] {
		self.as_bytes()
	}
}
impl Text for Box<str> {
	fn text(&self) -> &[u8] {
		self.as_bytes()
	}
}
impl Text for Arc<str> {
	fn text(&self) -> &[u8] {
		self.as_bytes()
	}
}
impl Text for PathBuf {
	fn text(&self) -> &[u8] {
		self.as_os_str().as_encoded_bytes()
	}
}
texts!(String Box<str> Arc<str> PathBuf);

impl<T: Ex> Ex for Option<T> {
	fn explore<'r, 's: 'r>(w: Self::Walker<'r, R<'s>>, want: Option<&Self>) -> Result<bool, Error> {
		sx::check(w.is_some() != w.is_none(), "an option is both or neither");
		if let Some(x) = want {
			sx::check(w.is_some() == x.is_some(), "walking sees the other case of an option");
		}
		match sx::pick(3) {
			0 => seen(&w.decode()?, want),
			1 => {
				w.skip()?;
				return Ok(false);
			}
			_ => {
				if w.is_some() {
					return T::part(w.into_some()?, want.and_then(|x| x.as_ref()));
				}
				sx::check(w.into_some().is_err(), "walking into nothing succeeds");
			}
		}
		Ok(true)
	}
}
impl<T: Ex, E: Ex> Ex for Result<T, E> {
	fn explore<'r, 's: 'r>(w: Self::Walker<'r, R<'s>>, want: Option<&Self>) -> Result<bool, Error> {
		sx::check(w.is_ok() != w.is_err(), "a result is both or neither");
		if let Some(x) = want {
			sx::check(w.is_ok() == x.is_ok(), "walking sees the other case of a result");
		}
		match sx::pick(4) {
			0 => {
				let got = w.decode()?;
				if let Some(x) = want {
					sx::check(got.same(x), "walking gives another value than decoding");
				}
			}
			1 => {
				w.skip()?;
				return Ok(false);
			}
			2 => {
				if w.is_ok() {
					return T::part(w.into_ok()?, want.and_then(|x| x.as_ref().ok()));
				}
				sx::check(w.into_ok().is_err(), "walking into the other case succeeds");
				return Err(Error::IntegerOverflow);
			}
			_ => {
				if w.is_err() {
					return E::part(w.into_err()?, want.and_then(|x| x.as_ref().err()));
				}
				sx::check(w.into_err().is_err(), "walking into the other case succeeds");
				return Err(Error::IntegerOverflow);
			}
		}
		Ok(true)
	}
}
fn seq<'r, 's: 'r, T: Ex>(mut w: SeqWalker<'r, T, R<'s>>, want: Option<&Vec<T>>) -> Result<bool, Error> {
	let n = w.remaining();
	if let Some(x) = want {
		sx::check(n == x.len(), "walking sees another number of elements");
	}
	let mut all = true;
	let mut i = 0;
	loop {
		sx::check(w.remaining() == n - i, "the count of remaining elements is wrong");
		if sx::flag() {
			w.skip_remaining()?;
			return Ok(false);
		}
		let it = match w.next_item() {
			Some(it) => it,
			None => break,
		};
		let x = want.map(|v| &v[i]);
		match sx::pick(3) {
			0 => seen(&it.decode()?, x),
			1 => {
				it.skip()?;
				all = false;
			}
			_ => all &= T::part(it.walk()?, x)?,
		}
		i += 1;
	}
	sx::check(i == n, "walking does not yield every element");
	Ok(all)
}
macro_rules! vecs {
	($($t:ty)*) => {$(
		impl Ex for Vec<$t> {
			fn explore<'r, 's: 'r>(w: Self::Walker<'r, R<'s>>, want: Option<&Self>) -> Result<bool, Error> {
				seq::<$t>(w, want)
			}
		}
	)*};
}
vecs!(String Option<u8> Option<bool> Vec<Option<bool>> usize);
impl Ex for BTreeMap<u8, Option<u8>> {
	fn explore<'r, 's: 'r>(w: Self::Walker<'r, R<'s>>, _: Option<&Self>) -> Result<bool, Error> {
		map::<u8, Option<u8>>(w, None)
	}
}
fn map<'r, 's: 'r, K: Ex, V: Ex>(mut w: MapWalker<'r, K, V, R<'s>>, want: Option<&Vec<(K, V)>>) -> Result<bool, Error> {
	let n = w.remaining();
	if let Some(x) = want {
		sx::check(n == x.len(), "walking sees another number of entries");
	}
	let mut all = true;
	let mut i = 0;
	loop {
		sx::check(w.remaining() == n - i, "the count of remaining entries is wrong");
		if sx::flag() {
			w.skip_remaining()?;
			return Ok(false);
		}
		let mut e = match w.next_entry() {
			Some(e) => e,
			None => break,
		};
		let (kx, vx) = (want.map(|v| &v[i].0), want.map(|v| &v[i].1));
		match sx::pick(4) {
			0 => {
				let (k, v) = e.decode_pair()?;
				seen(&k, kx);
				seen(&v, vx);
			}
			1 => {
				e.skip_pair()?;
				all = false;
			}
			c => {
				if c == 2 {
					seen(&e.decode_key()?, kx);
				} else {
					e.skip_key()?;
					all = false;
				}
				match sx::pick(3) {
					0 => seen(&e.decode_value()?, vx),
					1 => {
						e.skip_value()?;
						all = false;
					}
					_ => all &= V::part(e.walk_value()?, vx)?,
				}
			}
		}
		i += 1;
	}
	sx::check(i == n, "walking does not yield every entry");
	Ok(all)
}

/// `flat`: the wire shape decoded as plain data
fn run<T, F>(s: &[u8], f: fn(&mut R<'_>, Option<&F>) -> Result<bool, Error>)
where
	T: DeserializeRevisioned,
	F: DeserializeRevisioned,
{
	let mut r = s;
	let whole = T::deserialize_revisioned(&mut r);
	let used = s.len() - r.len();
	let mut r = s;
	let flat = match whole {
		Ok(_) => F::deserialize_revisioned(&mut r).ok(),
		Err(_) => None,
	};
	let mut r = SliceReader::new(s);
	match (f(&mut r, flat.as_ref()), flat.is_some()) {
		(Ok(_), true) => {
			sx::cover("a walk over what decodes");
			sx::check(r.consumed_len() == used, "walking ends elsewhere than decoding");
		}
		(Ok(all), false) => sx::check(!all, "walking yields a value where decoding fails"),
		(Err(Error::IntegerOverflow), true) => {}
		(Err(_), true) => sx::fail("walking fails where decoding succeeds"),
		(Err(_), false) => {}
	}
	sx::observe(used as u64);
}
fn go<T: Ex, const N: usize>() {
	sx::allow_huge();
	let b = sx::bytes::<N>();
	run::<T, T>(&b[..sx::pick(N + 1)], |r, x| T::explore(T::walk_revisioned(r)?, x))
}
/// types that walk as another (`flat`: what their wire form decodes to as plain data)
macro_rules! go_as {
	($t:ty, $flat:ty, $n:expr, $explore:expr) => {{
		sx::allow_huge();
		const N: usize = $n;
		let b = sx::bytes::<N>();
		run::<$t, $flat>(&b[..sx::pick(N + 1)], |r, x| $explore(<$t>::walk_revisioned(r)?, x))
	}};
}
const fn b(n: usize, f: usize, d: usize) -> usize {
	bound(n, f, d)
}
fn bulk<T: WalkRevisioned>() {
	let d = sx::bytes::<10>();
	let mut r = SliceReader::new(&d);
	sx::check(T::walk_revisioned(&mut r).is_err(), "a vector in bulk encoding is walked element by element");
}
#[cfg(not(feature = "spec"))]
vecs!(u16 bool);

/// one byte in memory, more on the wire
#[revisioned(revision = 2)]
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
enum Kind {
	A,
	B,
}
#[revisioned(revision = 1)]
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
struct Small {
	k: bool,
}
/// derived items in a list or a map: any mix of decoding and skipping, stopping anywhere
fn derived<T: Copy + PartialEq + 'static + DeserializeRevisioned + SkipRevisioned + WalkRevisioned, const N: usize>() {
	sx::allow_huge();
	let d = sx::bytes::<N>();
	let s = &d[..sx::pick(N + 1)];
	let mut q = s;
	let want = <Vec<T>>::deserialize_revisioned(&mut q).ok();
	let mut r = SliceReader::new(s);
	let ok = (|| -> Result<(), Error> {
		let mut w = <Vec<T>>::walk_revisioned(&mut r)?;
		let mut i = 0;
		loop {
			if sx::flag() {
				return w.skip_remaining();
			}
			let it = match w.next_item() {
				Some(it) => it,
				None => return Ok(()),
			};
			if sx::flag() {
				let x = it.decode()?;
				if let Some(v) = &want {
					sx::check(v[i] == x, "walking gives another value than decoding");
				}
			} else {
				it.skip()?;
			}
			i += 1;
		}
	})();
	if want.is_some() {
		sx::cover("a list of derived items walked");
		sx::check(ok.is_ok(), "walking fails where decoding succeeds");
		sx::check(r.consumed_len() == s.len() - q.len(), "walking ends elsewhere than decoding");
	}
}
fn derived_map<K: 'static + Ord + DeserializeRevisioned + SkipRevisioned + WalkRevisioned, V: 'static + DeserializeRevisioned + SkipRevisioned + WalkRevisioned, const N: usize>() {
	sx::allow_huge();
	let d = sx::bytes::<N>();
	let s = &d[..sx::pick(N + 1)];
	let mut q = s;
	let want = <Vec<(K, V)>>::deserialize_revisioned(&mut q).is_ok();
	let mut r = SliceReader::new(s);
	let ok = (|| -> Result<(), Error> {
		let mut w = <BTreeMap<K, V>>::walk_revisioned(&mut r)?;
		loop {
			if sx::flag() {
				return w.skip_remaining();
			}
			let mut e = match w.next_entry() {
				Some(e) => e,
				None => return Ok(()),
			};
			match sx::pick(3) {
				0 => e.skip_pair()?,
				1 => {
					e.skip_key()?;
					e.skip_value()?;
				}
				_ => {
					e.decode_pair()?;
				}
			}
		}
	})();
	if want {
		sx::cover("a map of derived items walked");
		sx::check(ok.is_ok(), "walking fails where decoding succeeds");
		sx::check(r.consumed_len() == s.len() - q.len(), "walking ends elsewhere than decoding");
	}
}
harnesses! {
	fn h_vec_kind() { derived::<Kind, { b(6, 15, 8) }>() }
	fn h_vec_small() { derived::<Small, { b(6, 15, 8) }>() }
	fn h_map_kind() { derived_map::<Kind, u8, { b(7, 16, 8) }>() }
	fn h_map_small() { derived_map::<u8, Small, { b(7, 14, 8) }>() }
	fn h_map_char() { derived_map::<bool, char, { b(7, 14, 8) }>() }
	fn h_bool() { go::<bool, 2>() }
	fn h_u8() { go::<u8, 2>() }
	fn h_i8() { go::<i8, 2>() }
	fn h_u16() { go::<u16, 18>() }
	fn h_u32() { go::<u32, 18>() }
	fn h_i32() { go::<i32, 18>() }
	fn h_u64() { go::<u64, 18>() }
	fn h_i64() { go::<i64, 18>() }
	fn h_u128() { go::<u128, 18>() }
	fn h_usize() { go::<usize, 18>() }
	fn h_f32() { go::<f32, 5>() }
	fn h_f64() { go::<f64, 9>() }
	fn h_char() { go::<char, 5>() }
	fn h_duration() { go::<Duration, 14>() }
	fn h_system_time() { go::<SystemTime, 14>() }
	fn h_tuple() { go::<(u8, bool), 3>() }
	fn h_array() { go::<[u8; 3], 4>() }
	fn h_range() { go::<Range<u16>, 8>() }
	fn h_bound() { go::<Bound<u8>, 7>() }
	fn h_string() { go::<String, { b(7, 11, 8) }>() }
	fn h_box_str() { go::<Box<str>, { b(7, 11, 8) }>() }
	fn h_arc_str() { go::<Arc<str>, { b(7, 11, 8) }>() }
	fn h_pathbuf() { go::<PathBuf, { b(7, 11, 8) }>() }
	fn h_cow() { go_as!(Cow<'static, u32>, u32, 8, <u32>::explore) }
	fn h_option_u16() { go::<Option<u16>, 12>() }
	fn h_option_string() { go::<Option<String>, { b(7, 11, 8) }>() }
	fn h_option_option() { go::<Option<Option<u8>>, 4>() }
	fn h_option_vec() { go::<Option<Vec<Option<u8>>>, { b(6, 12, 8) }>() }
	fn h_option_map() {
		sx::allow_huge();
		const N: usize = b(6, 12, 7);
		let b = sx::bytes::<N>();
		run::<Option<BTreeMap<u8, Option<u8>>>, Option<Vec<(u8, Option<u8>)>>>(&b[..sx::pick(N + 1)], |r, x| {
			let w = Option::<BTreeMap<u8, Option<u8>>>::walk_revisioned(r)?;
			if w.is_some() { map::<u8, Option<u8>>(w.into_some()?, x.and_then(|x| x.as_ref())) } else { w.skip()?; Ok(true) }
		})
	}
	fn h_result() { go::<Result<u16, String>, { b(8, 14, 9) }>() }
	fn h_result_nested() { go::<Result<Option<u8>, Option<bool>>, 7>() }
	fn h_vec_usize() { go::<Vec<usize>, { b(5, 20, 7) }>() }
	fn h_vec_string() { go::<Vec<String>, { b(5, 18, 7) }>() }
	fn h_vec_option() { go::<Vec<Option<u8>>, { b(6, 12, 8) }>() }
	fn h_vec_vec() { go::<Vec<Vec<Option<bool>>>, { b(5, 19, 6) }>() }
	fn h_btreeset() { go_as!(BTreeSet<String>, Vec<String>, b(5, 18, 6), seq::<String>) }
	fn h_btreeset_usize() { go_as!(BTreeSet<usize>, Vec<usize>, b(4, 18, 6), seq::<usize>) }
	fn h_hashset() { go_as!(HSet<Option<u8>>, Vec<Option<u8>>, b(5, 12, 6), seq::<Option<u8>>) }
	fn h_heap() { go_as!(BinaryHeap<usize>, Vec<usize>, b(4, 18, 6), seq::<usize>) }
	fn h_btreemap() { go_as!(BTreeMap<u8, Option<u8>>, Vec<(u8, Option<u8>)>, b(6, 11, 7), map::<u8, Option<u8>>) }
	fn h_btreemap_string() { go_as!(BTreeMap<String, u8>, Vec<(String, u8)>, b(6, 17, 7), map::<String, u8>) }
	fn h_hashmap() { go_as!(HMap<u8, String>, Vec<(u8, String)>, b(4, 13, 5), map::<u8, String>) }
	fn h_box() { go_as!(Box<Option<u16>>, Option<u16>, 8, <Option<u16>>::explore) }
	fn h_arc() { go_as!(Arc<Vec<Option<u8>>>, Vec<Option<u8>>, b(5, 11, 6), <Vec<Option<u8>>>::explore) }
	fn h_wrapping() { go_as!(Wrapping<u32>, u32, 8, <u32>::explore) }
	fn h_reverse() { go_as!(Reverse<Option<u8>>, Option<u8>, 4, <Option<u8>>::explore) }
	fn h_bulk() {
		#[cfg(feature = "spec")]
		match sx::pick(13) {
			0 => bulk::<Vec<u8>>(), 1 => bulk::<Vec<i8>>(), 2 => bulk::<Vec<u16>>(), 3 => bulk::<Vec<i16>>(), 4 => bulk::<Vec<u32>>(), 5 => bulk::<Vec<i32>>(), 6 => bulk::<Vec<u64>>(),
			7 => bulk::<Vec<i64>>(), 8 => bulk::<Vec<u128>>(), 9 => bulk::<Vec<i128>>(), 10 => bulk::<Vec<f32>>(), 11 => bulk::<Vec<f64>>(), _ => bulk::<Vec<bool>>(),
		}
	
		#[cfg(not(feature = "spec"))]
		if sx::flag() { go::<Vec<u16>, { b(5, 12, 7) }>() } else { go::<Vec<bool>, { b(5, 12, 7) }>() }
	}
	// the positional walkers that derived code is built on
	fn h_struct_walker() {
		sx::allow_huge();
		const N: usize = b(6, 14, 8);
		let d = sx::bytes::<N>();
		let s = &d[..sx::pick(N + 1)];
		let mut r = s;
		let want = <(u16, Option<u8>, String)>::deserialize_revisioned(&mut r).ok();
		let used = s.len() - r.len();
		let mut r = SliceReader::new(s);
		let rev = sx::u16();
		let res = (|| -> Result<bool, Error> {
			let mut w = StructWalker::new(&mut r, rev);
			sx::check(w.revision() == rev && w.position() == 0, "the walker starts elsewhere");
			let mut all = true;
			match sx::pick(3) {
				0 => seen(&w.decode::<u16>()?, want.as_ref().map(|x| &x.0)),
				1 => { w.skip::<u16>()?; all = false }
				_ => all &= u16::explore(w.walk::<u16>()?, want.as_ref().map(|x| &x.0))?,
			}
			sx::check(w.position() == 1, "the field position is wrong");
			match sx::pick(3) {
				0 => seen(&w.decode::<Option<u8>>()?, want.as_ref().map(|x| &x.1)),
				1 => { w.skip::<Option<u8>>()?; all = false }
				_ => all &= Option::explore(w.walk::<Option<u8>>()?, want.as_ref().map(|x| &x.1))?,
			}
			sx::check(w.position() == 2, "the field position is wrong");
			match sx::pick(3) {
				0 => seen(&w.decode::<String>()?, want.as_ref().map(|x| &x.2)),
				1 => seen(&String::deserialize_revisioned(w.into_reader())?, want.as_ref().map(|x| &x.2)),
				_ => all &= String::explore(w.into_walk::<String>()?, want.as_ref().map(|x| &x.2))?,
			}
			Ok(all)
		})();
		match (res, want.is_some()) {
			(Ok(_), true) => {
				sx::cover("a struct walked");
				sx::check(r.consumed_len() == used, "walking ends elsewhere than decoding")
			}
			(Ok(all), false) => sx::check(!all, "walking yields a value where decoding fails"),
			(Err(_), true) => sx::fail("walking fails where decoding succeeds"),
			_ => {}
		}
	}
	fn h_enum_walker() {
		const N: usize = b(9, 14, 10);
		let d = sx::bytes::<N>();
		let s = &d[..sx::pick(N + 1)];
		let mut r = s;
		let want = <(u32, Option<u16>)>::deserialize_revisioned(&mut r).ok();
		let used = s.len() - r.len();
		let mut t = s;
		let disc = u32::deserialize_revisioned(&mut t).ok();
		let mut q = s;
		let d2 = read_enum_discriminant(&mut q).ok();
		sx::check(disc == d2 && t.len() == q.len(), "the discriminant is read differently");
		let mut r = SliceReader::new(s);
		let w = EnumWalker::new(&mut r, 7);
		sx::check(w.is_ok() == disc.is_some(), "the walker opens where the discriminant does not decode");
		if let Ok(w) = w {
			sx::check(w.revision() == 7 && Some(w.discriminant()) == disc, "the walker shows another header");
			let x = want.as_ref().map(|x| &x.1);
			let res = match sx::pick(4) {
				0 => w.decode::<Option<u16>>().map(|v| { seen(&v, x); true }),
				1 => w.skip::<Option<u16>>().map(|_| false),
				2 => Option::<u16>::deserialize_revisioned(w.into_reader()).map(|v| { seen(&v, x); true }),
				_ => w.into_walk::<Option<u16>>().and_then(|w| Option::explore(w, x)),
			};
			match (res, want.is_some()) {
				(Ok(_), true) => sx::check(r.consumed_len() == used, "walking ends elsewhere than decoding"),
				(Ok(all), false) => sx::check(!all, "walking yields a value where decoding fails"),
				(Err(_), true) => sx::fail("walking fails where decoding succeeds"),
				_ => {}
			}
		}
	}
}
