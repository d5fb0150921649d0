//! Arbitrary payloads: the indexed readers, decoders and skips are total.
use crate::harnesses;
use crate::sx;
use crate::sym::*;
use crate::util::*;
use revision::optimised::indexed::*;
use revision::optimised::{IndexedMapWalker, IndexedSeqWalker, IndexedStructWalker};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};

fn any_order() -> Ordering {
	match sx::pick(3) {
		0 => Ordering::Less,
		1 => Ordering::Equal,
		_ => Ordering::Greater,
	}
}
fn inside(part: &[u8], whole: &[u8]) -> bool {
	let (a, b) = (part.as_ptr() as usize, whole.as_ptr() as usize);
	part.is_empty() || (a >= b && a + part.len() <= b + whole.len())
}
fn use_map(w: &IndexedMapWalker<'_, u8, u8>, s: &[u8], validated: bool) {
	match sx::pick(3) {
		0 => {
			if let Some(it) = w.entries() {
				let mut last: Option<&[u8]> = None;
				let mut prev: Option<(&[u8], &[u8])> = None;
				let mut n = 0;
				for (k, v) in it {
					if let (true, Some((pk, pv))) = (validated, prev) {
						let end = |b: &[u8]| b.as_ptr() as usize + b.len();
						sx::check(end(pk) == k.as_ptr() as usize && end(pv) == v.as_ptr() as usize, "entries of a validated map do not follow one another");
					}
					prev = Some((k, v));
					sx::check(inside(k, s) && inside(v, s), "an entry lies outside the payload");
					if validated {
						sx::check(last.map_or(true, |p| *p < *k), "a validated map yields keys out of order");
						last = Some(k);
					}
					n += 1;
				}
				sx::check(n == w.len(), "iteration does not match the entry count");
				sx::cover("entries");
			}
			if let Some(b) = w.legacy_body() {
				sx::check(inside(b, s), "the body lies outside the payload");
			}
		}
		1 => {
			if let Ok(Some(v)) = w.find_value_bytes(|_| any_order()) {
				sx::check(inside(v, s), "a value lies outside the payload");
				sx::cover("a value");
			}
		}
		_ => {
			let h = if sx::flag() { Some(sx::u32()) } else { None };
			if let Ok(l) = w.find_value_bytes_with_hint(h, |_| any_order()) {
				if let Some(v) = l.value {
					sx::check(inside(v, s), "a value lies outside the payload");
				}
			}
		}
	}
	sx::observe(w.len() as u64);
}
const M: usize = if cfg!(feature = "deep") { 40 } else { 31 };
fn payload<const N: usize>(b: &[u8; N]) -> &[u8] {
	&b[..sx::pick(N + 1)]
}
/// Input of a decoder: without an offset table every byte may be an element, so the bound is lower.
fn input<const N: usize>(b: &[u8; N], plain: usize) -> &[u8] {
	let s = payload(b);
	if !s.is_empty() && s[0] & 1 == 0 {
		sx::assume(s.len() <= plain);
	}
	s
}
/// The length prefix at `at`: its value and the position after it.
fn prefix(s: &[u8], at: usize) -> Option<(u64, usize)> {
	let n = match *s.get(at)? {
		251 => 2,
		252 => 4,
		253 => 8,
		t if t < 251 => return Some((t as u64, at + 1)),
		_ => return None,
	};
	if s.len() - at < 1 + n {
		return None;
	}
	let mut v = 0u64;
	for i in 0..n {
		v |= (s[at + 1 + i] as u64) << (8 * i);
	}
	Some((v, at + 1 + n))
}
fn off(s: &[u8], at: usize) -> u32 {
	u32::from_le_bytes([s[at], s[at + 1], s[at + 2], s[at + 3]])
}
/// offsets at `at`, `at + stride`, ... strictly ascend and end within `len`
fn ascend(s: &[u8], at: usize, n: usize, stride: usize, len: usize) -> bool {
	for i in 0..n {
		let o = off(s, at + i * stride);
		if o as usize > len || (i > 0 && o <= off(s, at + (i - 1) * stride)) {
			return false;
		}
	}
	true
}
/// what a validating reader accepts
fn good_seq(s: &[u8]) -> bool {
	if s.is_empty() {
		return false;
	}
	let Some((len, at)) = prefix(s, 1) else { return false };
	if s[0] & 1 == 0 {
		return true;
	}
	if len > (s.len() - at) as u64 / 4 {
		return false;
	}
	let n = sx::concrete(len as usize);
	ascend(s, at, n, 4, s.len() - at - 4 * n)
}
fn good_struct(s: &[u8], n: u16) -> bool {
	if n as usize > s.len() / 4 {
		return false;
	}
	let n = sx::concrete(n as usize);
	ascend(s, 0, n, 4, s.len()) && (n == 0 || off(s, 0) as usize >= 4 * n)
}
fn good_map(s: &[u8]) -> bool {
	if s.is_empty() {
		return false;
	}
	let Some((len, at)) = prefix(s, 1) else { return false };
	if s[0] & 1 == 0 {
		return true;
	}
	if len > (s.len() - at) as u64 / 8 {
		return false;
	}
	let n = sx::concrete(len as usize);
	let t = at + 8 * n;
	if s.len() < t + 8 {
		return false;
	}
	let (k, v) = (off(s, t) as usize, off(s, t + 4) as usize);
	if k + v > s.len() - t - 8 {
		return false;
	}
	ascend(s, at, n, 8, k) && ascend(s, at + 4, n, 8, v)
}
/// a length prefix with more bytes than fit the short form, in front of a table
fn corrupt_len<const N: usize>(b: &mut [u8; N]) {
	b[0] |= 1;
	b[1] = 251 + sx::pick(3) as u8;
}

harnesses! {
	fn h_map() {
		let b = sx::bytes::<M>();
		let s = payload(&b);
		match IndexedMapWalker::from_payload(s) {
			Ok(w) => use_map(&w, s, true),
			Err(_) => sx::observe(!0),
		}
	}
	fn h_map_opens() {
		let b = sx::bytes::<34>();
		let s = payload(&b);
		match IndexedMapWalker::<u8, u8>::from_payload(s) {
			Ok(w) => {
				sx::check(good_map(s), "a payload whose offsets are not in order is opened");
				sx::observe(w.len() as u64);
			}
			Err(revision::Error::OptimisedKeyRegionNotAscending) => {
				sx::cover("keys not in order");
			}
			Err(_) => {
				sx::check(!good_map(s), "a well-formed payload is refused");
				sx::observe(!0)
			}
		}
	}
	fn h_map_unvalidated() {
		let b = sx::bytes::<M>();
		let s = payload(&b);
		match IndexedMapWalker::from_payload_unvalidated(s) {
			Ok(w) => use_map(&w, s, false),
			Err(_) => sx::observe(!0),
		}
	}
	fn h_map_long_len() {
		let mut b = sx::bytes::<30>();
		corrupt_len(&mut b);
		let s = payload(&b);
		match IndexedMapWalker::from_payload(s) {
			Ok(w) => {
				sx::check(good_map(s), "a payload whose offsets are not in order is opened");
				use_map(&w, s, true)
			}
			Err(revision::Error::OptimisedKeyRegionNotAscending) => {}
			Err(_) => sx::check(!good_map(s), "a well-formed payload is refused"),
		}
		if let Ok(w) = IndexedMapWalker::from_payload_unvalidated(s) {
			use_map(&w, s, false)
		}
	}
	fn h_seq() {
		const N: usize = if cfg!(feature = "deep") { 22 } else { 17 };
		let b = sx::bytes::<N>();
		let s = payload(&b);
		match IndexedSeqWalker::<u8>::from_payload(s) {
			Ok(w) => {
				sx::check(inside(w.body(), s), "the body lies outside the payload");
				let i = sx::u64() as usize;
				match w.element_bytes(i) {
					Ok(e) => {
						sx::check(w.is_indexed() && i < w.len() && inside(e, s), "an element lies outside the payload");
						sx::cover("an element");
					}
					Err(_) => sx::check(!w.is_indexed() || i >= w.len(), "an index in range is refused"),
				}
				sx::observe(w.len() as u64);
				sx::check(good_seq(s), "a payload whose offsets are not in order is opened");
			}
			Err(_) => {
				sx::check(!good_seq(s), "a well-formed payload is refused");
				sx::observe(!0)
			}
		}
	}
	fn h_seq_long_len() {
		let mut b = sx::bytes::<16>();
		corrupt_len(&mut b);
		let s = payload(&b);
		sx::check(IndexedSeqWalker::<u8>::from_payload(s).is_ok() == good_seq(s), "what is opened is not what is well-formed");
	}
	fn h_seq_unvalidated_open() {
		let b = sx::bytes::<17>();
		let s = payload(&b);
		match IndexedSeqWalker::<u8>::from_payload_unvalidated(s) {
			Ok(w) => {
				sx::check(inside(w.body(), s), "the body lies outside the payload");
				let i = sx::u64() as usize;
				sx::assume(i >= w.len());
				sx::check(w.element_bytes(i).is_err(), "an index beyond the end is accepted");
				sx::observe(w.len() as u64);
			}
			Err(_) => sx::observe(!0),
		}
	}
	fn h_struct() {
		const N: usize = if cfg!(feature = "deep") { 20 } else { 16 };
		let b = sx::bytes::<N>();
		let s = payload(&b);
		let (rev, n) = (sx::u16(), sx::u16());
		match IndexedStructWalker::from_payload(s, rev, n) {
			Ok(w) => {
				sx::check(w.revision() == rev && w.field_count() == n, "the header is not what was given");
				let i = sx::u16();
				match w.field_bytes(i) {
					Ok(f) => {
						sx::check(i < n && inside(f, s), "a field lies outside the payload");
						sx::check(f.is_empty() || f.as_ptr() as usize >= s.as_ptr() as usize + 4 * n as usize, "a field overlaps the offset table");
						let d = w.decode_field::<u16>(i);
						let mut r = f;
						let e = u16::deserialize_revisioned(&mut r);
						match (d, e) {
							(Ok(a), Ok(b)) => sx::check(a == b, "a field decodes differently"),
							(Err(_), Err(_)) => {}
							_ => sx::fail("a field decodes differently"),
						}
						sx::cover("a field");
					}
					Err(_) => sx::check(i >= n, "a field in range is refused"),
				}
				sx::observe(n as u64);
				sx::check(good_struct(s, n), "a payload whose offsets are not in order is opened");
			}
			Err(_) => {
				sx::check(!good_struct(s, n), "a well-formed payload is refused");
				sx::observe(!0)
			}
		}
	}
	fn h_struct_unvalidated_open() {
		let b = sx::bytes::<16>();
		let s = payload(&b);
		let n = sx::u16();
		match IndexedStructWalker::from_payload_unvalidated(s, 1, n) {
			Ok(w) => {
				sx::check(s.len() >= 4 * n as usize, "a truncated offset table is accepted");
				let i = sx::u16();
				sx::assume(i >= n);
				sx::check(w.field_bytes(i).is_err(), "a field beyond the end is accepted");
			}
			Err(_) => sx::check(s.len() < 4 * n as usize, "a complete offset table is rejected"),
		}
	}
	fn h_decode_map() {
		sx::allow_huge();
		let b = sx::bytes::<24>();
		let s = input(&b, 8);
		let mut r = s;
		let d = BTreeMap::<u8, u8>::deserialize_indexed_map(&mut r);
		sx::observe(d.map_or(!0, |m| m.len() as u64));
	}
	fn h_decode_map_string() {
		sx::allow_huge();
		let b = sx::bytes::<21>();
		let s = input(&b, 7);
		let mut r = s;
		let d = BTreeMap::<String, u16>::deserialize_indexed_map(&mut r);
		sx::observe(d.map_or(!0, |m| m.len() as u64));
	}
	fn h_decode_hash_map() {
		sx::allow_huge();
		let b = sx::bytes::<20>();
		let s = input(&b, 6);
		let mut r = s;
		let d = HMap::<u8, u8>::deserialize_indexed_map(&mut r);
		sx::observe(d.map_or(!0, |m| m.len() as u64));
	}
	fn h_skip_map() {
		let b = sx::bytes::<26>();
		let s = payload(&b);
		let mut r = s;
		let d = BTreeMap::<u8, u16>::skip_indexed_map(&mut r);
		sx::observe(d.map_or(!0, |_| r.len() as u64));
	}
	fn h_decode_seq() {
		sx::allow_huge();
		let b = sx::bytes::<16>();
		let s = input(&b, 12);
		let mut r = s;
		let d = Vec::<u16>::deserialize_indexed_seq(&mut r);
		sx::observe(d.map_or(!0, |m| m.len() as u64));
	}
	fn h_decode_set() {
		sx::allow_huge();
		let b = sx::bytes::<12>();
		let s = input(&b, 7);
		let mut r = s;
		let d = BTreeSet::<u8>::deserialize_indexed_set(&mut r);
		sx::observe(d.map_or(!0, |m| m.len() as u64));
	}
	fn h_skip_seq() {
		let b = sx::bytes::<16>();
		let s = payload(&b);
		let mut r = s;
		let d = Vec::<u16>::skip_indexed_seq(&mut r);
		sx::observe(d.map_or(!0, |_| r.len() as u64));
	}
	fn h_skip_set() {
		let b = sx::bytes::<16>();
		let s = input(&b, 10);
		let mut r = s;
		let d = BTreeSet::<String>::skip_indexed_set(&mut r);
		sx::observe(d.map_or(!0, |_| r.len() as u64));
	}
}
