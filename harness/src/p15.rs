//! Map walking: search, entry order, misuse.
use crate::harnesses;
use crate::sx;
use crate::sym::*;
use crate::util::*;
use revision::slice_reader::{BorrowedReader, SliceReader};
use std::cmp::Ordering;
use std::collections::BTreeMap;

fn any_order() -> Ordering {
	match sx::pick(3) {
		0 => Ordering::Less,
		1 => Ordering::Equal,
		_ => Ordering::Greater,
	}
}
const N: usize = if cfg!(feature = "deep") { 4 } else { 3 };

/// a map on the wire, in any key order, with what follows it
fn wire<K: Sym + SerializeRevisioned, V: Sym + SerializeRevisioned>(key: fn() -> K, val: fn() -> V) -> (Vec<(K, V)>, Vec<u8>, usize) {
	let n = sx::pick(N + 1);
	let mut e = Vec::new();
	let mut out = ser(&n);
	for _ in 0..n {
		let (k, v) = (key(), val());
		out.extend_from_slice(&ser(&k));
		out.extend_from_slice(&ser(&v));
		e.push((k, v));
	}
	let len = out.len();
	out.push(sx::u8());
	(e, out, len)
}
/// what the search must do given the verdicts: the index of the entry found
fn expected(verdicts: &[Ordering], asked: usize, n: usize) -> Option<usize> {
	for i in 0..n {
		sx::check(i < asked, "the search stops before it is decided");
		match verdicts[i] {
			Ordering::Less => {}
			Ordering::Equal => {
				sx::check(asked == i + 1, "the search goes on after the match");
				return Some(i);
			}
			Ordering::Greater => {
				sx::check(asked == i + 1, "the search goes on after a greater key");
				return None;
			}
		}
	}
	sx::check(asked == n, "the search asks about more keys than there are");
	None
}
fn finish<V: Sym + DeserializeRevisioned + SkipRevisioned, K>(got: Option<LeafWalker<'_, V, SliceReader<'_>>>, want: Option<usize>, e: &[(K, V)], ends: &[usize]) -> usize {
	match (got, want) {
		(Some(w), Some(i)) => {
			sx::cover("a match");
			match sx::pick(2) {
				0 => match w.decode() {
					Ok(v) => sx::check(v.same(&e[i].1), "the search is not at the matching entry's value"),
					Err(_) => sx::fail("the value found does not decode"),
				},
				_ => sx::check(w.skip().is_ok(), "the value found cannot be skipped"),
			}
			ends[i]
		}
		(None, None) => {
			sx::cover("no match");
			*ends.last().unwrap()
		}
		(Some(_), None) => sx::fail("the search finds a key the predicate did not accept"),
		(None, Some(_)) => sx::fail("the search misses a key the predicate accepted"),
	}
}
/// end of each entry on the wire, then of the map
fn ends<K: SerializeRevisioned, V: SerializeRevisioned>(e: &[(K, V)]) -> Vec<usize> {
	let mut p = ser(&e.len()).len();
	let mut o = Vec::new();
	for (k, v) in e {
		p += ser(k).len() + ser(v).len();
		o.push(p);
	}
	o.push(p);
	o
}
fn find<K: Ord + Sym + SerializeRevisioned + DeserializeRevisioned + SkipRevisioned, V: Sym + SerializeRevisioned + DeserializeRevisioned + SkipRevisioned>(key: fn() -> K, val: fn() -> V) {
	let (e, out, _) = wire(key, val);
	let ends = ends(&e);
	let mut r = SliceReader::new(&out);
	let w = match BTreeMap::<K, V>::walk_revisioned(&mut r) {
		Ok(w) => w,
		Err(_) => sx::fail("a map does not open"),
	};
	sx::check(w.remaining() == e.len(), "the entry count is wrong");
	let mut verdicts = [Ordering::Less; N];
	let mut asked = 0;
	let got = w.find(|k| {
		sx::check(asked < e.len() && k.same(&e[asked].0), "the predicate is asked about another key than the next");
		verdicts[asked] = any_order();
		asked += 1;
		verdicts[asked - 1]
	});
	let want = expected(&verdicts, asked, e.len());
	let end = match got {
		Ok(g) => finish(g, want, &e, &ends),
		Err(_) => sx::fail("the search fails"),
	};
	sx::check(r.consumed_len() == end, "the search ends elsewhere");
	sx::observe(end as u64);
}
fn find_bytes<V: Sym + SerializeRevisioned + DeserializeRevisioned + SkipRevisioned>(val: fn() -> V) {
	let (e, out, _) = wire(|| ascii(sx::pick(3)), val);
	let ends = ends(&e);
	let mut r = SliceReader::new(&out);
	let w = match HMap::<String, V>::walk_revisioned(&mut r) {
		Ok(w) => w,
		Err(_) => sx::fail("a map does not open"),
	};
	let mut verdicts = [Ordering::Less; N];
	let mut asked = 0;
	let got = w.find_bytes(|k| {
		sx::check(asked < e.len() && *k == *e[asked].0.as_bytes(), "the predicate is asked about another key than the next");
		verdicts[asked] = any_order();
		asked += 1;
		verdicts[asked - 1]
	});
	let want = expected(&verdicts, asked, e.len());
	let end = match got {
		Ok(g) => finish(g, want, &e, &ends),
		Err(_) => sx::fail("the search fails"),
	};
	sx::check(r.consumed_len() == end, "the search ends elsewhere");
	sx::observe(end as u64);
}
/// searching over arbitrary bytes is total
fn total<K: Ord + DeserializeRevisioned + SkipRevisioned, V: DeserializeRevisioned + SkipRevisioned, const M: usize>() {
	sx::allow_huge();
	let b = sx::bytes::<M>();
	let s = &b[..sx::pick(M + 1)];
	let mut r = SliceReader::new(s);
	if let Ok(w) = BTreeMap::<K, V>::walk_revisioned(&mut r) {
		if let Ok(Some(v)) = w.find(|_| any_order()) {
			let _ = v.decode();
		}
	}
	sx::check(r.consumed_len() <= s.len(), "the search claims more than the input");
	sx::observe(r.consumed_len() as u64);
}

harnesses! {
	fn h_find_u16() { find::<u16, u8>(sx::u16, sx::u8) }
	fn h_find_u8_string() { find::<u8, String>(sx::u8, || ascii(sx::pick(3))) }
	fn h_find_string() { find::<String, Option<u8>>(|| ascii(sx::pick(2)), Option::<u8>::sym) }
	fn h_find_bytes() { find_bytes::<u16>(sx::u16) }
	fn h_find_bytes_vec() { find_bytes::<Vec<bool>>(|| { let mut v = Vec::new(); for _ in 0..sx::pick(2) { v.push(sx::flag()) } v }) }
	fn h_find_any() { total::<u8, u16, 7>() }
	fn h_find_bytes_any() {
		sx::allow_huge();
		const M: usize = bound(7, 18, 8);
		let b = sx::bytes::<M>();
		let s = &b[..sx::pick(M + 1)];
		let mut r = SliceReader::new(s);
		if let Ok(w) = BTreeMap::<String, u8>::walk_revisioned(&mut r) {
			if let Ok(Some(v)) = w.find_bytes(|_| any_order()) {
				let _ = v.decode();
			}
		}
		sx::check(r.consumed_len() <= s.len(), "the search claims more than the input");
		sx::observe(r.consumed_len() as u64);
	}
	// every sequence of operations on one entry, legal or not, then the next entry
	fn h_entry_order() {
		let e = [(ascii(sx::pick(3)), ascii(sx::pick(3))), (ascii(1), ascii(1))];
		let mut out = ser(&2usize);
		for (k, v) in &e {
			out.extend_from_slice(&ser(k));
			out.extend_from_slice(&ser(v));
		}
		let start = ser(&2usize).len();
		let (kl, vl) = (ser(&e[0].0).len(), ser(&e[0].1).len());
		let mut r = SliceReader::new(&out);
		let mut w = match BTreeMap::<String, String>::walk_revisioned(&mut r) {
			Ok(w) => w,
			Err(_) => sx::fail("a map does not open"),
		};
		let mut m = match w.next_entry() {
			Some(m) => m,
			None => sx::fail("an entry is missing"),
		};
		let mut at_value = false;
		for _ in 0..2 {
			match sx::pick(4) {
				0 => match m.decode_key() {
					Ok(k) => sx::check(!at_value && k.same(&e[0].0), "a key operation after the key succeeds"),
					Err(_) => sx::check(at_value, "the key does not decode"),
				},
				1 => sx::check(m.skip_key().is_ok() != at_value, "skipping the key succeeds or fails wrongly"),
				2 => {
					let k = e[0].0.as_bytes();
					match m.with_key_bytes(|b| sx::check(!at_value && *b == *k, "other bytes than the key's")) {
						Ok(()) => {}
						Err(_) => sx::check(at_value, "the key's bytes are refused"),
					}
				}
				_ => break,
			}
			at_value = true;
		}
		let ok = match sx::pick(6) {
			0 => match m.decode_value() {
				Ok(v) => { sx::check(at_value && v.same(&e[0].1), "a value before its key"); true }
				Err(_) => false,
			},
			1 => m.skip_value().is_ok(),
			2 => match m.walk_value() {
				Ok(v) => { sx::check(matches!(v.decode(), Ok(v) if v.same(&e[0].1)), "walking gives another value"); true }
				Err(_) => false,
			},
			3 => m.with_value_bytes(|b| sx::check(*b == *e[0].1.as_bytes(), "other bytes than the value's")).is_ok(),
			4 => {
				let p = m.decode_pair();
				sx::check(p.is_ok() != at_value, "decoding a pair after its key succeeds");
				if let Ok((k, v)) = p {
					sx::check(k.same(&e[0].0) && v.same(&e[0].1), "another pair");
					at_value = true;
					true
				} else { at_value = false; false }
			}
			_ => {
				let p = m.skip_pair().is_ok();
				sx::check(p != at_value, "skipping a pair after its key succeeds");
				at_value = p;
				p
			}
		};
		sx::check(ok == at_value, "a value operation succeeds before its key or fails after it");
		if ok {
			sx::check(w.remaining() == 1, "the count of remaining entries is wrong");
			match w.next_entry() {
				Some(m) => match m.decode_pair() {
					Ok((k, v)) => sx::check(k.same(&e[1].0) && v.same(&e[1].1), "the next entry is misaligned"),
					Err(_) => sx::fail("the next entry does not decode"),
				},
				None => sx::fail("the next entry is missing"),
			}
			sx::check(w.next_entry().is_none() && w.remaining() == 0, "more entries than there are");
			sx::check(r.consumed_len() == out.len(), "walking ends elsewhere");
		} else {
			sx::check(w.remaining() == 2, "a refused operation consumes the entry");
			sx::check(r.consumed_len() == start || r.consumed_len() == start + kl, "a refused operation moves the reader");
		}
		let _ = vl;
	}
}
