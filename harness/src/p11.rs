//! Indexed sequences and sets: encoding, decoding, skipping and element access.
use crate::harnesses;
use crate::sx;
use crate::sym::*;
use crate::util::*;
use revision::optimised::indexed::*;
use revision::optimised::IndexedSeqWalker;
use revision::slice_reader::SliceReader;
use std::collections::BTreeSet;

/// `want`: the encodings of the elements in the order they must appear
fn check_walker<T>(out: &[u8], want: &[Vec<u8>]) {
	let n = want.len();
	let validated = sx::flag();
	{
		let w = if validated {
			IndexedSeqWalker::<T>::from_payload(out)
		} else {
			IndexedSeqWalker::<T>::from_payload_unvalidated(out)
		};
		let w = match w {
			Ok(w) => w,
			Err(_) => sx::fail("the sequence's own encoding is rejected"),
		};
		sx::check(w.len() == n && w.is_empty() == (n == 0), "the element count is wrong");
		sx::check(w.is_indexed() == (n >= 8), "an offset table is there below the threshold or missing above it");
		let mut left = w.body();
		for e in want {
			sx::check(left.len() >= e.len() && left[..e.len()] == e[..], "the body is not the elements in order");
			left = &left[e.len()..];
		}
		sx::check(left.is_empty(), "the body has extra bytes");
		if n >= 8 {
			let i = sx::pick(n);
			match w.element_bytes(i) {
				Ok(b) => sx::check(*b == want[i][..], "an index gives another element"),
				Err(_) => sx::fail("an index in range is refused"),
			}
			let j = sx::u64() as usize;
			sx::assume(j >= n);
			sx::check(w.element_bytes(j).is_err(), "an index beyond the end is accepted");
		} else {
			sx::check(w.element_bytes(0).is_err(), "a small sequence pretends to be indexed");
		}
	}
	sx::observe_bytes(out);
}
fn cut(n: usize) -> usize {
	let n = sx::concrete(n);
	if n < 40 { sx::pick(n) } else { [0, 1, 2, 9, n / 2, n - 2, n - 1][sx::pick(7)] }
}
fn seq<T: Sym + SerializeRevisioned + DeserializeRevisioned + SkipRevisioned>(v: &Vec<T>) {
	let mut out = Vec::new();
	sx::check(v.serialize_indexed_seq(&mut out).is_ok(), "encoding fails");
	let want: Vec<Vec<u8>> = v.iter().map(ser).collect();
	if sx::flag() {
		return check_walker::<T>(&out, &want);
	}
	let mut again = Vec::new();
	sx::check(serialize_indexed_seq_iter(v.iter(), &mut again).is_ok() && again == out, "the encoding entry points disagree");
	let n = out.len();
	let mut full = out.clone();
	full.push(sx::u8());
	let mut r = &full[..];
	match Vec::<T>::deserialize_indexed_seq(&mut r) {
		Ok(w) => {
			sx::check(v.same(&w), "decoding gives a different sequence");
			sx::check(r.len() == 1, "decoding ends elsewhere");
		}
		Err(_) => sx::fail("the sequence's own encoding does not decode"),
	}
	let mut r = &full[..];
	sx::check(Vec::<T>::skip_indexed_seq(&mut r).is_ok() && r.len() == 1, "skipping ends elsewhere");
	let mut r = SliceReader::new(&full);
	sx::check(Vec::<T>::skip_indexed_seq(&mut r).is_ok() && r.consumed_len() == n, "skipping ends elsewhere");
	if sx::flag() {
		return;
	}
	let k = cut(n);
	let mut r = &out[..k];
	sx::check(Vec::<T>::deserialize_indexed_seq(&mut r).is_err(), "a truncated encoding decodes");
	let mut r = &out[..k];
	sx::check(Vec::<T>::skip_indexed_seq(&mut r).is_err(), "a truncated encoding is skipped");
}
fn set<S: IndexedSetEncoded<Item = T>, T: Sym + SerializeRevisioned>(s: &S, items: &[T], same: impl Fn(&S) -> bool) {
	let mut out = Vec::new();
	sx::check(s.serialize_indexed_set(&mut out).is_ok(), "encoding fails");
	let mut want: Vec<Vec<u8>> = items.iter().map(ser).collect();
	want.sort();
	if sx::flag() {
		return check_walker::<T>(&out, &want);
	}
	let n = out.len();
	let mut full = out.clone();
	full.push(sx::u8());
	let mut r = &full[..];
	match S::deserialize_indexed_set(&mut r) {
		Ok(w) => {
			sx::check(same(&w), "decoding gives a different set");
			sx::check(r.len() == 1, "decoding ends elsewhere");
		}
		Err(_) => sx::fail("the set's own encoding does not decode"),
	}
	let mut r = &full[..];
	sx::check(S::skip_indexed_set(&mut r).is_ok() && r.len() == 1, "skipping ends elsewhere");
	if sx::flag() {
		return;
	}
	let k = cut(n);
	let mut r = &out[..k];
	sx::check(S::deserialize_indexed_set(&mut r).is_err(), "a truncated encoding decodes");
	let mut r = &out[..k];
	sx::check(S::skip_indexed_set(&mut r).is_err(), "a truncated encoding is skipped");
}
const SIZES: &[usize] = &[0, 1, 2, 7, 8, 9, 10];
fn size() -> usize {
	SIZES[sx::pick(SIZES.len())]
}
const KEYS: [u32; 10] = [251, 3, 250, 65536, 300, 255, 513, 0x0100_0000, 65535, 0x00ff_0001];
fn items(n: usize) -> Vec<u32> {
	let mut v = Vec::new();
	if n > 0 {
		let k = sx::u32();
		for i in 0..n - 1 {
			sx::assume(KEYS[i] != k);
			v.push(KEYS[i]);
		}
		v.push(k);
	}
	v
}

harnesses! {
	fn h_seq_u8() { seq(&(0..size()).map(|_| sx::u8()).collect()) }
	fn h_seq_bool() { seq(&(0..size()).map(|_| sx::flag()).collect()) }
	fn h_seq_u32() {
		let mut v: Vec<u32> = (0..size() as u32).map(|i| i * 100).collect();
		for i in [0, 7, 9] {
			if i < v.len() {
				v[i] = sx::u32();
			}
		}
		seq(&v)
	}
	fn h_seq_f64() { seq(&(0..size()).map(|_| f64::from_bits(sx::u64())).collect()) }
	fn h_seq_string() {
		let mut v: Vec<String> = (0..size()).map(|i| "s".repeat(i)).collect();
		if let Some(l) = v.last_mut() {
			*l = ascii(sx::pick(4));
		}
		if v.len() > 4 {
			v[4] = ascii(sx::pick(4));
		}
		seq(&v)
	}
	fn h_seq_option() {
		let mut v: Vec<Option<u16>> = (0..size() as u16).map(|i| if i % 2 == 0 { Some(i * 90) } else { None }).collect();
		if let Some(l) = v.last_mut() {
			*l = Sym::sym();
		}
		seq(&v)
	}
	fn h_seq_vec() {
		let mut v: Vec<Vec<u8>> = (0..8).map(|i| vec![i as u8; i]).collect();
		v[7] = Sym::sym();
		v[2] = Sym::sym();
		seq(&v)
	}
	fn h_seq_long() {
		const L: &[usize] = if cfg!(feature = "deep") { &[250, 251, 257, 300] } else { &[250, 251] };
		let mut v: Vec<u16> = vec![5; L[sx::pick(L.len())]];
		v[249] = sx::u16();
		seq(&v)
	}
	fn h_btreeset_u32() {
		let v = items(size());
		let s: BTreeSet<u32> = v.iter().cloned().collect();
		set(&s, &v, |w| w.len() == s.len() && *w == s)
	}
	fn h_hashset_u32() {
		let v = items(size());
		let s: HSet<u32> = v.iter().cloned().collect();
		set(&s, &v, |w| w.len() == s.len() && v.iter().all(|x| w.contains(x)))
	}
	fn h_btreeset_string() {
		const K: [&str; 10] = ["delta", "b", "", "charlie", "a", "aa", "e", "ccc", "zz", "\u{e9}"];
		let n = size();
		let mut v: Vec<String> = Vec::new();
		if n > 0 {
			let k = ascii(sx::pick(3));
			for i in 0..n - 1 {
				sx::assume(K[i] != k);
				v.push(K[i].into());
			}
			v.push(k);
		}
		let s: BTreeSet<String> = v.iter().cloned().collect();
		set(&s, &v, |w| w.len() == s.len() && *w == s)
	}
	fn h_set_long() {
		let s: BTreeSet<u16> = (0..260).map(|i| i * 7).collect();
		let v: Vec<u16> = s.iter().cloned().collect();
		set(&s, &v, |w| *w == s)
	}
}
