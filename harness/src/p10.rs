//! Indexed maps: encoding, decoding, skipping and lookup.
use crate::harnesses;
use crate::sx;
use crate::sym::*;
use crate::util::*;
use revision::optimised::indexed::*;
use revision::optimised::IndexedMapWalker;
use revision::slice_reader::SliceReader;
use std::cmp::Ordering;
use std::collections::BTreeMap;

/// what the encoder wrote, against the entries of the map
pub fn check_map<M, K, V>(m: &M, entries: &[(K, V)], needle: &K)
where
	M: IndexedMapEncoded<Key = K, Value = V>,
	K: SerializeRevisioned + Sym,
	V: SerializeRevisioned + Sym,
{
	let n = entries.len();
	let mut out = Vec::new();
	sx::check(m.serialize_indexed_map(&mut out).is_ok(), "encoding fails");
	let want: Vec<(Vec<u8>, Vec<u8>)> = entries.iter().map(|(k, v)| (ser(k), ser(v))).collect();
	let key = ser(needle);
	let mut value: Option<&[u8]> = None;
	for (k, v) in &want {
		if *k == key {
			value = Some(v);
		}
	}

	let mode = sx::pick(4);
	if mode == 0 {
		// skipping ends where the encoding ends, whatever follows
		let mut full = out.clone();
		full.push(sx::u8());
		let mut r = &full[..];
		sx::check(M::skip_indexed_map(&mut r).is_ok() && r.len() == 1, "skipping ends elsewhere");
		let mut r = SliceReader::new(&full);
		sx::check(M::skip_indexed_map(&mut r).is_ok() && r.consumed_len() == out.len(), "skipping ends elsewhere");
		return;
	}
	let validated = sx::flag();
	let w = if validated {
		IndexedMapWalker::<K, V>::from_payload(&out)
	} else {
		IndexedMapWalker::<K, V>::from_payload_unvalidated(&out)
	};
	let w = match w {
		Ok(w) => w,
		Err(_) => sx::fail("the map's own encoding is rejected"),
	};
	sx::check(w.len() == n && w.is_empty() == (n == 0), "the entry count is wrong");
	sx::check(w.is_indexed() == (n >= 8), "an offset table is there below the threshold or missing above it");
	if n < 8 && mode > 1 {
		return;
	}
	if n < 8 {
		// small map: plain entries
		let body = match w.legacy_body() {
			Some(b) => b,
			None => sx::fail("a small map has no plain body"),
		};
		let mut left = body;
		let mut last: Option<&[u8]> = None;
		for _ in 0..n {
			let mut hit = false;
			for (k, v) in &want {
				let l = k.len() + v.len();
				if !hit && left.len() >= l && left[..k.len()] == k[..] && left[k.len()..l] == v[..] {
					sx::check(last.map_or(true, |p| *p < k[..]), "entries are not in ascending order of encoded key");
					last = Some(k);
					left = &left[l..];
					hit = true;
				}
			}
			sx::check(hit, "an entry is missing from the plain body");
		}
		sx::check(left.is_empty(), "the plain body has extra bytes");
		sx::check(w.entries().is_none() && w.find_value_bytes(|k| k.cmp(&key)).is_err(), "a small map pretends to be indexed");
		sx::observe_bytes(&out);
		return;
	}
	if mode == 1 {
	sx::check(w.legacy_body().is_none(), "an indexed map has a plain body");
	// every entry once, in ascending order of encoded key
	let mut last: Option<&[u8]> = None;
	let mut seen = 0;
	match w.entries() {
		Some(it) => {
			for (k, v) in it {
				sx::check(last.map_or(true, |p| *p < *k), "entries are not in ascending order of encoded key");
				last = Some(k);
				let mut hit = false;
				for (wk, wv) in &want {
					if wk[..] == *k {
						sx::check(wv[..] == *v, "an entry carries another key's value");
						hit = true;
					}
				}
				sx::check(hit, "an entry is not one of the map's");
				seen += 1;
			}
		}
		None => sx::fail("an indexed map has no entries"),
	}
	sx::check(seen == n, "iteration does not yield every entry");
	} else if mode == 2 {
		// lookup
		match (w.find_value_bytes(|k| k.cmp(&key)), value) {
			(Ok(Some(v)), Some(x)) => sx::check(*v == *x, "the lookup returns another value"),
			(Ok(None), None) => {}
			(Ok(Some(_)), None) => sx::fail("the lookup finds a key that is not there"),
			(Ok(None), Some(_)) => sx::fail("the lookup misses a key that is there"),
			(Err(_), _) => sx::fail("the lookup fails"),
		}
	} else {
		// lookup with a hint
		let h = match sx::pick(3) {
			0 => None,
			1 if n > 20 => Some([0, n / 2, n - 1, n][sx::pick(4)] as u32),
			1 => Some(sx::pick(n + 1) as u32),
			_ => {
				let h = sx::u32();
				sx::assume(h as usize > n);
				Some(h)
			}
		};
		match w.find_value_bytes_with_hint(h, |k| k.cmp(&key)) {
			Ok(l) => {
				match (l.value, value) {
					(Some(v), Some(x)) => sx::check(*v == *x, "the hinted lookup returns another value"),
					(None, None) => sx::check(l.hint == h, "a miss does not carry the hint forward"),
					(Some(_), None) => sx::fail("the hinted lookup finds a key that is not there"),
					(None, Some(_)) => sx::fail("the hinted lookup misses a key that is there"),
				}
				if let Some(x) = value {
					// the slot returned is the key's: following it finds the key with a single probe
					let mut probes = 0;
					match w.find_value_bytes_with_hint(l.hint, |k| {
						probes += 1;
						k.cmp(&key)
					}) {
						Ok(l2) => {
							sx::check(matches!(l2.value, Some(v) if *v == *x), "following the returned hint finds another value");
							sx::check(probes == 1 && l2.hint == l.hint, "the returned hint is not the key's slot");
						}
						Err(_) => sx::fail("the hinted lookup fails"),
					}
				}
			}
			Err(_) => sx::fail("the hinted lookup fails"),
		}
	}
	sx::observe_bytes(&out);
}

fn btree<K: Ord + Clone + Sym + SerializeRevisioned + DeserializeRevisioned + SkipRevisioned, V: Clone + Sym + SerializeRevisioned + DeserializeRevisioned + SkipRevisioned>(entries: &[(K, V)], needle: &K) {
	let mut m = BTreeMap::new();
	for (k, v) in entries {
		m.insert(k.clone(), v.clone());
	}
	if sx::flag() {
		return check_map(&m, entries, needle);
	}
	back(&m, |w: &BTreeMap<K, V>| w.len() == m.len() && m.iter().zip(w.iter()).all(|(a, b)| a.0.same(b.0) && a.1.same(b.1)));
}
fn hash<K: Ord + std::hash::Hash + Clone + Sym + SerializeRevisioned + DeserializeRevisioned + SkipRevisioned, V: Clone + Sym + SerializeRevisioned + DeserializeRevisioned + SkipRevisioned>(entries: &[(K, V)], needle: &K) {
	let mut m: HMap<K, V> = HMap::default();
	for (k, v) in entries {
		m.insert(k.clone(), v.clone());
	}
	if sx::flag() {
		return check_map(&m, entries, needle);
	}
	back(&m, |w: &HMap<K, V>| w.len() == m.len() && entries.iter().all(|(k, v)| w.get(k).map_or(false, |x| x.same(v))));
}
/// decodes to the same map, and no proper prefix does
fn back<M: IndexedMapEncoded>(m: &M, same: impl Fn(&M) -> bool) {
	let mut out = Vec::new();
	sx::check(m.serialize_indexed_map(&mut out).is_ok(), "encoding fails");
	let n = sx::concrete(out.len());
	out.push(sx::u8());
	let mut r = &out[..];
	match M::deserialize_indexed_map(&mut r) {
		Ok(w) => {
			sx::check(r.len() == 1, "decoding ends elsewhere");
			sx::check(same(&w), "decoding gives a different map");
		}
		Err(_) => sx::fail("the map's own encoding does not decode"),
	}
	if sx::flag() {
		return;
	}
	let k = if n < 48 { sx::pick(n) } else { [0, 1, 2, 9, n / 2, n - 2, n - 1][sx::pick(7)] };
	let mut r = &out[..k];
	sx::check(M::deserialize_indexed_map(&mut r).is_err(), "a truncated encoding decodes");
	let mut r = &out[..k];
	sx::check(M::skip_indexed_map(&mut r).is_err(), "a truncated encoding is skipped");
}

/// keys whose encodings cross every length class and whose byte order is not their numeric order
const KEYS: [u32; 10] = [251, 3, 250, 65536, 300, 255, 513, 0x0100_0000, 65535, 0x00ff_0001];
fn u32_keys(n: usize) -> Vec<(u32, u16)> {
	let mut v = Vec::new();
	if n > 0 {
		let k = sx::u32();
		for i in 0..n - 1 {
			sx::assume(KEYS[i] != k);
			v.push((KEYS[i], 7 * i as u16));
		}
		v.push((k, 40000));
	}
	v
}
fn string_keys(n: usize) -> Vec<(String, bool)> {
	const K: [&str; 10] = ["delta", "b", "", "charlie", "a", "aa", "e", "ccc", "zz", "\u{e9}"];
	let mut v = Vec::new();
	if n > 0 {
		let k = ascii(sx::pick(3));
		for i in 0..n - 1 {
			sx::assume(K[i] != k);
			v.push((K[i].to_string(), i % 3 == 0));
		}
		v.push((k, true));
	}
	v
}
const SIZES: &[usize] = &[0, 1, 2, 6, 7, 8, 9, 10];
fn size() -> usize {
	SIZES[sx::pick(SIZES.len())]
}

harnesses! {
	fn h_btree_u32() { btree(&u32_keys(size()), &sx::u32()) }
	fn h_hash_u32() { hash(&u32_keys(size()), &sx::u32()) }
	fn h_btree_string() { btree(&string_keys(size()), &ascii(sx::pick(3))) }
	fn h_hash_string() { hash(&string_keys(size()), &ascii(sx::pick(3))) }
	// arbitrary values of every length class, and a second arbitrary key
	fn h_btree_values() {
		let mut v: Vec<(u8, u32)> = (0..7u8).map(|i| (i * 30 + 1, 1000 * i as u32)).collect();
		v[3].1 = sx::u32();
		let k = sx::u8();
		for e in &v {
			sx::assume(e.0 != k);
		}
		v.push((k, sx::u32()));
		btree(&v, &sx::u8())
	}
	fn h_btree_string_values() {
		let mut v: Vec<(i16, String)> = (0..8i16).map(|i| (i * 100 - 300, "v".repeat(i as usize))).collect();
		v[5].1 = ascii(sx::pick(4));
		btree(&v, &(sx::u16() as i16))
	}
	fn h_btree_small_any() {
		let n = sx::pick(3);
		let mut v: Vec<(u16, String)> = Vec::new();
		for _ in 0..n {
			let k = sx::u16();
			for e in &v {
				sx::assume(e.0 != k);
			}
			v.push((k, ascii(sx::pick(3))));
		}
		btree(&v, &0)
	}
	// compound keys: the byte order of the encodings is neither their length's nor the keys' order
	fn h_btree_pair() {
		let (a, t) = (sx::u8(), ascii(sx::pick(3)));
		let mut v: Vec<((u8, String), u16)> = Vec::new();
		for i in 0..8u8 {
			let k = (i * 20, "x".repeat(7 - i as usize));
			sx::assume(k.0 != a);
			v.push((k, 100 + i as u16));
		}
		v.push(((a, t), sx::u16()));
		let n = (sx::u8(), ascii(sx::pick(3)));
		btree(&v, &n)
	}
	fn h_btree_option() {
		let mut v: Vec<(Option<u32>, bool)> = vec![(None, true)];
		let k = Option::<u32>::sym();
		sx::assume(k.is_some());
		for i in 0..7 {
			sx::assume(Some(KEYS[i]) != k);
			v.push((Some(KEYS[i]), i % 2 == 0));
		}
		v.push((k, true));
		let n = Option::<u32>::sym();
		btree(&v, &n)
	}
	fn h_btree_vec() {
		let k: Vec<u8> = (0..sx::pick(3)).map(|_| sx::u8()).collect();
		let mut v: Vec<(Vec<u8>, u32)> = Vec::new();
		for i in 0..8u8 {
			let x = vec![9 + i; [3, 4, 5, 6, 7, 300, 8, 9][i as usize]];
			v.push((x, i as u32));
		}
		v.push((k, 7));
		let n: Vec<u8> = (0..sx::pick(3)).map(|_| sx::u8()).collect();
		btree(&v, &n)
	}
	// length prefixes of more than one byte
	fn h_btree_long() {
		const L: &[usize] = if cfg!(feature = "deep") { &[250, 251, 257, 300] } else { &[250, 251] };
		let n = L[sx::pick(L.len())];
		let v: Vec<(u16, bool)> = (0..n as u16).map(|i| (i * 3, i % 2 == 0)).collect();
		btree(&v, &([0, 3 * n as u16 / 2, 3 * n as u16 - 3, 750][sx::pick(4)] + sx::pick(3) as u16))
	}
	fn h_free_functions() {
		let v = u32_keys(8);
		let m: BTreeMap<u32, u16> = v.iter().cloned().collect();
		let (mut a, mut b, mut c) = (Vec::new(), Vec::new(), Vec::new());
		sx::check(m.serialize_indexed_map(&mut a).is_ok() && serialize_indexed_map(&m, &mut b).is_ok() && serialize_indexed_entries(v.iter().map(|e| (&e.0, &e.1)), &mut c).is_ok(), "encoding fails");
		sx::check(a == b && a == c, "the encoding entry points disagree");
		let view = IndexedMapView::<u32, u16>::new((&a[..]).into());
		match view.walker() {
			Ok(w) => sx::check(w.len() == 8 && w.is_indexed(), "the view opens differently"),
			Err(_) => sx::fail("the view does not open"),
		}
		sx::check(*view.as_bytes() == a[..] && *view.into_bytes() == a[..], "the view holds other bytes");
	}
}
