//! Round trip and prefix rejection of collections.
use crate::harnesses;
use crate::sx;
use crate::sym::*;
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap};

fn go<T: Sym + SerializeRevisioned + DeserializeRevisioned>() {
	let v = T::sym();
	let out = roundtrip(&v, T::same);
	truncated::<T>(&out);
}
/// many entries: `n` distinct concrete keys, one of them and the values symbolic
const SIZES: &[usize] = &[4, 12, 13, 30];
const LONG: &[usize] = &[249, 250, 251, 256, 300];

harnesses! {
	fn h_vec_u8() { go::<Vec<u8>>() }
	fn h_vec_i8() { go::<Vec<i8>>() }
	fn h_vec_bool() { go::<Vec<bool>>() }
	fn h_vec_u16() { go::<Vec<u16>>() }
	fn h_vec_u64() { go::<Vec<u64>>() }
	fn h_vec_i32() { go::<Vec<i32>>() }
	fn h_vec_u128() { go::<Vec<u128>>() }
	fn h_vec_f64() { go::<Vec<f64>>() }
	fn h_vec_char() { go::<Vec<char>>() }
	fn h_vec_usize() { go::<Vec<usize>>() }
	fn h_vec_string() { go::<Vec<String>>() }
	fn h_vec_option() { go::<Vec<Option<u16>>>() }
	fn h_vec_tuple() { go::<Vec<(u8, u16)>>() }
	fn h_vec_vec() { go::<Vec<Vec<u8>>>() }
	fn h_vec_unit() { go::<Vec<()>>() }
	fn h_vec_u8_long() {
		let n = LONG[sx::pick(LONG.len())];
		let mut v = vec![7u8; n];
		v[0] = sx::u8(); v[n - 1] = sx::u8();
		roundtrip(&v, |a, b| a == b);
	}
	fn h_vec_u16_long() {
		let n = LONG[sx::pick(LONG.len())];
		let mut v = vec![7u16; n];
		v[0] = sx::u16(); v[n - 1] = sx::u16();
		roundtrip(&v, Vec::same);
	}
	fn h_vec_string_long() {
		let n = LONG[sx::pick(LONG.len())];
		let mut v = vec![String::new(); n];
		v[0] = ascii(2); v[n - 1] = ascii(1);
		roundtrip(&v, Vec::same);
	}
	fn h_btreemap_u8_u16() { go::<BTreeMap<u8, u16>>() }
	fn h_btreemap_string_u8() { go::<BTreeMap<String, u8>>() }
	fn h_btreemap_u16_string() { go::<BTreeMap<u16, String>>() }
	fn h_btreemap_i8_vec() { go::<BTreeMap<i8, Vec<u8>>>() }
	fn h_btreeset_u16() { go::<BTreeSet<u16>>() }
	fn h_btreeset_i32() { go::<BTreeSet<i32>>() }
	fn h_btreeset_string() { go::<BTreeSet<String>>() }
	fn h_hashmap_u8_u16() { go::<HMap<u8, u16>>() }
	fn h_hashmap_string_u8() { go::<HMap<String, u8>>() }
	fn h_hashset_u16() { go::<HSet<u16>>() }
	fn h_hashset_string() { go::<HSet<String>>() }
	fn h_binaryheap_u8() { go::<BinaryHeap<u8>>() }
	fn h_binaryheap_i16() { go::<BinaryHeap<i16>>() }
	fn h_nested() { go::<BTreeMap<u8, Option<Vec<bool>>>>() }
	fn h_btreemap_many() {
		let n = SIZES[sx::pick(SIZES.len())];
		let mut m = BTreeMap::new();
		for i in 0..n { m.insert(i as u32 * 300, sx::u8()); }
		roundtrip(&m, BTreeMap::same);
	}
	fn h_btreeset_many() {
		let n = SIZES[sx::pick(SIZES.len())];
		let mut m = BTreeSet::new();
		for i in 0..n { m.insert(i as i32 * 300 - 700); }
		roundtrip(&m, BTreeSet::same);
	}
	fn h_hashmap_many() {
		let n = SIZES[sx::pick(SIZES.len())];
		let mut m = HMap::default();
		for i in 0..n { m.insert(i as u32 * 300, sx::u8()); }
		roundtrip(&m, HMap::same);
	}
	fn h_hashset_many() {
		let n = SIZES[sx::pick(SIZES.len())];
		let mut m = HSet::default();
		for i in 0..n { m.insert(i as u64 * 300); }
		roundtrip(&m, HSet::same);
	}
	fn h_heap_many() {
		let n = SIZES[sx::pick(SIZES.len())];
		let mut m = BinaryHeap::new();
		for i in 0..n { m.push((i as u32 * 7919) % 1000); }
		roundtrip(&m, BinaryHeap::same);
	}
}
