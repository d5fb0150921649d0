//! Round trip of the supported third-party types.
use crate::ext::need;
use crate::harnesses;
use crate::sx;
use crate::sym::*;
use crate::util::*;
use bytes::Bytes;
use chrono::{DateTime, NaiveDate, NaiveTime, TimeDelta, Utc};
use geo::{Coord, LineString, MultiLineString, MultiPoint, MultiPolygon, Point, Polygon};
use imbl::{OrdMap, OrdSet, Vector};
use ordered_float::NotNan;
use revision::optimised::indexed::*;
use revision::slice_reader::{BorrowedReader, SliceReader};
use rust_decimal::Decimal;
use uuid::Uuid;

fn go<T: Sym + SerializeRevisioned + DeserializeRevisioned>() {
	let v = T::sym();
	let out = roundtrip(&v, T::same);
	truncated::<T>(&out);
}
fn dt(v: DateTime<Utc>) {
	let out = roundtrip(&v, Sym::same);
	truncated::<DateTime<Utc>>(&out);
}
const YEARS: &[i32] = &[-262143, 1969, 2024, 262142];
const SIZES: &[usize] = &[4, 12, 40, 70];
const LONG: &[usize] = &[250, 251, 256, 300];

harnesses! {
	fn h_date() { go::<NaiveDate>() }
	fn h_time() { go::<NaiveTime>() }
	fn h_datetime_time() {
		let d = need(NaiveDate::from_ymd_opt(YEARS[sx::pick(YEARS.len())], 2, 28));
		dt(d.and_time(NaiveTime::sym()).and_utc())
	}
	fn h_datetime_year() {
		let d = need(NaiveDate::from_yo_opt(YEARS[sx::pick(YEARS.len())], sx::u32()));
		dt(d.and_hms_opt(1, 2, 3).unwrap().and_utc())
	}
	fn h_timedelta() { go::<TimeDelta>() }
	fn h_decimal() { go::<Decimal>() }
	fn h_vec_decimal() { go::<Vec<Decimal>>() }
	fn h_uuid() { go::<Uuid>() }
	fn h_vec_uuid() { go::<Vec<Uuid>>() }
	/// lists without a bulk form
	fn h_vec_string() { go::<Vec<String>>() }
	fn h_vec_option() { go::<Vec<Option<u16>>>() }
	fn h_notnan_f32() { go::<NotNan<f32>>() }
	fn h_notnan_f64() { go::<NotNan<f64>>() }
	fn h_bytes() { go::<Bytes>() }
	fn h_coord() { go::<Coord>() }
	fn h_point() { go::<Point>() }
	fn h_line() { go::<LineString>() }
	fn h_polygon() { go::<Polygon>() }
	fn h_multipoint() { go::<MultiPoint>() }
	fn h_multiline() { go::<MultiLineString>() }
	fn h_vector_u8() { go::<Vector<u8>>() }
	fn h_vector_u16() { go::<Vector<u16>>() }
	fn h_vector_string() { go::<Vector<String>>() }
	fn h_ordmap() { go::<OrdMap<u8, u16>>() }
	fn h_ordmap_string() { go::<OrdMap<String, u8>>() }
	fn h_ordset() { go::<OrdSet<u16>>() }
	fn h_nested() { go::<Option<(Uuid, NaiveTime)>>() }
	fn h_indexed_ordmap() {
		let v = OrdMap::<u8, u16>::sym();
		indexed(&v, Sym::same, |v, w| v.serialize_indexed_map(w), |r| OrdMap::deserialize_indexed_map(r), |r| OrdMap::<u8, u16>::skip_indexed_map(r));
	}
	fn h_indexed_hashmap() {
		let n = sx::pick(4);
		let mut v = imbl::HashMap::<u32, u16>::new();
		for i in 0..n { v.insert(i as u32 * 300, sx::u16()); }
		indexed(&v, hash_map, |v, w| v.serialize_indexed_map(w), |r| imbl::HashMap::deserialize_indexed_map(r), |r| imbl::HashMap::<u32, u16>::skip_indexed_map(r));
	}
	fn h_indexed_vector() {
		let v = Vector::<u16>::sym();
		indexed(&v, Sym::same, |v, w| v.serialize_indexed_seq(w), |r| Vector::deserialize_indexed_seq(r), |r| Vector::<u16>::skip_indexed_seq(r));
	}
	fn h_indexed_vector_string() {
		let v = Vector::<String>::sym();
		indexed(&v, Sym::same, |v, w| v.serialize_indexed_seq(w), |r| Vector::deserialize_indexed_seq(r), |r| Vector::<String>::skip_indexed_seq(r));
	}
	fn h_indexed_ordset() {
		let v = OrdSet::<u16>::sym();
		indexed(&v, Sym::same, |v, w| v.serialize_indexed_set(w), |r| OrdSet::deserialize_indexed_set(r), |r| OrdSet::<u16>::skip_indexed_set(r));
	}
	fn h_indexed_hashset() {
		let n = sx::pick(4);
		let mut v = imbl::HashSet::<u32>::new();
		for i in 0..n { v.insert(i as u32 * 300); }
		indexed(&v, hash_set, |v, w| v.serialize_indexed_set(w), |r| imbl::HashSet::deserialize_indexed_set(r), |r| imbl::HashSet::<u32>::skip_indexed_set(r));
	}
	fn h_bytes_long() {
		let n = LONG[sx::pick(LONG.len())];
		let mut v = vec![7u8; n];
		v[0] = sx::u8(); v[n - 1] = sx::u8();
		roundtrip(&Bytes::from(v), Sym::same);
	}
	fn h_vector_many() {
		let n = SIZES[sx::pick(SIZES.len())];
		let mut v = Vector::new();
		for i in 0..n { v.push_back(if i % 9 == 0 { sx::u16() } else { i as u16 * 99 }); }
		roundtrip(&v, Vector::same);
	}
	fn h_ordmap_many() {
		let n = SIZES[sx::pick(SIZES.len())];
		let mut m = OrdMap::new();
		for i in 0..n { m.insert(i as u32 * 300, sx::u8()); }
		roundtrip(&m, OrdMap::same);
	}
	fn h_ordset_many() {
		let n = SIZES[sx::pick(SIZES.len())];
		let mut m = OrdSet::new();
		for i in 0..n { m.insert(i as i32 * 300 - 700); }
		roundtrip(&m, OrdSet::same);
	}
	fn h_hashmap() {
		let n = sx::pick(4);
		let mut m = imbl::HashMap::new();
		for i in 0..n { m.insert(i as u32 * 300, sx::u16()); }
		unordered(&m, hash_map);
	}
	fn h_hashset() {
		let n = sx::pick(4);
		let mut m = imbl::HashSet::new();
		for i in 0..n { m.insert(i as u32 * 300); }
		unordered(&m, hash_set);
	}
}
fn hash_map(a: &imbl::HashMap<u32, u16>, b: &imbl::HashMap<u32, u16>) -> bool {
	a.len() == b.len() && a.iter().all(|(k, v)| b.get(k) == Some(v))
}
fn hash_set(a: &imbl::HashSet<u32>, b: &imbl::HashSet<u32>) -> bool {
	a.len() == b.len() && a.iter().all(|k| b.contains(k))
}
/// as `roundtrip`, for encodings whose order depends on the hasher's seed
fn unordered<T: SerializeRevisioned + DeserializeRevisioned>(v: &T, same: fn(&T, &T) -> bool) {
	let mut out = ser(v);
	let n = out.len();
	out.push(sx::u8());
	let mut r = &out[..];
	match T::deserialize_revisioned(&mut r) {
		Ok(w) => sx::check(same(v, &w), "decoding the encoding of a value gave a different value"),
		Err(_) => sx::fail("the encoding of a value was rejected"),
	}
	sx::check(r.len() == 1, "decoding did not consume exactly the encoding");
	sx::observe(n as u64);
}
fn indexed<T>(
	v: &T,
	same: fn(&T, &T) -> bool,
	enc: fn(&T, &mut Vec<u8>) -> Result<(), Error>,
	dec: fn(&mut &[u8]) -> Result<T, Error>,
	skip: fn(&mut SliceReader) -> Result<(), Error>,
) {
	let mut out = Vec::new();
	sx::check(enc(v, &mut out).is_ok(), "serialising an in-memory value failed");
	let n = out.len();
	out.push(sx::u8());
	let mut r = &out[..];
	match dec(&mut r) {
		Ok(w) => sx::check(same(v, &w), "decoding the indexed encoding of a value gave a different value"),
		Err(_) => sx::fail("the indexed encoding of a value was rejected"),
	}
	sx::check(r.len() == 1, "decoding did not consume exactly the indexed encoding");
	let mut r = SliceReader::new(&out);
	sx::check(skip(&mut r).is_ok(), "skipping an indexed encoding fails");
	sx::check(r.consumed_len() == n, "skipping does not consume exactly the indexed encoding");
	sx::observe(n as u64);
}
