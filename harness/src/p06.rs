//! Decoding and skipping do not depend on how the reader delivers bytes; a failing reader is an error.
use crate::faulty::Reader;
use crate::harnesses;
use crate::model::*;
use crate::sx;
use crate::sym::*;
use crate::util::*;
use bytes::Bytes;
use chrono::{DateTime, NaiveDate, NaiveTime, TimeDelta};
use geo::{LineString, Point, Polygon};
use imbl::{OrdMap, OrdSet, Vector};
use ordered_float::NotNan;
use revision::optimised::indexed::*;
use rust_decimal::Decimal;
use std::borrow::Cow;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap};
use std::num::Wrapping;
use std::ops::{Bound, Range};
use std::path::PathBuf;
use std::sync::Arc;
use uuid::Uuid;
use std::time::{Duration, SystemTime};

pub fn faults<T: SerializeRevisioned + DeserializeRevisioned + SkipRevisioned + SkipCheckRevisioned>(v: &T, same: fn(&T, &T) -> bool) {
	let out = ser(v);
	let n = sx::concrete(out.len());
	let mut full = out.clone();
	full.push(0xff);
	match sx::pick(6) {
		0 => {
			let mut r = Reader::pieces(&full);
			match from_reader::<_, T>(&mut r) {
				Ok(w) => {
					sx::check(same(v, &w), "delivering the bytes in pieces changed the value");
					sx::check(r.pos == n, "decoding took a different number of bytes from the reader");
				}
				Err(_) => sx::fail("delivering the bytes in pieces made decoding fail"),
			}
		}
		1 => {
			let mut r = Reader::pieces(&full);
			sx::check(skip_reader::<T, _>(&mut r).is_ok(), "delivering the bytes in pieces made skipping fail");
			sx::check(r.pos == n, "skipping took a different number of bytes from the reader");
		}
		2 => {
			let mut r = Reader::pieces(&full);
			sx::check(skip_check_reader::<T, _>(&mut r).is_ok(), "delivering the bytes in pieces made the checking skip fail");
			sx::check(r.pos == n, "the checking skip took a different number of bytes from the reader");
		}
		k => {
			if n == 0 {
				return;
			}
			let stop = if n <= 40 {
				sx::pick(n)
			} else {
				[0, 1, 3, n / 2, n - 2, n - 1][sx::pick(6)]
			};
			let fail = sx::flag();
			let mut r = Reader::stops(&full, stop, fail);
			let ok = match k {
				3 => from_reader::<_, T>(&mut r).is_ok(),
				4 => skip_reader::<T, _>(&mut r).is_ok(),
				_ => skip_check_reader::<T, _>(&mut r).is_ok(),
			};
			sx::check(!ok, "success although the reader ended or failed early");
		}
	}
	sx::observe(n as u64);
}
fn go<T: Sym + SerializeRevisioned + DeserializeRevisioned + SkipRevisioned + SkipCheckRevisioned>() {
	let v = T::sym();
	faults(&v, T::same);
}

/// what some revision of a derived type wrote
fn derived<M: Model>() {
	let rev = any_rev::<M>();
	uniform(true);
	let (bytes, want) = M::written(rev);
	let n = sx::concrete(bytes.len());
	let mut full = bytes;
	full.push(0xff);
	match sx::pick(6) {
		0 => {
			let mut r = Reader::fewer(&full);
			match M::deserialize_revisioned(&mut r) {
				Ok(got) => sx::check(got.eq(&want) && r.pos == n, "delivering the bytes in pieces changed the value"),
				Err(_) => sx::fail("delivering the bytes in pieces made decoding fail"),
			}
		}
		1 => {
			let mut r = Reader::fewer(&full);
			sx::check(M::skip_revisioned(&mut r).is_ok() && r.pos == n, "delivering the bytes in pieces made skipping go elsewhere");
		}
		2 => {
			let mut r = Reader::fewer(&full);
			sx::check(M::skip_check_revisioned(&mut r).is_ok() && r.pos == n, "delivering the bytes in pieces made the checking skip go elsewhere");
		}
		k => {
			let mut r = Reader::stops(&full, sx::pick(n), sx::flag());
			let ok = match k {
				3 => M::deserialize_revisioned(&mut r).is_ok(),
				4 => M::skip_revisioned(&mut r).is_ok(),
				_ => M::skip_check_revisioned(&mut r).is_ok(),
			};
			sx::check(!ok, "success although the reader ended or failed early");
		}
	}
	sx::observe(n as u64);
}
/// the indexed layouts
fn indexed(bytes: Vec<u8>, decode: impl Fn(&mut Reader<'_>) -> Option<bool>) {
	let n = sx::concrete(bytes.len());
	let mut full = bytes;
	full.push(0xff);
	if sx::pick(2) == 0 {
		let mut r = Reader::fewer(&full);
		sx::check(decode(&mut r) == Some(true) && r.pos == n, "delivering the bytes in pieces changed the value");
	} else {
		let stop = if n < 40 { sx::pick(n) } else { [0, 1, 3, n / 2, n - 2, n - 1][sx::pick(6)] };
		let mut r = Reader::stops(&full, stop, sx::flag());
		sx::check(decode(&mut r).is_none(), "success although the reader ended or failed early");
	}
	sx::observe(n as u64);
}
fn size() -> usize {
	[0, 3, 8][sx::pick(3)]
}

harnesses! {
	fn h_m_evo() { derived::<Evo>() }
	fn h_m_mk() { derived::<Mk>() }
	fn h_m_mw() { derived::<Mw>() }
	fn h_m_many() { derived::<Many>() }
	fn h_m_os() { derived::<Os>() }
	fn h_m_oc() { derived::<Oc>() }
	fn h_m_ou() { derived::<Ou>() }
	fn h_m_oi() { derived::<Oi>() }
	fn h_m_or() { derived::<Or>() }
	fn h_m_ev() { derived::<Ev>() }
	fn h_m_ea() { derived::<Ea>() }
	fn h_m_mke() { derived::<MkE>() }
	fn h_m_oe() { derived::<Oe>() }
	fn h_m_ow() { derived::<Ow>() }
	fn h_indexed_map() {
		let mut m: BTreeMap<u8, u16> = (0..size() as u8).map(|i| (i * 3 + 1, 7)).collect();
		m.insert(0, sx::u16());
		indexed(imap(&m), |r| <BTreeMap<u8, u16>>::deserialize_indexed_map(r).ok().map(|w| w == m))
	}
	fn h_indexed_seq() {
		let mut v: Vec<String> = (0..size()).map(|i| "y".repeat(i)).collect();
		v.push(ascii(sx::pick(2)));
		indexed(iseq(&v), |r| <Vec<String>>::deserialize_indexed_seq(r).ok().map(|w| w == v))
	}
	fn h_indexed_set() {
		let mut v: BTreeSet<u32> = (0..size() as u32).map(|i| i * 200).collect();
		v.insert(sx::u32());
		indexed(iset(&v), |r| <BTreeSet<u32>>::deserialize_indexed_set(r).ok().map(|w| w == v))
	}
	fn h_x_date() { faults(&NaiveDate::from_ymd_opt([-5, 1970, 2024][sx::pick(3)], 2, 28).unwrap(), Sym::same) }
	fn h_x_time() { go::<NaiveTime>() }
	fn h_x_datetime() {
		let v = DateTime::from_timestamp(1_700_000_000 + sx::u8() as i64, 5).unwrap();
		faults(&v, Sym::same)
	}
	fn h_x_timedelta() {
		let v = TimeDelta::new(sx::u16() as i64 - 30000, 5).unwrap();
		faults(&v, Sym::same)
	}
	fn h_x_decimal() { go::<Decimal>() }
	fn h_x_uuid() { go::<Uuid>() }
	fn h_x_notnan() { go::<NotNan<f64>>() }
	fn h_x_bytes() { go::<Bytes>() }
	fn h_x_point() { go::<Point>() }
	fn h_x_line() { go::<LineString>() }
	fn h_x_polygon() { faults(&Polygon::new(LineString(vec![(1.0, 2.0).into(), (3.0, 4.0).into()]), vec![]), Sym::same) }
	fn h_x_vector() { go::<Vector<u16>>() }
	fn h_x_ordmap() { go::<OrdMap<u8, u16>>() }
	fn h_x_ordset() { go::<OrdSet<u16>>() }
	fn h_x_long_bytes() {
		const L: &[usize] = &[251, 4096, 4097];
		faults(&Bytes::from(vec![sx::u8(); L[sx::pick(L.len())]]), |a, b| a == b)
	}
	fn h_bool() { go::<bool>() }
	fn h_char() { go::<char>() }
	fn h_f32() { go::<f32>() }
	fn h_f64() { go::<f64>() }
	fn h_u8() { go::<u8>() }
	fn h_i8() { go::<i8>() }
	fn h_u16() { go::<u16>() }
	fn h_u32() { go::<u32>() }
	fn h_u64() { go::<u64>() }
	fn h_u128() { go::<u128>() }
	fn h_i16() { go::<i16>() }
	fn h_i32() { go::<i32>() }
	fn h_i64() { go::<i64>() }
	fn h_i128() { go::<i128>() }
	fn h_usize() { go::<usize>() }
	fn h_isize() { go::<isize>() }
	fn h_string() { go::<String>() }
	fn h_box_str() { go::<Box<str>>() }
	fn h_arc_str() { go::<Arc<str>>() }
	fn h_cow_str() { go::<Cow<'static, str>>() }
	fn h_pathbuf() { go::<PathBuf>() }
	fn h_duration() { go::<Duration>() }
	fn h_system_time() { go::<SystemTime>() }
	fn h_tuple() { go::<(u8, u16, bool)>() }
	fn h_tuple6() { go::<(u8, bool, i8, u16, bool, u8)>() }
	fn h_array() { go::<[u16; 3]>() }
	fn h_array_u8() { go::<[u8; 8]>() }
	fn h_option() { go::<Option<u32>>() }
	fn h_result() { go::<Result<u16, bool>>() }
	fn h_bound() { go::<Bound<u16>>() }
	fn h_range() { go::<Range<u16>>() }
	fn h_wrapping() { go::<Wrapping<u32>>() }
	fn h_reverse() { go::<Reverse<i32>>() }
	fn h_box() { go::<Box<u32>>() }
	fn h_arc() { go::<Arc<u32>>() }
	fn h_cow() { go::<Cow<'static, u16>>() }
	fn h_vec_u8() { go::<Vec<u8>>() }
	fn h_vec_i8() { go::<Vec<i8>>() }
	fn h_vec_bool() { go::<Vec<bool>>() }
	fn h_vec_u16() { go::<Vec<u16>>() }
	fn h_vec_u32() { go::<Vec<u32>>() }
	fn h_vec_u64() { go::<Vec<u64>>() }
	fn h_vec_i64() { go::<Vec<i64>>() }
	fn h_vec_u128() { go::<Vec<u128>>() }
	fn h_vec_f32() { go::<Vec<f32>>() }
	fn h_vec_f64() { go::<Vec<f64>>() }
	fn h_vec_string() { faults(&vec![ascii(2), ascii(0), ascii(1)], Vec::same) }
	fn h_vec_option() { go::<Vec<Option<u8>>>() }
	fn h_btreemap() { go::<BTreeMap<u8, u16>>() }
	fn h_btreeset() { go::<BTreeSet<u8>>() }
	fn h_hashmap() { go::<HMap<u8, u16>>() }
	fn h_hashset() { go::<HSet<u8>>() }
	fn h_heap() { go::<BinaryHeap<u8>>() }
	// longer than the internal chunk of the skipping code
	fn h_long_string() {
		const L: &[usize] = &[251, 4095, 4096, 4097, 8193];
		faults(&ascii(L[sx::pick(L.len())]), String::same)
	}
	fn h_long_vec_u8() {
		const L: &[usize] = if cfg!(feature = "spec") { &[251, 4095, 4096, 4097, 8193] } else { &[251, 260] };
		faults(&vec![sx::u8(); L[sx::pick(L.len())]], |a, b| a == b)
	}
	fn h_long_vec_u32() {
		const L: &[usize] = if cfg!(feature = "spec") { &[251, 1024, 1025, 2500] } else { &[251] };
		let mut v = vec![9u32; L[sx::pick(L.len())]];
		v[250] = sx::u32();
		faults(&v, Vec::same)
	}
	fn h_long_vec_bool() {
		const L: &[usize] = &[8, 9, 16, 17, 260];
		faults(&vec![true; L[sx::pick(L.len())]], Vec::same)
	}
}
