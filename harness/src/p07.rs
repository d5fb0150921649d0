//! Short writes, interruptions and write errors never lose data silently.
use crate::faulty::Writer;
use crate::harnesses;
use crate::model::*;
use crate::sx;
use crate::sym::*;
use crate::util::*;
use bytes::Bytes;
use chrono::{DateTime, NaiveDate, NaiveTime, TimeDelta};
use geo::{LineString, Point, Polygon};
use imbl::{OrdMap, OrdSet, Vector};
use ordered_float::NotNan;
use revision::optimised::indexed::*;
use rust_decimal::Decimal;
use std::borrow::Cow;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap};
use std::num::Wrapping;
use std::ops::{Bound, Range};
use std::path::PathBuf;
use std::sync::Arc;
use uuid::Uuid;
use std::time::{Duration, SystemTime};

pub fn faults<T: SerializeRevisioned>(v: &T) {
	let out = match to_vec(v) {
		Ok(o) => o,
		Err(_) => sx::fail("serialising an in-memory value failed"),
	};
	let n = sx::concrete(out.len());
	if sx::pick(2) == 0 {
		let mut w = Writer::pieces(n);
		sx::check(to_writer(&mut w, v).is_ok(), "a short or interrupted write made encoding fail");
		sx::check(w.got == out, "a short or interrupted write lost or changed data");
	} else if n > 0 {
		let limit = if n <= 40 {
			sx::pick(n)
		} else {
			[0, 1, 3, n / 2, n - 2, n - 1][sx::pick(6)]
		};
		let mut w = Writer::full(limit, sx::flag());
		sx::check(to_writer(&mut w, v).is_err(), "success although the writer refused data");
		sx::check(w.got[..] == out[..w.got.len()], "the writer was given something that is not a prefix of the encoding");
	}
	sx::observe(n as u64);
}
fn go<T: Sym + SerializeRevisioned>() {
	faults(&T::sym())
}

/// derived types, in their current layout
fn derived<M: Model>() {
	uniform(true);
	let (_, v) = M::written(M::LATEST);
	indexed(ser(&v), |w| v.serialize_revisioned(w).is_ok())
}
/// the indexed layouts
fn indexed(out: Vec<u8>, write: impl Fn(&mut Writer) -> bool) {
	let n = sx::concrete(out.len());
	if sx::pick(2) == 0 {
		let mut w = Writer::fewer(n);
		sx::check(write(&mut w), "a short or interrupted write made encoding fail");
		sx::check(w.got == out, "a short or interrupted write lost or changed data");
	} else if n > 0 {
		let limit = if n <= 40 { sx::pick(n) } else { [0, 1, 3, n / 2, n - 2, n - 1][sx::pick(6)] };
		let mut w = Writer::full(limit, sx::flag());
		sx::check(!write(&mut w), "success although the writer refused data");
		sx::check(w.got[..] == out[..w.got.len()], "the writer was given something that is not a prefix of the encoding");
	}
	sx::observe(n as u64);
}
fn size() -> usize {
	[0, 3, 8][sx::pick(3)]
}

harnesses! {
	fn h_m_evo() { derived::<Evo>() }
	fn h_m_mk() { derived::<Mk>() }
	fn h_m_mw() { derived::<Mw>() }
	fn h_m_many() { derived::<Many>() }
	fn h_m_nest() { derived::<Nest>() }
	fn h_m_os() { derived::<Os>() }
	fn h_m_oc() { derived::<Oc>() }
	fn h_m_ou() { derived::<Ou>() }
	fn h_m_oi() { derived::<Oi>() }
	fn h_m_or() { derived::<Or>() }
	fn h_m_on() { derived::<On>() }
	fn h_m_ev() { derived::<Ev>() }
	fn h_m_ea() { derived::<Ea>() }
	fn h_m_mke() { derived::<MkE>() }
	fn h_m_oe() { derived::<Oe>() }
	fn h_m_ow() { derived::<Ow>() }
	fn h_indexed_map() {
		let mut m: BTreeMap<u8, u16> = (0..size() as u8).map(|i| (i * 3 + 1, 7)).collect();
		m.insert(0, sx::u16());
		indexed(imap(&m), |w| m.serialize_indexed_map(w).is_ok())
	}
	fn h_indexed_hash() {
		let mut m: HMap<u8, u16> = (0..size() as u8).map(|i| (i * 3 + 1, 7)).collect();
		m.insert(0, sx::u16());
		indexed(imap(&m), |w| m.serialize_indexed_map(w).is_ok())
	}
	fn h_indexed_seq() {
		let mut v: Vec<String> = (0..size()).map(|i| "y".repeat(i)).collect();
		v.push(ascii(sx::pick(2)));
		indexed(iseq(&v), |w| v.serialize_indexed_seq(w).is_ok())
	}
	fn h_indexed_set() {
		let mut v: BTreeSet<u32> = (0..size() as u32).map(|i| i * 200).collect();
		v.insert(sx::u32());
		indexed(iset(&v), |w| v.serialize_indexed_set(w).is_ok())
	}
	fn h_x_date() { faults(&NaiveDate::from_ymd_opt([-5, 1970, 2024][sx::pick(3)], 2, 28).unwrap()) }
	fn h_x_time() { go::<NaiveTime>() }
	fn h_x_datetime() { faults(&DateTime::from_timestamp(1_700_000_000 + sx::u8() as i64, 5).unwrap()) }
	fn h_x_timedelta() { faults(&TimeDelta::new(sx::u16() as i64 - 30000, 5).unwrap()) }
	fn h_x_decimal() { go::<Decimal>() }
	fn h_x_uuid() { go::<Uuid>() }
	fn h_x_notnan() { go::<NotNan<f64>>() }
	fn h_x_bytes() { go::<Bytes>() }
	fn h_x_point() { go::<Point>() }
	fn h_x_line() { go::<LineString>() }
	fn h_x_polygon() { faults(&Polygon::new(LineString(vec![(1.0, 2.0).into(), (3.0, 4.0).into()]), vec![])) }
	fn h_x_vector() { go::<Vector<u16>>() }
	fn h_x_ordmap() { go::<OrdMap<u8, u16>>() }
	fn h_x_ordset() { go::<OrdSet<u16>>() }
	fn h_bool() { go::<bool>() }
	fn h_char() { go::<char>() }
	fn h_f32() { go::<f32>() }
	fn h_f64() { go::<f64>() }
	fn h_u8() { go::<u8>() }
	fn h_i8() { go::<i8>() }
	fn h_u16() { go::<u16>() }
	fn h_u32() { go::<u32>() }
	fn h_u64() { go::<u64>() }
	fn h_u128() { go::<u128>() }
	fn h_i16() { go::<i16>() }
	fn h_i32() { go::<i32>() }
	fn h_i64() { go::<i64>() }
	fn h_i128() { go::<i128>() }
	fn h_usize() { go::<usize>() }
	fn h_isize() { go::<isize>() }
	fn h_string() { go::<String>() }
	fn h_box_str() { go::<Box<str>>() }
	fn h_arc_str() { go::<Arc<str>>() }
	fn h_cow_str() { go::<Cow<'static, str>>() }
	fn h_pathbuf() { go::<PathBuf>() }
	fn h_duration() { go::<Duration>() }
	fn h_system_time() { go::<SystemTime>() }
	fn h_tuple() { go::<(u8, u16, bool)>() }
	fn h_tuple6() { go::<(u8, bool, i8, u16, bool, u8)>() }
	fn h_array() { go::<[u16; 3]>() }
	fn h_array_u8() { go::<[u8; 8]>() }
	fn h_option() { go::<Option<u32>>() }
	fn h_option_bool() { go::<Option<bool>>() }
	fn h_result() { go::<Result<u16, bool>>() }
	fn h_bound() { go::<Bound<u16>>() }
	fn h_range() { go::<Range<u16>>() }
	fn h_wrapping() { go::<Wrapping<u32>>() }
	fn h_reverse() { go::<Reverse<i32>>() }
	fn h_box() { go::<Box<u32>>() }
	fn h_arc() { go::<Arc<u32>>() }
	fn h_cow() { go::<Cow<'static, u16>>() }
	fn h_vec_u8() { go::<Vec<u8>>() }
	fn h_vec_i8() { go::<Vec<i8>>() }
	fn h_vec_bool() { go::<Vec<bool>>() }
	fn h_vec_u16() { go::<Vec<u16>>() }
	fn h_vec_u32() { go::<Vec<u32>>() }
	fn h_vec_u64() { go::<Vec<u64>>() }
	fn h_vec_i64() { go::<Vec<i64>>() }
	fn h_vec_u128() { go::<Vec<u128>>() }
	fn h_vec_f32() { go::<Vec<f32>>() }
	fn h_vec_f64() { go::<Vec<f64>>() }
	fn h_vec_string() { faults(&vec![ascii(2), ascii(0), ascii(1)]) }
	fn h_vec_option() { go::<Vec<Option<u8>>>() }
	fn h_btreemap() { go::<BTreeMap<u8, u16>>() }
	fn h_btreeset() { go::<BTreeSet<u8>>() }
	fn h_hashmap() { go::<HMap<u8, u16>>() }
	fn h_hashset() { go::<HSet<u8>>() }
	fn h_heap() { go::<BinaryHeap<u8>>() }
	fn h_long_string() {
		const L: &[usize] = &[251, 4097];
		faults(&ascii(L[sx::pick(L.len())]))
	}
	fn h_long_vec_u32() { faults(&vec![sx::u32(); 300]) }
	fn h_long_vec_bool() {
		const L: &[usize] = &[8, 9, 17, 300];
		faults(&vec![true; L[sx::pick(L.len())]])
	}
}
