//! Malformed input for the supported third-party types.
use crate::ext::*;
use crate::harnesses;
use crate::sx;
use crate::sym::*;
use crate::util::*;
use bytes::Bytes;
use chrono::{DateTime, NaiveDate, NaiveTime, TimeDelta, Utc};
use geo::{Coord, LineString, MultiLineString, MultiPoint, MultiPolygon, Point, Polygon};
use imbl::{OrdMap, OrdSet, Vector};
use ordered_float::NotNan;
use revision::slice_reader::{BorrowedReader, SliceReader};
use rust_decimal::Decimal;
use uuid::Uuid;

fn decode<T: DeserializeRevisioned + SkipRevisioned + SkipCheckRevisioned>(s: &[u8]) -> Option<(T, usize)> {
	agree::<T>(s);
	let mut r = s;
	let d = T::deserialize_revisioned(&mut r).ok();
	if d.is_none() {
		// a skip that does not check: any result, but inside the input
		let mut r = s;
		let _ = T::skip_revisioned(&mut r);
		if let Ok(n) = skip_slice::<T>(s) {
			sx::check(n <= s.len(), "a skip goes past the input");
		}
	}
	d.map(|v| (v, s.len() - r.len()))
}
macro_rules! leaf {
	($t:ty, $n:expr, $f:expr, $d:expr) => {
		leaf!($t, $n, $f, $d, |_| true)
	};
	($t:ty, $n:expr, $f:expr, $d:expr, $assume:expr) => {{
		sx::allow_huge();
		sx::expect("an input that decodes");
		const N: usize = bound($n, $f, $d);
		let b = sx::bytes::<N>();
		sx::assume($assume(&b[..]));
		let s = &b[..sx::pick(N + 1)];
		let d = decode::<$t>(s);
		let mut r = SliceReader::new(s);
		match sx::pick(3) {
			0 => {
				let w = match <$t>::walk_revisioned(&mut r) {
					Ok(w) => w,
					Err(_) => {
						sx::check(d.is_none(), "walking fails where decoding succeeds");
						return;
					}
				};
				match (w.decode(), d) {
					(Ok(v), Some((x, n))) => {
						sx::check(v.same(&x), "walking gives another value than decoding");
						sx::check(r.consumed_len() == n, "walking ends elsewhere than decoding");
						sx::cover("a walk over what decodes");
					}
					(Err(_), None) => {}
					(Ok(_), None) => sx::fail("walking gives a value where decoding fails"),
					(Err(_), Some(_)) => sx::fail("walking fails where decoding succeeds"),
				}
			}
			1 => {
				if let Ok(w) = <$t>::walk_revisioned(&mut r) {
					let ok = w.skip().is_ok();
					if let Some((_, n)) = d {
						sx::check(ok && r.consumed_len() == n, "skipping a walker disagrees with decoding");
					}
				}
			}
			_ => {}
		}
	}};
}
macro_rules! seq {
	($t:ty, $item:ty, $n:expr, $f:expr, $d:expr) => {{
		sx::allow_huge();
		sx::expect("an input that decodes");
		const N: usize = bound($n, $f, $d);
		let b = sx::bytes::<N>();
		let s = &b[..sx::pick(N + 1)];
		let d = decode::<$t>(s);
		// element by element, as a plain sequence of the wire form
		let mut r = SliceReader::new(s);
		let mut got: Vec<$item> = Vec::new();
		let walked = (|| -> Result<(), Error> {
			let mut w = <$t>::walk_revisioned(&mut r)?;
			while let Some(it) = w.next_item() {
				got.push(it.decode()?);
			}
			Ok(())
		})();
		match (walked, d) {
			(Ok(()), Some((x, n))) => {
				let y: $t = got.into_iter().collect();
				sx::check(x.same(&y), "walking gives another value than decoding");
				sx::check(r.consumed_len() == n, "walking ends elsewhere than decoding");
				sx::cover("a walk over what decodes");
			}
			(Err(_), None) => {}
			(Ok(_), None) => sx::fail("walking gives a value where decoding fails"),
			(Err(_), Some(_)) => sx::fail("walking fails where decoding succeeds"),
		}
	}};
}
macro_rules! map {
	($t:ty, $n:expr, $f:expr, $d:expr) => {{
		sx::allow_huge();
		sx::expect("an input that decodes");
		const N: usize = bound($n, $f, $d);
		let b = sx::bytes::<N>();
		let s = &b[..sx::pick(N + 1)];
		let d = decode::<$t>(s);
		let mut r = SliceReader::new(s);
		let mut got = Vec::new();
		let walked = (|| -> Result<(), Error> {
			let mut w = <$t>::walk_revisioned(&mut r)?;
			while let Some(e) = w.next_entry() {
				got.push(e.decode_pair()?);
			}
			Ok(())
		})();
		match (walked, d) {
			(Ok(()), Some((x, n))) => {
				let y: $t = got.into_iter().collect();
				sx::check(x.same(&y), "walking gives another value than decoding");
				sx::check(r.consumed_len() == n, "walking ends elsewhere than decoding");
				sx::cover("a walk over what decodes");
			}
			(Err(_), None) => {}
			(Ok(_), None) => sx::fail("walking gives a value where decoding fails"),
			(Err(_), Some(_)) => sx::fail("walking fails where decoding succeeds"),
		}
	}};
}
/// bounds the arithmetic: years of up to 2 bytes
fn short_year(b: &[u8]) -> bool {
	if cfg!(feature = "fixedw") {
		b[2] == b[3]
	} else {
		b[0] < 252
	}
}
/// seconds within two hours of the epoch, and any malformed prefix
fn short_secs(b: &[u8]) -> bool {
	if cfg!(feature = "fixedw") {
		b[2..8].iter().all(|x| *x == 0)
	} else {
		b[0] < 252 || b[0] > 253
	}
}
/// a count of up to two, in any form
fn two(b: &[u8], i: usize) -> bool {
	cfg!(feature = "fixedw") || b[i] <= 2 || (b[i] > 250 && b[i + 1] <= 2 && b[i + 2..i + 9].iter().all(|x| *x == 0))
}
fn few_lines(b: &[u8]) -> bool {
	two(b, 0)
}
fn few_rings(b: &[u8]) -> bool {
	(b[0] != 0 || two(b, 1)) && (b[0] < 251 || two(b, 0))
}
fn few_polygons(b: &[u8]) -> bool {
	two(b, 0) && few_rings(&b[1..])
}
fn bulk<T: WalkRevisioned>() {
	let d = sx::bytes::<40>();
	let mut r = SliceReader::new(&d);
	sx::check(T::walk_revisioned(&mut r).is_err(), "a vector in bulk encoding is walked element by element");
}

harnesses! {
	fn h_date() { leaf!(NaiveDate, 5, 13, 6, short_year) }
	fn h_time() { leaf!(NaiveTime, 6, 17, 8) }
	fn h_datetime() { leaf!(DateTime<Utc>, 7, 13, 9, short_secs) }
	fn h_timedelta() { leaf!(TimeDelta, 15, 13, 15) }
	fn h_decimal() { leaf!(Decimal, 17, 17, 17) }
	fn h_uuid() { leaf!(Uuid, 17, 17, 17) }
	fn h_bytes() { leaf!(Bytes, 12, 12, 14) }
	fn h_coord() { leaf!(Coord, 17, 17, 17) }
	fn h_point() { leaf!(Point, 17, 17, 17) }
	fn h_line() { leaf!(LineString, 34, 41, 50) }
	fn h_multipoint() { leaf!(MultiPoint, 34, 41, 50) }
	fn h_multiline() { leaf!(MultiLineString, 19, 33, 36, few_lines) }
	fn h_polygon() { leaf!(Polygon, 19, 33, 36, few_rings) }
	fn h_multipolygon() { leaf!(MultiPolygon, 11, 41, 19, few_polygons) }
	fn h_notnan_f32() { notnan::<f32, 5>() }
	fn h_notnan_f64() { notnan::<f64, 9>() }
	fn h_vec_decimal() { vec::<Decimal, 34>() }
	fn h_vec_uuid() { vec::<Uuid, 34>() }
	/// lists without a bulk form stay what they are next to those that have one
	fn h_vec_string() { vec::<String, { bound(6, 18, 7) }>() }
	fn h_vec_option() { vec::<Option<u8>, { bound(8, 12, 9) }>() }
	fn h_vec_list() { vec::<Vec<u8>, { bound(6, 17, 7) }>() }
	fn h_vector_u8() { seq!(Vector<u8>, u8, 5, 11, 6) }
	fn h_vector_u16() { seq!(Vector<u16>, u16, 7, 13, 8) }
	fn h_vector_string() { seq!(Vector<String>, String, 5, 18, 6) }
	fn h_ordset() { seq!(OrdSet<u8>, u8, 5, 11, 6) }
	fn h_ordmap() { map!(OrdMap<u8, u8>, 6, 12, 7) }
	#[cfg(feature = "spec")]
	fn h_bulk_decimal() { bulk::<Vec<Decimal>>() }
	#[cfg(feature = "spec")]
	fn h_bulk_uuid() { bulk::<Vec<Uuid>>() }
}
fn vec<T: Sym, const N: usize>()
where
	Vec<T>: Sym + DeserializeRevisioned + SkipRevisioned + SkipCheckRevisioned + SerializeRevisioned,
{
	sx::allow_huge();
	sx::expect("an input that decodes");
	let b = sx::bytes::<N>();
	let s = &b[..sx::pick(N + 1)];
	if let Some((x, _)) = decode::<Vec<T>>(s) {
		let out = ser(&x);
		sx::check(de::<Vec<T>>(&mut &out[..]).map_or(false, |y| y.same(&x)), "a decoded value does not survive another round trip");
	}
}
fn notnan<F, const N: usize>()
where
	F: Sym + DeserializeRevisioned,
	NotNan<F>: DeserializeRevisioned + SkipRevisioned + SkipCheckRevisioned,
	F: ordered_float::FloatCore,
{
	sx::expect("an input that decodes");
	let b = sx::bytes::<N>();
	let s = &b[..sx::pick(N + 1)];
	let d = decode::<NotNan<F>>(s);
	if let Some((x, _)) = &d {
		sx::check(!x.into_inner().is_nan(), "a not-NaN float that is NaN");
	}
	let mut r = s;
	match F::deserialize_revisioned(&mut r) {
		Ok(f) => sx::check(d.is_some() != f.is_nan(), "a NaN is accepted or a number is refused"),
		Err(_) => sx::check(d.is_none(), "a value out of nothing"),
	}
}
