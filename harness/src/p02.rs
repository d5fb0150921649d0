//! Round trip and prefix rejection of scalars, text, time and structural types.
use crate::harnesses;
use crate::sx;
use crate::sym::*;
use crate::util::*;
use std::borrow::Cow;
use std::cmp::Reverse;
use std::num::Wrapping;
use std::ops::{Bound, Range};
use std::path::PathBuf;
use std::sync::Arc;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

fn go<T: Sym + SerializeRevisioned + DeserializeRevisioned>() {
	let v = T::sym();
	let out = roundtrip(&v, T::same);
	truncated::<T>(&out);
}
/// text around the length-prefix boundaries
fn long<T: SerializeRevisioned + DeserializeRevisioned>(mk: impl Fn(String) -> T, view: impl Fn(&T) -> &[u8]) {
	const L: &[usize] = &[1, 3, 249, 250, 251, 252, 255, 256, 300, 65535, 65536];
	let s = ascii(L[sx::pick(L.len())]);
	let want = s.clone();
	let v = mk(s);
	let out = roundtrip(&v, |_, w| view(w) == want.as_bytes());
	// the length prefix is the integer encoding of the byte length, then the bytes
	let n = want.len();
	let pre: usize = if cfg!(feature = "fixedw") {
		8
	} else if n <= 250 {
		1
	} else if n <= 0xffff {
		3
	} else {
		5
	};
	sx::check(out.len() == pre + n, "text is not length then bytes");
	let mut r = &out[..out.len() - 1];
	sx::check(de::<T>(&mut r).is_err(), "a truncated text was accepted");
}

harnesses! {
	fn h_bool() { go::<bool>() }
	fn h_char() { go::<char>() }
	fn h_f32() { go::<f32>() }
	fn h_f64() { go::<f64>() }
	fn h_unit() {
		let out = ser(&());
		sx::check(out.is_empty(), "unit is not empty");
		go::<()>()
	}
	fn h_string() { go::<String>() }
	fn h_string_chars() {
		// every sequence of up to this many arbitrary characters
		let n = sx::pick(if cfg!(feature = "deep") { 4 } else { 3 });
		let mut s = String::new();
		for _ in 0..n { s.push(char::sym()); }
		let out = roundtrip(&s, String::same);
		truncated::<String>(&out);
	}
	fn h_box_str() { go::<Box<str>>() }
	fn h_arc_str() { go::<Arc<str>>() }
	fn h_cow_str() { go::<Cow<'static, str>>() }
	fn h_pathbuf() { go::<PathBuf>() }
	fn h_string_long() { long::<String>(|s| s, |s| s.as_bytes()) }
	fn h_box_str_long() { long::<Box<str>>(|s| s.into(), |s| s.as_bytes()) }
	fn h_arc_str_long() { long::<Arc<str>>(|s| s.into(), |s| s.as_bytes()) }
	fn h_cow_str_long() { long::<Cow<'static, str>>(|s| Cow::Owned(s), |s| s.as_bytes()) }
	fn h_path_long() { long::<PathBuf>(|s| s.into(), |s| s.as_os_str().as_encoded_bytes()) }
	fn h_str_same_as_string() {
		let s = String::sym();
		let mut a = Vec::new();
		sx::check(s.as_str().serialize_revisioned(&mut a).is_ok(), "str does not encode");
		sx::check(a == ser(&s), "str and String encode differently");
	}
	fn h_duration() { go::<Duration>() }
	fn h_system_time() { go::<SystemTime>() }
	fn h_system_time_before_epoch() {
		// not representable: must be refused, not written as something else
		let d = Duration::sym();
		let t = match UNIX_EPOCH.checked_sub(d) { Some(t) => t, None => return };
		let mut out = Vec::new();
		let r = t.serialize_revisioned(&mut out);
		if d == Duration::ZERO {
			sx::expect("epoch itself");
			sx::cover("epoch itself");
			sx::check(r.is_ok(), "the epoch is not encodable");
		} else {
			sx::check(r.is_err(), "a time before the epoch was encoded");
		}
	}
	fn h_tuple1() { go::<(u16,)>() }
	fn h_tuple2() { go::<(u8, u16)>() }
	fn h_tuple3() { go::<(u16, String, i8)>() }
	fn h_tuple4() { go::<(u8, i16, bool, u8)>() }
	fn h_tuple5() { go::<(u8, u16, u8, i8, bool)>() }
	fn h_tuple6() { go::<(u8, i8, u8, u16, bool, u8)>() }
	fn h_array1() { go::<[u32; 1]>() }
	fn h_array3() { go::<[u16; 3]>() }
	fn h_array16() { go::<[u8; 16]>() }
	fn h_array31() { go::<[i8; 31]>() }
	fn h_array32() { go::<[u8; 32]>() }
	fn h_option() { go::<Option<u32>>() }
	fn h_option_nested() { go::<Option<Option<bool>>>() }
	fn h_option_string() { go::<Option<String>>() }
	fn h_option_unit() { go::<Option<()>>() }
	fn h_result() { go::<Result<u32, String>>() }
	fn h_result_same_types() { go::<Result<u16, u16>>() }
	fn h_bound() { go::<Bound<u32>>() }
	fn h_bound_string() { go::<Bound<String>>() }
	fn h_range() { go::<Range<u32>>() }
	fn h_range_i64() { go::<Range<i64>>() }
	fn h_wrapping() { go::<Wrapping<u32>>() }
	fn h_wrapping_i64() { go::<Wrapping<i64>>() }
	fn h_reverse() { go::<Reverse<u32>>() }
	fn h_box() { go::<Box<u32>>() }
	fn h_arc() { go::<Arc<u32>>() }
	fn h_cow() { go::<Cow<'static, u32>>() }
	fn h_nested() { go::<Option<Box<(Result<u16, bool>, Bound<Wrapping<u8>>)>>>() }
}
