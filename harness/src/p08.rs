//! Layout of vectors with bulk encoding on and off, and of fields marked for bulk encoding.
use crate::harnesses;
use crate::sx;
use crate::sym::*;
use crate::util::*;

const SPEC: bool = cfg!(feature = "spec");
const N: usize = if cfg!(feature = "deep") { 4 } else { 3 };

/// length prefix, then the body
fn prefixed(n: usize, body: &[u8]) -> Vec<u8> {
	let mut o = ser(&n);
	o.extend_from_slice(body);
	o
}
fn sized<T: Sym>(n: usize) -> Vec<T> {
	let mut v = Vec::new();
	for _ in 0..n {
		v.push(T::sym());
	}
	v
}
fn skips<T: SkipRevisioned + SkipCheckRevisioned>(full: &[u8], n: usize) {
	match skip_slice::<T>(full) {
		Ok(k) => sx::check(k == n, "slice skip ends elsewhere"),
		Err(_) => sx::fail("slice skip fails"),
	}
	match skip_check_slice::<T>(full) {
		Ok(k) => sx::check(k == n, "checking skip ends elsewhere"),
		Err(_) => sx::fail("checking skip fails"),
	}
	let mut r = full;
	sx::check(skip_reader::<T, _>(&mut r).is_ok() && r.len() == full.len() - n, "reader skip ends elsewhere");
}
fn check<T>(v: Vec<T>, want: &[u8])
where
	T: Sym + SerializeRevisioned + DeserializeRevisioned + SkipRevisioned + SkipCheckRevisioned + 'static,
{
	let out = roundtrip(&v, Vec::same);
	sx::check(out[..] == *want, "the vector is not laid out as documented");
	let mut full = out.clone();
	full.push(sx::u8());
	skips::<Vec<T>>(&full, out.len());
}

/// elementwise bytes of a generic vector
fn each<T: SerializeRevisioned>(v: &[T]) -> Vec<u8> {
	let mut o = Vec::new();
	for x in v {
		o.extend_from_slice(&ser(x));
	}
	o
}

macro_rules! numeric {
	($($h:ident $hf:ident $s:ident $t:ty;)*) => {
		$(
			#[revisioned(revision = 1)]
			struct $s {
				a: u8,
				#[revision(specialised)]
				v: Vec<$t>,
				z: u8,
			}
		)*
		harnesses! {
			$(
				fn $h() {
					let v: Vec<$t> = sized(sx::pick(if std::mem::size_of::<$t>() == 16 { 3 } else { N + 1 }));
					let mut raw = Vec::new();
					for x in &v {
						raw.extend_from_slice(&x.to_le_bytes());
					}
					let body = if SPEC { raw } else { each(&v) };
					let want = prefixed(v.len(), &body);
					check(v, &want);
				}
				// the per-field mark gives the bulk layout whatever the option
				fn $hf() {
					let v: Vec<$t> = sized(sx::pick(N));
					let s = $s { a: sx::u8(), v, z: sx::u8() };
					let mut want = ser(&1u16);
					want.push(s.a);
					let mut raw = Vec::new();
					for x in &s.v {
						raw.extend_from_slice(&x.to_le_bytes());
					}
					want.extend_from_slice(&prefixed(s.v.len(), &raw));
					want.push(s.z);
					let out = roundtrip(&s, |p, q| p.a == q.a && p.v.same(&q.v) && p.z == q.z);
					sx::check(out == want, "a field marked for bulk encoding is laid out differently");
				}
			)*
			fn h_bool() {
				let n = sx::pick(if cfg!(feature = "deep") { 26 } else { 18 });
				// all values up to nine elements; beyond that one arbitrary element among a pattern
				let v: Vec<bool> = if n <= 9 {
					sized(n)
				} else {
					let mut v: Vec<bool> = (0..n).map(|i| i % 3 == 0).collect();
					v[sx::pick(n)] = sx::flag();
					v
				};
				let body = if SPEC {
					let mut p = vec![0u8; (n + 7) / 8];
					for i in 0..n {
						p[i / 8] |= (v[i] as u8) << (i % 8);
					}
					p
				} else {
					let mut p = vec![0u8; n];
					for i in 0..n {
						p[i] = v[i] as u8;
					}
					p
				};
				check(v, &prefixed(n, &body));
			}
			fn h_field_bool() {
				let n = sx::pick(11);
				let v: Vec<bool> = sized(n);
				let s = SBool { a: sx::u8(), v, z: sx::u8() };
				let mut p = vec![0u8; (n + 7) / 8];
				for i in 0..n {
					p[i / 8] |= (s.v[i] as u8) << (i % 8);
				}
				let mut want = ser(&1u16);
				want.push(s.a);
				want.extend_from_slice(&prefixed(n, &p));
				want.push(s.z);
				let out = roundtrip(&s, |p, q| p.a == q.a && p.v.same(&q.v) && p.z == q.z);
				sx::check(out == want, "a field marked for bulk encoding is laid out differently");
			}
			// every other vector: length, then each element's own encoding
			fn h_other_usize() { let v: Vec<usize> = sized(sx::pick(3)); let w = prefixed(v.len(), &each(&v)); check(v, &w) }
			fn h_other_isize() { let v: Vec<isize> = sized(sx::pick(3)); let w = prefixed(v.len(), &each(&v)); check(v, &w) }
			fn h_other_char() { let v: Vec<char> = sized(sx::pick(3)); let w = prefixed(v.len(), &each(&v)); check(v, &w) }
			fn h_other_string() { let v: Vec<String> = sized(sx::pick(3)); let w = prefixed(v.len(), &each(&v)); check(v, &w) }
			fn h_other_option() { let v: Vec<Option<u16>> = sized(sx::pick(3)); let w = prefixed(v.len(), &each(&v)); check(v, &w) }
			fn h_other_wrapping() { let v: Vec<std::num::Wrapping<u32>> = sized(sx::pick(3)); let w = prefixed(v.len(), &each(&v)); check(v, &w) }
			fn h_other_tuple() { let v: Vec<(u16, bool)> = sized(sx::pick(3)); let w = prefixed(v.len(), &each(&v)); check(v, &w) }
			fn h_other_vec() { let v: Vec<Vec<u16>> = sized(sx::pick(3)); let w = prefixed(v.len(), &each(&v)); check(v, &w) }
			fn h_other_array() { let v: Vec<[u16; 2]> = sized(sx::pick(3)); let w = prefixed(v.len(), &each(&v)); check(v, &w) }
			fn h_other_box() { let v: Vec<Box<u16>> = sized(sx::pick(3)); let w = prefixed(v.len(), &each(&v)); check(v, &w) }
			// long vectors: prefix boundary and the internal chunk of skipping
			fn h_long_u16() {
				const L: &[usize] = &[250, 251, 2047, 2048, 2049, 4096];
				let n = if SPEC { L[sx::pick(L.len())] } else { L[sx::pick(2)] };
				let mut v = vec![0x0102u16; n];
				v[0] = sx::u16();
				v[n - 1] = sx::u16();
				let mut raw = Vec::new();
				for x in &v { raw.extend_from_slice(&x.to_le_bytes()); }
				let body = if SPEC { raw } else { each(&v) };
				check(v, &prefixed(n, &body));
			}
			fn h_long_u8() {
				const L: &[usize] = &[250, 251, 4095, 4096, 4097];
				let n = if SPEC { L[sx::pick(L.len())] } else { L[sx::pick(2)] };
				let mut v = vec![3u8; n];
				v[0] = sx::u8();
				v[n - 1] = sx::u8();
				let w = prefixed(n, &v);
				check(v, &w);
			}
		}
	};
}
#[revisioned(revision = 1)]
struct SBool {
	a: u8,
	#[revision(specialised)]
	v: Vec<bool>,
	z: u8,
}
numeric! {
	h_u8 h_field_u8 SU8 u8;
	h_i8 h_field_i8 SI8 i8;
	h_u16 h_field_u16 SU16 u16;
	h_u32 h_field_u32 SU32 u32;
	h_u64 h_field_u64 SU64 u64;
	h_u128 h_field_u128 SU128 u128;
	h_i16 h_field_i16 SI16 i16;
	h_i32 h_field_i32 SI32 i32;
	h_i64 h_field_i64 SI64 i64;
	h_i128 h_field_i128 SI128 i128;
	h_f32 h_field_f32 SF32 f32;
	h_f64 h_field_f64 SF64 f64;
}
