//! Integer wire format: layout, round trip, rejection — against a reference written from the docs.
use crate::harnesses;
use crate::sx;
use crate::util::*;

struct Buf {
	b: [u8; 20],
	n: usize,
}
impl Buf {
	fn push(&mut self, x: u8) {
		self.b[self.n] = x;
		self.n += 1;
	}
	fn le(&mut self, v: u128, n: usize) {
		for i in 0..n {
			self.push((v >> (8 * i)) as u8);
		}
	}
}
/// Reference encoder for an unsigned value of `size` bytes.
fn ref_uint(v: u128, size: usize) -> Buf {
	let mut o = Buf {
		b: [0; 20],
		n: 0,
	};
	if size == 1 || cfg!(feature = "fixedw") {
		o.le(v, size);
	} else if v <= 250 {
		o.push(v as u8);
	} else if v <= 0xffff {
		o.push(251);
		o.le(v, 2);
	} else if v <= 0xffff_ffff {
		o.push(252);
		o.le(v, 4);
	} else if v <= 0xffff_ffff_ffff_ffff {
		o.push(253);
		o.le(v, 8);
	} else {
		o.push(254);
		o.le(v, 16);
	}
	o
}
fn zigzag(v: i128) -> u128 {
	if v < 0 {
		((-(v + 1)) as u128) * 2 + 1
	} else {
		(v as u128) * 2
	}
}
fn unzigzag(v: u128) -> i128 {
	if v & 1 == 1 {
		-((v >> 1) as i128) - 1
	} else {
		(v >> 1) as i128
	}
}
fn le(b: &[u8]) -> u128 {
	let mut v = 0u128;
	let mut i = 0;
	while i < b.len() {
		v |= (b[i] as u128) << (8 * i);
		i += 1;
	}
	v
}
/// Reference decoder: value and consumed length, or None.
fn ref_dec(b: &[u8], size: usize) -> Option<(u128, usize)> {
	if size == 1 || cfg!(feature = "fixedw") {
		if b.len() < size {
			return None;
		}
		return Some((le(&b[..size]), size));
	}
	if b.is_empty() {
		return None;
	}
	let n = match b[0] {
		0..=250 => return Some((b[0] as u128, 1)),
		251 => 2,
		252 => 4,
		253 => 8,
		254 => 16,
		255 => return None,
	};
	if b.len() < 1 + n {
		return None;
	}
	let v = le(&b[1..1 + n]);
	if size < 16 && v >> (8 * size) != 0 {
		return None;
	}
	// a marker wider than the type is refused by the 64-bit decoders whatever follows
	if n == 16 && size < 16 {
		return None;
	}
	Some((v, 1 + n))
}

fn enc<T: SerializeRevisioned + DeserializeRevisioned + PartialEq>(v: T, want: Buf) {
	let out = roundtrip(&v, |a, b| a == b);
	sx::check(out.len() == want.n, "encoded length differs from the documented layout");
	let n = sx::concrete(out.len());
	for i in 0..n {
		sx::check(out[i] == want.b[i], "encoded bytes differ from the documented layout");
	}
	truncated::<T>(&out);
}
fn dec<T: DeserializeRevisioned + Copy, const N: usize>(size: usize, val: impl Fn(T) -> u128, conv: impl Fn(u128) -> u128) {
	let b: [u8; N] = sx::bytes();
	let n = sx::pick(N + 1);
	let want = ref_dec(&b[..n], size);
	let mut r = &b[..n];
	sx::expect("accepted");
	sx::expect("rejected");
	match T::deserialize_revisioned(&mut r) {
		Ok(v) => {
			sx::cover("accepted");
			match want {
				Some((w, k)) => {
					sx::check(val(v) == conv(w), "decoded value differs from the documented meaning of the bytes");
					sx::check(n - r.len() == k, "decoding consumed a different number of bytes than documented");
				}
				None => sx::fail("bytes that encode no integer were accepted"),
			}
		}
		Err(_) => {
			sx::cover("rejected");
			sx::check(want.is_none(), "bytes that encode an integer were rejected")
		}
	}
}
fn same(v: u128) -> u128 {
	v
}
fn unz(v: u128) -> u128 {
	unzigzag(v) as u128
}

harnesses! {
	fn h_enc_u8() { let v = sx::u8(); enc(v, ref_uint(v as u128, 1)); }
	fn h_enc_u16() { let v = sx::u16(); enc(v, ref_uint(v as u128, 2)); }
	fn h_enc_u32() { let v = sx::u32(); enc(v, ref_uint(v as u128, 4)); }
	fn h_enc_u64() { let v = sx::u64(); enc(v, ref_uint(v as u128, 8)); }
	fn h_enc_usize() { let v = sx::u64(); enc(v as usize, ref_uint(v as u128, 8)); }
	fn h_enc_u128() { let v = sx::u128(); enc(v, ref_uint(v, 16)); }
	fn h_enc_i8() { let v = sx::u8(); enc(v as i8, ref_uint(v as u128, 1)); }
	fn h_enc_i16() { let v = sx::u16() as i16; enc(v, ref_uint(zigzag(v as i128), 2)); }
	fn h_enc_i32() { let v = sx::u32() as i32; enc(v, ref_uint(zigzag(v as i128), 4)); }
	fn h_enc_i64() { let v = sx::u64() as i64; enc(v, ref_uint(zigzag(v as i128), 8)); }
	fn h_enc_isize() { let v = sx::u64() as i64; enc(v as isize, ref_uint(zigzag(v as i128), 8)); }
	fn h_enc_i128() { let v = sx::u128() as i128; enc(v, ref_uint(zigzag(v), 16)); }
	fn h_dec_u8() { dec::<u8, 3>(1, |v| v as u128, same); }
	fn h_dec_u16() { dec::<u16, 18>(2, |v| v as u128, same); }
	fn h_dec_u32() { dec::<u32, 18>(4, |v| v as u128, same); }
	fn h_dec_u64() { dec::<u64, 18>(8, |v| v as u128, same); }
	fn h_dec_usize() { dec::<usize, 18>(8, |v| v as u128, same); }
	fn h_dec_u128() { dec::<u128, 18>(16, same, same); }
	fn h_dec_i16() { dec::<i16, 18>(2, |v| v as i128 as u128, unz); }
	fn h_dec_i32() { dec::<i32, 18>(4, |v| v as i128 as u128, unz); }
	fn h_dec_i64() { dec::<i64, 18>(8, |v| v as i128 as u128, unz); }
	fn h_dec_isize() { dec::<isize, 18>(8, |v| v as i128 as u128, unz); }
	fn h_dec_i128() { dec::<i128, 18>(16, |v| v as u128, unz); }
}
