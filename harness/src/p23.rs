//! A field with an encoding of its own is written in it and read in it by every operation.
use crate::model::*;
use crate::sx;
use crate::sym::*;
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet};

#[revisioned(revision = 1)]
pub struct Fx {
	#[revision(fixed)]
	pub a: u32,
	#[revision(fixed)]
	pub b: i32,
	#[revision(fixed)]
	pub c: u64,
	pub d: u64,
	#[revision(fixed)]
	pub e: i64,
	#[revision(fixed)]
	pub f: u128,
	#[revision(fixed)]
	pub g: i128,
}
impl Model for Fx {
	const LATEST: u16 = 1;
	fn written(_: u16) -> (Vec<u8>, Self) {
		let v = Fx { a: u32::sym(), b: i32::sym(), c: u64::sym(), d: u64::sym(), e: i64::sym(), f: u128::sym(), g: i128::sym() };
		let w = W::rev(1).raw(&v.a.to_le_bytes()).raw(&v.b.to_le_bytes()).raw(&v.c.to_le_bytes()).put(&v.d);
		(w.raw(&v.e.to_le_bytes()).raw(&v.f.to_le_bytes()).raw(&v.g.to_le_bytes()).0, v)
	}
	fn eq(&self, o: &Self) -> bool {
		self.a == o.a && self.b == o.b && self.c == o.c && self.d == o.d && self.e == o.e && self.f == o.f && self.g == o.g
	}
}
#[revisioned(revision = 1)]
pub struct Ft(#[revision(fixed)] pub u32, pub u32, #[revision(specialised)] pub Vec<u32>, #[revision(fixed)] pub i128);
impl Model for Ft {
	const LATEST: u16 = 1;
	fn written(_: u16) -> (Vec<u8>, Self) {
		let v = Ft(u32::sym(), u32::sym(), few::<u32>(2), i128::sym());
		(W::rev(1).raw(&v.0.to_le_bytes()).put(&v.1).raw(&bulk(&v.2, |x| x.to_le_bytes().to_vec())).raw(&v.3.to_le_bytes()).0, v)
	}
	fn eq(&self, o: &Self) -> bool {
		self.0 == o.0 && self.1 == o.1 && self.2 == o.2 && self.3 == o.3
	}
}
/// the documented bulk layout: the count, then the elements as little-endian bytes
fn bulk<T>(v: &[T], le: fn(&T) -> Vec<u8>) -> Vec<u8> {
	let mut w = W::new().put(&v.len());
	for x in v {
		w = w.raw(&le(x));
	}
	w.0
}
#[revisioned(revision = 1)]
pub enum Fe {
	A {
		#[revision(fixed)]
		x: u64,
		#[revision(specialised)]
		y: Vec<bool>,
		z: u16,
	},
	B(#[revision(specialised)] Vec<u64>),
	C(#[revision(fixed)] i64, i64),
}
impl Model for Fe {
	const LATEST: u16 = 1;
	fn written(_: u16) -> (Vec<u8>, Self) {
		match sx::pick(3) {
			0 => {
				let (x, y, z) = (u64::sym(), few::<bool>(9), u16::sym());
				(W::rev(1).put(&0u32).raw(&x.to_le_bytes()).raw(&bulk_bool(&y)).put(&z).0, Fe::A { x, y, z })
			}
			1 => {
				let v = few::<u64>(2);
				(W::rev(1).put(&1u32).raw(&bulk(&v, |x| x.to_le_bytes().to_vec())).0, Fe::B(v))
			}
			_ => {
				let (a, b) = (i64::sym(), i64::sym());
				(W::rev(1).put(&2u32).raw(&a.to_le_bytes()).put(&b).0, Fe::C(a, b))
			}
		}
	}
	fn eq(&self, o: &Self) -> bool {
		match (self, o) {
			(Fe::A { x, y, z }, Fe::A { x: a, y: b, z: c }) => x == a && y == b && z == c,
			(Fe::B(a), Fe::B(b)) => a == b,
			(Fe::C(a, b), Fe::C(x, y)) => a == x && b == y,
			_ => false,
		}
	}
}
macro_rules! bulk_types {
	($($S:ident $T:ty, $le:expr;)*) => {$(
		#[revisioned(revision = 1)]
		pub struct $S {
			#[revision(specialised)]
			pub v: Vec<$T>,
			pub t: u8,
		}
		impl Model for $S {
			const LATEST: u16 = 1;
			fn written(_: u16) -> (Vec<u8>, Self) {
				let (v, t) = (few::<$T>(bound(2, 2, 3)), u8::sym());
				let le: fn(&$T) -> Vec<u8> = $le;
				(W::rev(1).raw(&bulk(&v, le)).put(&t).0, $S { v, t })
			}
			fn eq(&self, o: &Self) -> bool {
				self.v.same(&o.v) && self.t == o.t
			}
		}
	)*};
}
bulk_types! {
	Su8 u8, |x| vec![*x];
	Si8 i8, |x| vec![*x as u8];
	Su16 u16, |x| x.to_le_bytes().to_vec();
	Si16 i16, |x| x.to_le_bytes().to_vec();
	Su32 u32, |x| x.to_le_bytes().to_vec();
	Si32 i32, |x| x.to_le_bytes().to_vec();
	Su64 u64, |x| x.to_le_bytes().to_vec();
	Si64 i64, |x| x.to_le_bytes().to_vec();
	Su128 u128, |x| x.to_le_bytes().to_vec();
	Si128 i128, |x| x.to_le_bytes().to_vec();
	Sf32 f32, |x| x.to_bits().to_le_bytes().to_vec();
	Sf64 f64, |x| x.to_bits().to_le_bytes().to_vec();
}
/// the other containers an indexed field can be
#[revisioned(revision(1), revision(2, optimised), revision(3, optimised, indexed_struct))]
pub struct Ih {
	#[revision(indexed_map)]
	pub m: HMap<u8, u16>,
	#[revision(indexed_set)]
	pub s: HSet<u8>,
	#[revision(indexed_map)]
	pub b: BTreeMap<u16, Option<u8>>,
	pub t: u8,
}
impl Model for Ih {
	const LATEST: u16 = 3;
	fn written(r: u16) -> (Vec<u8>, Self) {
		let mut m: HMap<u8, u16> = Default::default();
		let mut s: HSet<u8> = Default::default();
		let mut b: BTreeMap<u16, Option<u8>> = BTreeMap::new();
		if sx::pick(2) == 1 {
			m.insert(u8::sym(), u16::sym());
		}
		if sx::pick(2) == 1 {
			s.insert(u8::sym());
		}
		if sx::pick(2) == 1 {
			b.insert(u16::sym(), Option::<u8>::sym());
		}
		let t = u8::sym();
		let w = match r {
			1 => W::rev(1).put(&m).put(&s).put(&b).put(&t),
			2 => W::compact(2, W::new().raw(&imap(&m)).raw(&iset(&s)).raw(&imap(&b)).put(&t)),
			_ => W::indexed(3, &[imap(&m), iset(&s), imap(&b), ser(&t)]),
		};
		(w.0, Ih { m, s, b, t })
	}
	fn eq(&self, o: &Self) -> bool {
		self.m.same(&o.m) && self.s.same(&o.s) && self.b.same(&o.b) && self.t == o.t
	}
}

/// written as documented, and read back by decoding, skipping and (whole) walking
fn own<M: Model>() {
	if sx::pick(2) == 0 {
		evolves::<M>()
	} else {
		skips_written::<M>()
	}
}
macro_rules! own {
	($($h:ident $T:ident)*; $($rest:tt)*) => {
		crate::harnesses! {
			$(fn $h() { own::<$T>() })*
			$($rest)*
		}
	};
}
own! {
	h_fx Fx h_ft Ft h_fe Fe h_su8 Su8 h_si8 Si8 h_su16 Su16 h_si16 Si16 h_su32 Su32 h_si32 Si32 h_su64 Su64 h_si64 Si64
	h_su128 Su128 h_si128 Si128 h_sf32 Sf32 h_sf64 Sf64 h_ih Ih h_mk Mk h_mw Mw h_mke MkE h_ea Ea h_oi Oi h_or Or;
	fn h_fx_walk() {
		let (s, v) = Fx::written(1);
		let k = sx::pick(7);
		let mut r = &s[..];
		let mut w = match Fx::walk_revisioned(&mut r) {
			Ok(w) => w,
			Err(_) => sx::fail("an encoding cannot be walked"),
		};
		macro_rules! step {
			($i:literal $d:ident $s:ident $b:ident $f:ident $e:expr) => {
				if k == $i {
					match w.$b() {
						Ok(b) => sx::check(&b[..] == &$e[..], "the bytes of a field are not in its own encoding"),
						Err(_) => sx::fail("the bytes of a field cannot be had"),
					}
					return;
				}
				if sx::pick(2) == 0 {
					match w.$d() {
						Ok(x) => sx::check(x == v.$f, "walking gives another field value"),
						Err(_) => sx::fail("a field cannot be walked"),
					}
				} else {
					sx::check(w.$s().is_ok(), "a field cannot be skipped");
				}
			};
		}
		step!(0 decode_a skip_a into_a_bytes a v.a.to_le_bytes());
		step!(1 decode_b skip_b into_b_bytes b v.b.to_le_bytes());
		step!(2 decode_c skip_c into_c_bytes c v.c.to_le_bytes());
		step!(3 decode_d skip_d into_d_bytes d ser(&v.d));
		step!(4 decode_e skip_e into_e_bytes e v.e.to_le_bytes());
		step!(5 decode_f skip_f into_f_bytes f v.f.to_le_bytes());
		step!(6 decode_g skip_g into_g_bytes g v.g.to_le_bytes());
	}
	fn h_ft_walk() {
		let (s, v) = Ft::written(1);
		let mut r = &s[..];
		let mut w = match Ft::walk_revisioned(&mut r) {
			Ok(w) => w,
			Err(_) => sx::fail("an encoding cannot be walked"),
		};
		let mut skips = [false; 4];
		for x in &mut skips {
			*x = sx::flag();
		}
		let a = if skips[0] { w.skip_field_0().map(|_| v.0) } else { w.decode_field_0() };
		let b = if skips[1] { w.skip_field_1().map(|_| v.1) } else { w.decode_field_1() };
		let c = if skips[2] { w.skip_field_2().map(|_| v.2.clone()) } else { w.decode_field_2() };
		let d = if skips[3] { w.skip_field_3().map(|_| v.3) } else { w.decode_field_3() };
		sx::check(a.ok() == Some(v.0) && b.ok() == Some(v.1) && c.ok().as_ref() == Some(&v.2) && d.ok() == Some(v.3), "walking gives other field values");
		sx::check(r.is_empty(), "walking ends elsewhere than decoding");
	}
	fn h_fe_walk() {
		let (s, v) = Fe::written(1);
		let mut r = &s[..];
		let w = match Fe::walk_revisioned(&mut r) {
			Ok(w) => w,
			Err(_) => sx::fail("an encoding cannot be walked"),
		};
		if let Fe::B(x) = &v {
			match w.decode_b() {
				Ok(y) => sx::check(*x == y && r.is_empty(), "walking gives another payload"),
				Err(_) => sx::fail("a payload cannot be walked"),
			}
		}
	}
	fn k_compact_fixed() {
		let (a, t) = (u32::sym(), u8::sym());
		let want = W::compact(1, W::new().raw(&a.to_le_bytes()).put(&t));
		sx::check(ser(&Cf { a, t }) == want.0, "a fixed field of a compact struct is not fixed-width");
	}
	fn k_compact_bulk() {
		let v = few::<u16>(2);
		let want = W::compact(1, W::new().raw(&bulk16(&v)));
		sx::check(ser(&Cb { v }) == want.0, "a specialised field of a compact struct is not in the bulk layout");
	}
	fn k_compact_enum() {
		let a = u32::sym();
		let want = W::varlen(1, 0, W::new().raw(&a.to_le_bytes()));
		sx::check(ser(&Ce::A(a)) == want.0, "a fixed payload of a compact enum is not fixed-width");
	}
}
#[revisioned(revision(1, optimised))]
pub struct Cf {
	#[revision(fixed)]
	pub a: u32,
	pub t: u8,
}
#[revisioned(revision(1, optimised))]
pub struct Cb {
	#[revision(specialised)]
	pub v: Vec<u16>,
}
#[revisioned(revision(1, optimised))]
pub enum Ce {
	#[revision(size = "varlen")]
	A(#[revision(fixed)] u32),
}
