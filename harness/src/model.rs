//! Representative derived types, and for each the bytes every revision of it wrote, built by hand
//! from the documented layout (the oracle), with the value those bytes stand for today.
use crate::sx;
use crate::sym::*;
use crate::util::*;
use revision::optimised::indexed::{IndexedMapEncoded, IndexedSeqEncoded, IndexedSetEncoded};
use std::collections::{BTreeMap, BTreeSet};

pub trait Model: SerializeRevisioned + DeserializeRevisioned + SkipRevisioned + SkipCheckRevisioned + WalkRevisioned + Sized + 'static {
	const LATEST: u16;
	/// An arbitrary value as revision `rev` wrote it, and what it decodes to.
	fn written(rev: u16) -> (Vec<u8>, Self);
	fn eq(&self, o: &Self) -> bool;
	/// the revisions worth looking at; all of them unless there are very many
	fn revs() -> &'static [u16] {
		&[1, 2, 3, 4][..Self::LATEST as usize]
	}
}
/// some revision, one path each
pub fn any_rev<M: Model>() -> u16 {
	M::revs()[sx::pick(M::revs().len())]
}

/// When set, values inside a value are written at their latest revision too.
static mut UNIFORM: bool = false;
pub fn uniform(b: bool) {
	unsafe { UNIFORM = b }
}
fn inner_rev<M: Model>() -> u16 {
	if unsafe { UNIFORM } {
		M::LATEST
	} else {
		any_rev::<M>()
	}
}

#[derive(Default)]
pub struct W(pub Vec<u8>);
impl W {
	pub fn new() -> W {
		W(Vec::new())
	}
	pub fn rev(r: u16) -> W {
		W(ser(&r))
	}
	pub fn put<T: SerializeRevisioned>(mut self, v: &T) -> W {
		self.0.extend_from_slice(&ser(v));
		self
	}
	pub fn raw(mut self, b: &[u8]) -> W {
		self.0.extend_from_slice(b);
		self
	}
	pub fn put_if<T: SerializeRevisioned>(self, c: bool, v: &T) -> W {
		if c {
			self.put(v)
		} else {
			self
		}
	}
	/// compact struct: revision, length, fields
	pub fn compact(r: u16, body: W) -> W {
		W::rev(r).raw(&(body.0.len() as u32).to_le_bytes()).raw(&body.0)
	}
	/// compact struct with field offsets, counted from the start of the table
	pub fn indexed(r: u16, fields: &[Vec<u8>]) -> W {
		let mut off = 4 * fields.len();
		let mut body = W::new();
		for f in fields {
			body = body.raw(&(off as u32).to_le_bytes());
			off += f.len();
		}
		for f in fields {
			body = body.raw(f);
		}
		W::compact(r, body)
	}
	pub fn inline(r: u16, id: u8) -> W {
		W::rev(r).raw(&[id])
	}
	pub fn fixed(r: u16, id: u8, body: W) -> W {
		W::rev(r).raw(&[id | 1 << 5]).raw(&body.0)
	}
	pub fn varlen(r: u16, id: u8, body: W) -> W {
		W::rev(r).raw(&[id | 2 << 5]).raw(&(body.0.len() as u32).to_le_bytes()).raw(&body.0)
	}
}
/// what a per-field indexed encoding writes (decided by P10, P11)
pub fn imap<T: IndexedMapEncoded>(v: &T) -> Vec<u8> {
	let mut o = Vec::new();
	if v.serialize_indexed_map(&mut o).is_err() {
		sx::fail("an indexed map does not serialise");
	}
	o
}
pub fn iseq<T: IndexedSeqEncoded>(v: &T) -> Vec<u8> {
	let mut o = Vec::new();
	if v.serialize_indexed_seq(&mut o).is_err() {
		sx::fail("an indexed sequence does not serialise");
	}
	o
}
pub fn iset<T: IndexedSetEncoded>(v: &T) -> Vec<u8> {
	let mut o = Vec::new();
	if v.serialize_indexed_set(&mut o).is_err() {
		sx::fail("an indexed set does not serialise");
	}
	o
}

/// what an absent field becomes
fn absent<T: Default>(v: T, present: bool) -> T {
	if present {
		v
	} else {
		T::default()
	}
}
/// a string short enough to keep the number of paths down
pub fn text() -> String {
	ascii(sx::pick(2))
}

// ---- legacy layout, structs -------------------------------------------------------------------

/// every kind of change to a field: kept, added with and without a default function, removed,
/// added then removed; two conversions whose order shows
#[revisioned(revision = 4)]
pub struct Evo {
	pub a: u16,
	#[revision(start = 2, default_fn = "d_b")]
	pub b: Option<u8>,
	#[revision(end = 3, convert_fn = "c_c")]
	pub c: u16,
	#[revision(start = 2, end = 4, convert_fn = "c_d")]
	pub d: u8,
	#[revision(start = 3)]
	pub e: u16,
	#[revision(start = 4, default_fn = "d_f")]
	pub f: String,
}
fn mix(acc: u16, rev: u16, v: u16) -> u16 {
	acc.rotate_left(5) ^ rev.rotate_left(9) ^ v
}
impl Evo {
	fn d_b(rev: u16) -> Result<Option<u8>, Error> {
		Ok(Some(rev as u8 + 0x40))
	}
	fn d_f(rev: u16) -> Result<String, Error> {
		Ok(["", "one", "two", "three"][rev as usize].to_string())
	}
	fn c_c(&mut self, rev: u16, v: u16) -> Result<(), Error> {
		self.e = mix(self.e, rev, v);
		Ok(())
	}
	fn c_d(&mut self, rev: u16, v: u8) -> Result<(), Error> {
		self.e = mix(self.e, rev, v as u16);
		Ok(())
	}
}
impl Model for Evo {
	const LATEST: u16 = 4;
	fn written(r: u16) -> (Vec<u8>, Self) {
		let (a, b, c, d, e, f) = (u16::sym(), if r >= 2 { Option::sym() } else { None }, u16::sym(), u8::sym(), u16::sym(), if r >= 4 { text() } else { String::new() });
		let mut w = W::rev(r).put(&a).put_if(r >= 2, &b).put_if(r < 3, &c).put_if(r >= 2 && r < 4, &d).put_if(r >= 3, &e);
		if r >= 4 {
			w = w.put(&f);
		}
		let mut v = Evo { a, b: if r >= 2 { b } else { Some(0x41) }, e: absent(e, r >= 3), f: if r >= 4 { f } else { ["", "one", "two", "three"][r as usize].to_string() } };
		if r < 3 {
			v.e = mix(v.e, r, c);
		}
		if r >= 2 && r < 4 {
			v.e = mix(v.e, r, d as u16);
		}
		(w.0, v)
	}
	fn eq(&self, o: &Self) -> bool {
		self.a == o.a && self.b.same(&o.b) && self.e == o.e && self.f.same(&o.f)
	}
}

#[revisioned(revision = 3)]
pub struct Tup(pub u8, #[revision(end = 2, convert_fn = "c")] pub u16, #[revision(start = 2)] pub u16, #[revision(start = 3, default_fn = "d")] pub bool);
impl Tup {
	fn c(&mut self, rev: u16, v: u16) -> Result<(), Error> {
		self.1 = mix(self.1, rev, v);
		Ok(())
	}
	fn d(rev: u16) -> Result<bool, Error> {
		Ok(rev == 2)
	}
}
impl Model for Tup {
	const LATEST: u16 = 3;
	fn written(r: u16) -> (Vec<u8>, Self) {
		let (a, old, b, c) = (u8::sym(), u16::sym(), u16::sym(), bool::sym());
		let w = W::rev(r).put(&a).put_if(r < 2, &old).put_if(r >= 2, &b).put_if(r >= 3, &c);
		(w.0, Tup(a, if r < 2 { mix(0, r, old) } else { b }, if r >= 3 { c } else { r == 2 }))
	}
	fn eq(&self, o: &Self) -> bool {
		self.0 == o.0 && self.1 == o.1 && self.2 == o.2
	}
}

#[revisioned(revision = 2)]
pub struct Unit;
impl Model for Unit {
	const LATEST: u16 = 2;
	fn written(r: u16) -> (Vec<u8>, Self) {
		(W::rev(r).0, Unit)
	}
	fn eq(&self, _: &Self) -> bool {
		true
	}
}

/// grows only; a revision number that does not fit the one-byte compact form
#[revisioned(revision = 3)]
pub struct Add {
	pub x: u8,
	#[revision(start = 3, default_fn = "d")]
	pub z: String,
	#[revision(start = 2)]
	pub y: Option<u16>,
	pub t: u16,
}
impl Add {
	fn d(rev: u16) -> Result<String, Error> {
		Ok(["", "one", "two"][rev as usize].to_string())
	}
}
impl Model for Add {
	const LATEST: u16 = 3;
	fn written(r: u16) -> (Vec<u8>, Self) {
		let (x, z, y, t) = (u8::sym(), if r >= 3 { text() } else { String::new() }, if r >= 2 { Option::sym() } else { None }, u16::sym());
		let w = W::rev(r).put(&x);
		let w = if r >= 3 { w.put(&z) } else { w };
		let w = w.put_if(r >= 2, &y).put(&t);
		(w.0, Add { x, z: if r >= 3 { z } else { ["", "one", "two"][r as usize].to_string() }, y, t })
	}
	fn eq(&self, o: &Self) -> bool {
		self.x == o.x && self.z.same(&o.z) && self.y.same(&o.y) && self.t == o.t
	}
}

#[revisioned(revision = 300)]
pub struct Many {
	#[revision(start = 250)]
	pub x: u8,
	#[revision(end = 251, convert_fn = "c")]
	pub y: u8,
	#[revision(start = 300)]
	pub z: u8,
}
impl Many {
	fn c(&mut self, rev: u16, v: u8) -> Result<(), Error> {
		self.z = v ^ rev as u8;
		Ok(())
	}
}
impl Model for Many {
	const LATEST: u16 = 300;
	fn revs() -> &'static [u16] {
		&MANY
	}
	fn written(r: u16) -> (Vec<u8>, Self) {
		let (x, y, z) = (u8::sym(), u8::sym(), u8::sym());
		let w = W::rev(r).put_if(r >= 250, &x).put_if(r < 251, &y).put_if(r >= 300, &z);
		(w.0, Many { x: absent(x, r >= 250), z: if r >= 300 { z } else if r < 251 { y ^ r as u8 } else { 0 } })
	}
	fn eq(&self, o: &Self) -> bool {
		self.x == o.x && self.z == o.z
	}
}
/// the revisions at which something changes
pub const MANY: [u16; 8] = [1, 2, 249, 250, 251, 256, 299, 300];

/// derived types inside derived types, each with its own revision
#[revisioned(revision = 2)]
pub struct Nest {
	pub t: Tup,
	#[revision(start = 2)]
	pub o: Option<Box<Add>>,
	pub u: Unit,
	pub v: Vec<En>,
}
impl Model for Nest {
	const LATEST: u16 = 2;
	fn written(r: u16) -> (Vec<u8>, Self) {
		let mut w = W::rev(r);
		let (b, t) = Tup::written(inner_rev::<Tup>());
		w = w.raw(&b);
		let mut o = None;
		if r >= 2 {
			if sx::pick(2) == 1 {
				let (b, x) = Add::written(if unsafe { UNIFORM } { 3 } else { [1, 3][sx::pick(2)] });
				w = w.put(&1u8).raw(&b);
				o = Some(Box::new(x));
			} else {
				w = w.put(&0u8);
			}
		}
		w = w.raw(&Unit::written(inner_rev::<Unit>()).0);
		let mut v = Vec::new();
		let n = sx::pick(2);
		w = w.put(&n);
		for _ in 0..n {
			let (b, x) = En::written(inner_rev::<En>());
			w = w.raw(&b);
			v.push(x);
		}
		(w.0, Nest { t, o, u: Unit, v })
	}
	fn eq(&self, o: &Self) -> bool {
		let so = match (&self.o, &o.o) {
			(None, None) => true,
			(Some(a), Some(b)) => a.eq(b),
			_ => false,
		};
		self.t.eq(&o.t) && so && self.v.len() == o.v.len() && self.v.iter().zip(&o.v).all(|(a, b)| a.eq(b))
	}
}

// ---- legacy layout, enums ---------------------------------------------------------------------

#[revisioned(revision = 2)]
pub enum En {
	A(u8),
	#[revision(start = 2)]
	B,
	C(bool),
}
impl Model for En {
	const LATEST: u16 = 2;
	fn written(r: u16) -> (Vec<u8>, Self) {
		let c = if r == 1 { 1u32 } else { 2 };
		match sx::pick(1 + r as usize) {
			0 => {
				let x = u8::sym();
				(W::rev(r).put(&0u32).put(&x).0, En::A(x))
			}
			1 => {
				let x = bool::sym();
				(W::rev(r).put(&c).put(&x).0, En::C(x))
			}
			_ => (W::rev(r).put(&1u32).0, En::B),
		}
	}
	fn eq(&self, o: &Self) -> bool {
		match (self, o) {
			(En::A(a), En::A(b)) => a == b,
			(En::B, En::B) => true,
			(En::C(a), En::C(b)) => a == b,
			_ => false,
		}
	}
}

#[revisioned(revision = 4)]
pub enum Ev {
	A,
	#[revision(end = 3, convert_fn = "old")]
	Old(u8, #[revision(start = 2, default_fn = "d_old")] u16),
	B(u16),
	C {
		x: u8,
		#[revision(start = 2, default_fn = "d_y")]
		y: u16,
		#[revision(end = 4, convert_fn = "c_w")]
		w: u8,
	},
	#[revision(start = 2)]
	D(Option<u8>),
	#[revision(start = 3, override(revision = 3, discriminant = 9), override(revision = 4, discriminant = 1))]
	E(u8, u16),
	#[revision(start = 4)]
	F,
	G(#[revision(end = 3, convert_fn = "c_g")] u8, #[revision(start = 3)] u16),
	#[revision(end = 2, convert_fn = "gone", fields_name = "GoneFields")]
	Gone { p: u8, q: Option<u16> },
}
impl Ev {
	fn old(f: EvOldFields, rev: u16) -> Result<Self, Error> {
		Ok(Ev::E(f.0, mix(f.1, rev, 1)))
	}
	fn gone(f: GoneFields, rev: u16) -> Result<Self, Error> {
		match f.q {
			Some(q) => Ok(Ev::E(f.p, mix(q, rev, 2))),
			None => Ok(Ev::D(Some(f.p))),
		}
	}
	fn d_old(rev: u16) -> Result<u16, Error> {
		Ok(rev + 700)
	}
	fn d_y(rev: u16) -> Result<u16, Error> {
		Ok(rev + 500)
	}
	fn c_w(f: &mut EvCFields, rev: u16, w: u8) -> Result<(), Error> {
		f.y = mix(f.y, rev, w as u16);
		Ok(())
	}
	fn c_g(f: &mut EvGFields, rev: u16, v: u8) -> Result<(), Error> {
		f.0 = mix(f.0, rev, v as u16);
		Ok(())
	}
}
/// discriminant of each variant (A Old B C D E F G Gone) at revisions 1 to 4, by the documented rule
pub const EV: [[Option<u32>; 9]; 4] = [
	[Some(0), Some(1), Some(2), Some(3), None, None, None, Some(4), Some(5)],
	[Some(0), Some(1), Some(2), Some(3), Some(4), None, None, Some(5), None],
	[Some(0), None, Some(1), Some(2), Some(3), Some(9), None, Some(4), None],
	[Some(0), None, Some(2), Some(3), Some(4), Some(1), Some(5), Some(6), None],
];
impl Model for Ev {
	const LATEST: u16 = 4;
	fn written(r: u16) -> (Vec<u8>, Self) {
		let k = sx::pick(9);
		let d = match EV[r as usize - 1][k] {
			Some(d) => d,
			None => {
				sx::assume(false);
				0
			}
		};
		let w = W::rev(r).put(&d);
		match k {
			0 => (w.0, Ev::A),
			1 => {
				let (a, b) = (u8::sym(), u16::sym());
				(w.put(&a).put_if(r >= 2, &b).0, Ev::E(a, mix(if r >= 2 { b } else { 701 }, r, 1)))
			}
			2 => {
				let a = u16::sym();
				(w.put(&a).0, Ev::B(a))
			}
			3 => {
				let (x, y, z) = (u8::sym(), u16::sym(), u8::sym());
				let y2 = if r >= 2 { y } else { 501 };
				(w.put(&x).put_if(r >= 2, &y).put_if(r < 4, &z).0, Ev::C { x, y: if r < 4 { mix(y2, r, z as u16) } else { y2 } })
			}
			4 => {
				let a = Option::<u8>::sym();
				(w.put(&a).0, Ev::D(a))
			}
			5 => {
				let (a, b) = (u8::sym(), u16::sym());
				(w.put(&a).put(&b).0, Ev::E(a, b))
			}
			6 => (w.0, Ev::F),
			7 => {
				let (a, b) = (u8::sym(), u16::sym());
				(w.put_if(r < 3, &a).put_if(r >= 3, &b).0, Ev::G(if r < 3 { mix(0, r, a as u16) } else { b }))
			}
			_ => {
				let (p, q) = (u8::sym(), Option::<u16>::sym());
				(
					w.put(&p).put(&q).0,
					match q {
						Some(q) => Ev::E(p, mix(q, r, 2)),
						None => Ev::D(Some(p)),
					},
				)
			}
		}
	}
	fn eq(&self, o: &Self) -> bool {
		match (self, o) {
			(Ev::A, Ev::A) | (Ev::F, Ev::F) => true,
			(Ev::B(a), Ev::B(b)) => a == b,
			(Ev::C { x, y }, Ev::C { x: a, y: b }) => x == a && y == b,
			(Ev::D(a), Ev::D(b)) => a.same(b),
			(Ev::E(a, x), Ev::E(b, y)) => a == b && x == y,
			(Ev::G(a), Ev::G(b)) => a == b,
			_ => false,
		}
	}
}

// ---- per-field encodings, legacy layout -------------------------------------------------------

#[revisioned(revision = 2)]
pub struct Mk {
	#[revision(fixed)]
	pub a: u32,
	#[revision(specialised)]
	pub b: Vec<u16>,
	#[revision(fixed, end = 2, convert_fn = "c")]
	pub c: u64,
	pub d: u32,
	#[revision(fixed)]
	pub e: i64,
	#[revision(specialised, start = 2)]
	pub f: Vec<bool>,
	#[revision(specialised, end = 2, convert_fn = "g")]
	pub g: Vec<u8>,
	#[revision(fixed, start = 2)]
	pub h: i128,
	pub t: u8,
}
impl Mk {
	fn c(&mut self, rev: u16, v: u64) -> Result<(), Error> {
		self.h ^= v as i128 ^ rev as i128;
		Ok(())
	}
	fn g(&mut self, _: u16, v: Vec<u8>) -> Result<(), Error> {
		for x in v {
			self.f.push(x & 1 == 1);
		}
		Ok(())
	}
}
pub fn few<T: Sym>(max: usize) -> Vec<T> {
	let mut v = Vec::new();
	for _ in 0..sx::pick(max + 1) {
		v.push(T::sym());
	}
	v
}
/// the documented bulk layout
pub fn bulk16(v: &[u16]) -> Vec<u8> {
	let mut w = W::new().put(&v.len());
	for x in v {
		w = w.raw(&x.to_le_bytes());
	}
	w.0
}
pub fn bulk8(v: &[u8]) -> Vec<u8> {
	W::new().put(&v.len()).raw(v).0
}
pub fn bulk_bool(v: &[bool]) -> Vec<u8> {
	let mut o = ser(&v.len());
	for c in v.chunks(8) {
		let mut b = 0u8;
		for (i, x) in c.iter().enumerate() {
			b |= (*x as u8) << i;
		}
		o.push(b);
	}
	o
}
impl Model for Mk {
	const LATEST: u16 = 2;
	fn written(r: u16) -> (Vec<u8>, Self) {
		let (a, b, c, d, e, h, t) = (u32::sym(), few::<u16>(1), u64::sym(), u32::sym(), i64::sym(), i128::sym(), u8::sym());
		let f = if r >= 2 { few::<bool>(2) } else { Vec::new() };
		let g = if r < 2 { few::<u8>(1) } else { Vec::new() };
		let mut w = W::rev(r).raw(&a.to_le_bytes()).raw(&bulk16(&b));
		if r < 2 {
			w = w.raw(&c.to_le_bytes());
		}
		w = w.put(&d).raw(&e.to_le_bytes());
		if r >= 2 {
			w = w.raw(&bulk_bool(&f)).raw(&h.to_le_bytes());
		} else {
			w = w.raw(&bulk8(&g));
		}
		w = w.put(&t);
		let f = if r >= 2 { f } else { g.iter().map(|x| x & 1 == 1).collect() };
		(w.0, Mk { a, b, d, e, f, h: if r >= 2 { h } else { c as i128 ^ r as i128 }, t })
	}
	fn eq(&self, o: &Self) -> bool {
		self.a == o.a && self.b.same(&o.b) && self.d == o.d && self.e == o.e && self.f.same(&o.f) && self.h == o.h && self.t == o.t
	}
}

/// the same without conversions, so that every revision is walked in place
#[revisioned(revision = 2)]
pub struct Mw {
	#[revision(fixed)]
	pub a: u32,
	#[revision(specialised)]
	pub b: Vec<u16>,
	#[revision(fixed, start = 2, default_fn = "d")]
	pub c: i64,
	#[revision(specialised, start = 2)]
	pub d: Vec<bool>,
	pub t: u16,
}
impl Mw {
	fn d(rev: u16) -> Result<i64, Error> {
		Ok(rev as i64 - 10)
	}
}
impl Model for Mw {
	const LATEST: u16 = 2;
	fn written(r: u16) -> (Vec<u8>, Self) {
		let (a, b, c, t) = (u32::sym(), few::<u16>(1), i64::sym(), u16::sym());
		let d = if r >= 2 { few::<bool>(1) } else { Vec::new() };
		let mut w = W::rev(r).raw(&a.to_le_bytes()).raw(&bulk16(&b));
		if r >= 2 {
			w = w.raw(&c.to_le_bytes()).raw(&bulk_bool(&d));
		}
		(w.put(&t).0, Mw { a, b, c: if r >= 2 { c } else { -9 }, d, t })
	}
	fn eq(&self, o: &Self) -> bool {
		self.a == o.a && self.b.same(&o.b) && self.c == o.c && self.d.same(&o.d) && self.t == o.t
	}
}

#[revisioned(revision = 2)]
pub enum MkE {
	A(#[revision(fixed)] u32),
	B {
		#[revision(specialised)]
		v: Vec<u16>,
		#[revision(fixed, end = 2, convert_fn = "c")]
		x: u64,
		#[revision(fixed, start = 2)]
		y: i32,
	},
	#[revision(end = 2, convert_fn = "old")]
	Old(#[revision(fixed)] u32, #[revision(specialised)] Vec<bool>),
	C(u32),
}
impl MkE {
	fn c(f: &mut MkEBFields, rev: u16, v: u64) -> Result<(), Error> {
		f.y ^= v as i32 ^ rev as i32;
		Ok(())
	}
	fn old(f: MkEOldFields, rev: u16) -> Result<Self, Error> {
		Ok(if f.1.len() == 1 { MkE::C(f.0 ^ rev as u32 ^ f.1[0] as u32) } else { MkE::A(f.0) })
	}
}
impl Model for MkE {
	const LATEST: u16 = 2;
	fn written(r: u16) -> (Vec<u8>, Self) {
		match sx::pick(if r < 2 { 4 } else { 3 }) {
			0 => {
				let a = u32::sym();
				(W::rev(r).put(&0u32).raw(&a.to_le_bytes()).0, MkE::A(a))
			}
			1 => {
				let (v, x, y) = (few::<u16>(1), u64::sym(), i32::sym());
				let w = W::rev(r).put(&1u32).raw(&bulk16(&v));
				if r < 2 {
					(w.raw(&x.to_le_bytes()).0, MkE::B { v, y: x as i32 ^ r as i32 })
				} else {
					(w.raw(&y.to_le_bytes()).0, MkE::B { v, y })
				}
			}
			2 => {
				let a = u32::sym();
				(W::rev(r).put(&(if r < 2 { 3u32 } else { 2 })).put(&a).0, MkE::C(a))
			}
			_ => {
				let (a, v) = (u32::sym(), few::<bool>(1));
				let w = W::rev(r).put(&2u32).raw(&a.to_le_bytes()).raw(&bulk_bool(&v));
				(w.0, if v.len() == 1 { MkE::C(a ^ 1 ^ v[0] as u32) } else { MkE::A(a) })
			}
		}
	}
	fn eq(&self, o: &Self) -> bool {
		match (self, o) {
			(MkE::A(a), MkE::A(b)) => a == b,
			(MkE::B { v, y }, MkE::B { v: a, y: b }) => v.same(a) && y == b,
			(MkE::C(a), MkE::C(b)) => a == b,
			_ => false,
		}
	}
}

/// additions only, so that every revision is walked in place
#[revisioned(revision = 3)]
pub enum Ea {
	A(#[revision(start = 2, default_fn = "d_a")] u16),
	#[revision(start = 3)]
	N(u8),
	B(u8),
	C,
	D(u8, #[revision(start = 3, default_fn = "d_d")] u8),
	M(#[revision(fixed)] u32),
	S(#[revision(specialised)] Vec<u16>),
	#[revision(start = 2)]
	X {
		a: Option<u8>,
	},
}
impl Ea {
	fn d_a(rev: u16) -> Result<u16, Error> {
		Ok(rev + 300)
	}
	fn d_d(rev: u16) -> Result<u8, Error> {
		Ok(rev as u8 + 40)
	}
}
/// numbers of A N B C D M S X
pub const EA: [[Option<u32>; 8]; 3] = [
	[Some(0), None, Some(1), Some(2), Some(3), Some(4), Some(5), None],
	[Some(0), None, Some(1), Some(2), Some(3), Some(4), Some(5), Some(6)],
	[Some(0), Some(1), Some(2), Some(3), Some(4), Some(5), Some(6), Some(7)],
];
impl Model for Ea {
	const LATEST: u16 = 3;
	fn written(r: u16) -> (Vec<u8>, Self) {
		let k = sx::pick(8);
		let d = match EA[r as usize - 1][k] {
			Some(d) => d,
			None => {
				sx::assume(false);
				0
			}
		};
		let w = W::rev(r).put(&d);
		match k {
			0 => {
				let a = u16::sym();
				(w.put_if(r >= 2, &a).0, Ea::A(if r >= 2 { a } else { 301 }))
			}
			1 => {
				let a = u8::sym();
				(w.put(&a).0, Ea::N(a))
			}
			2 => {
				let a = u8::sym();
				(w.put(&a).0, Ea::B(a))
			}
			3 => (w.0, Ea::C),
			4 => {
				let (a, b) = (u8::sym(), u8::sym());
				(w.put(&a).put_if(r >= 3, &b).0, Ea::D(a, if r >= 3 { b } else { r as u8 + 40 }))
			}
			5 => {
				let a = u32::sym();
				(w.raw(&a.to_le_bytes()).0, Ea::M(a))
			}
			6 => {
				let v = few::<u16>(2);
				(w.raw(&bulk16(&v)).0, Ea::S(v))
			}
			_ => {
				let a = Option::<u8>::sym();
				(w.put(&a).0, Ea::X { a })
			}
		}
	}
	fn eq(&self, o: &Self) -> bool {
		match (self, o) {
			(Ea::A(a), Ea::A(b)) => a == b,
			(Ea::N(a), Ea::N(b)) | (Ea::B(a), Ea::B(b)) => a == b,
			(Ea::C, Ea::C) => true,
			(Ea::D(a, x), Ea::D(b, y)) => a == b && x == y,
			(Ea::M(a), Ea::M(b)) => a == b,
			(Ea::S(a), Ea::S(b)) => a.same(b),
			(Ea::X { a }, Ea::X { a: b }) => a.same(b),
			_ => false,
		}
	}
}

/// variant numbers of every encoded width
#[revisioned(revision = 2)]
pub enum Eb {
	#[revision(override(revision = 1, discriminant = 250), override(revision = 2, discriminant = 250))]
	A(u8),
	#[revision(override(revision = 1, discriminant = 300), override(revision = 2, discriminant = 300))]
	B(u8),
	#[revision(override(revision = 1, discriminant = 70000), override(revision = 2, discriminant = 70000))]
	C(u8),
	#[revision(override(revision = 1, discriminant = 4294967295), override(revision = 2, discriminant = 4294967295))]
	D(u8),
}
pub const EB: [u32; 4] = [250, 300, 70000, u32::MAX];
impl Model for Eb {
	const LATEST: u16 = 2;
	fn written(r: u16) -> (Vec<u8>, Self) {
		let (k, x) = (sx::pick(4), u8::sym());
		(W::rev(r).put(&EB[k]).put(&x).0, match k {
			0 => Eb::A(x),
			1 => Eb::B(x),
			2 => Eb::C(x),
			_ => Eb::D(x),
		})
	}
	fn eq(&self, o: &Self) -> bool {
		match (self, o) {
			(Eb::A(a), Eb::A(b)) | (Eb::B(a), Eb::B(b)) | (Eb::C(a), Eb::C(b)) | (Eb::D(a), Eb::D(b)) => a == b,
			_ => false,
		}
	}
}

/// numbers overridden at single revisions; several removed parts of a tuple variant
#[revisioned(revision = 4)]
pub enum Eo {
	A(u8),
	#[revision(override(revision = 2, discriminant = 9))]
	B(u16),
	#[revision(end = 3, convert_fn = "old", override(revision = 1, discriminant = 4))]
	Old { p: u8 },
	#[revision(start = 3, override(revision = 3, discriminant = 0))]
	C,
	D(u16, #[revision(end = 3, convert_fn = "c_d")] u8, #[revision(end = 4, convert_fn = "c_d")] u8),
}
impl Eo {
	fn old(f: EoOldFields, rev: u16) -> Result<Self, Error> {
		Ok(Eo::B(mix(f.p as u16, rev, 3)))
	}
	fn c_d(f: &mut EoDFields, rev: u16, v: u8) -> Result<(), Error> {
		f.0 = mix(f.0, rev, v as u16);
		Ok(())
	}
}
/// numbers of A B Old C D
pub const EO: [[Option<u32>; 5]; 4] = [
	[Some(0), Some(1), Some(4), None, Some(2)],
	[Some(0), Some(9), Some(1), None, Some(2)],
	[Some(1), Some(2), None, Some(0), Some(3)],
	[Some(0), Some(1), None, Some(2), Some(3)],
];
impl Model for Eo {
	const LATEST: u16 = 4;
	fn written(r: u16) -> (Vec<u8>, Self) {
		let k = sx::pick(5);
		let d = match EO[r as usize - 1][k] {
			Some(d) => d,
			None => {
				sx::assume(false);
				0
			}
		};
		let w = W::rev(r).put(&d);
		match k {
			0 => {
				let a = u8::sym();
				(w.put(&a).0, Eo::A(a))
			}
			1 => {
				let a = u16::sym();
				(w.put(&a).0, Eo::B(a))
			}
			2 => {
				let p = u8::sym();
				(w.put(&p).0, Eo::B(mix(p as u16, r, 3)))
			}
			3 => (w.0, Eo::C),
			_ => {
				let (a, b, c) = (u16::sym(), u8::sym(), u8::sym());
				let mut v = a;
				if r < 3 {
					v = mix(v, r, b as u16);
				}
				if r < 4 {
					v = mix(v, r, c as u16);
				}
				(w.put(&a).put_if(r < 3, &b).put_if(r < 4, &c).0, Eo::D(v))
			}
		}
	}
	fn eq(&self, o: &Self) -> bool {
		match (self, o) {
			(Eo::A(a), Eo::A(b)) => a == b,
			(Eo::B(a), Eo::B(b)) | (Eo::D(a), Eo::D(b)) => a == b,
			(Eo::C, Eo::C) => true,
			_ => false,
		}
	}
}

// ---- compact layout, structs ------------------------------------------------------------------

/// legacy, compact, indexed, indexed with a field added in the middle
#[revisioned(revision(1), revision(2, optimised), revision(3, optimised, indexed_struct), revision(4, optimised, indexed_struct))]
pub struct Os {
	pub a: u16,
	#[revision(start = 4, default_fn = "d_d")]
	pub d: u8,
	pub b: Option<u8>,
	#[revision(start = 2)]
	pub c: String,
}
impl Os {
	fn d_d(rev: u16) -> Result<u8, Error> {
		Ok(rev as u8 + 9)
	}
}
impl Model for Os {
	const LATEST: u16 = 4;
	fn written(r: u16) -> (Vec<u8>, Self) {
		let (a, d, b, c) = (u16::sym(), u8::sym(), Option::<u8>::sym(), if r >= 2 { text() } else { String::new() });
		let w = match r {
			1 => W::rev(1).put(&a).put(&b),
			2 => W::compact(2, W::new().put(&a).put(&b).put(&c)),
			3 => W::indexed(3, &[ser(&a), ser(&b), ser(&c)]),
			_ => W::indexed(4, &[ser(&a), ser(&d), ser(&b), ser(&c)]),
		};
		(w.0, Os { a, d: if r >= 4 { d } else { r as u8 + 9 }, b, c })
	}
	fn eq(&self, o: &Self) -> bool {
		self.a == o.a && self.d == o.d && self.b.same(&o.b) && self.c.same(&o.c)
	}
}

/// conversions under the compact layout, in a tuple struct and a named one
#[revisioned(revision(1, optimised), revision(2, optimised, indexed_struct), revision(3, optimised))]
pub struct Oc {
	pub a: u8,
	#[revision(end = 2, convert_fn = "c_o")]
	pub o: u16,
	#[revision(start = 2, end = 3, convert_fn = "c_p")]
	pub p: Option<u8>,
	#[revision(start = 3)]
	pub m: u16,
	#[revision(start = 2, default_fn = "d_n")]
	pub n: u8,
	#[revision(end = 3, convert_fn = "c_q")]
	pub q: u8,
}
impl Oc {
	fn c_o(&mut self, rev: u16, v: u16) -> Result<(), Error> {
		self.m = mix(self.m, rev, v);
		Ok(())
	}
	fn c_p(&mut self, rev: u16, v: Option<u8>) -> Result<(), Error> {
		if let Some(v) = v {
			self.m = mix(self.m, rev, v as u16);
		}
		Ok(())
	}
	fn c_q(&mut self, rev: u16, v: u8) -> Result<(), Error> {
		self.m = mix(self.m, rev, v as u16);
		Ok(())
	}
	fn d_n(rev: u16) -> Result<u8, Error> {
		Ok(rev as u8 + 30)
	}
}
impl Model for Oc {
	const LATEST: u16 = 3;
	fn written(r: u16) -> (Vec<u8>, Self) {
		let (a, o, p, m, n, q) = (u8::sym(), u16::sym(), if r == 2 { Option::<u8>::sym() } else { None }, u16::sym(), u8::sym(), u8::sym());
		let (w, m) = match r {
			1 => (W::compact(1, W::new().put(&a).put(&o).put(&q)), mix(mix(0, 1, o), 1, q as u16)),
			2 => (
				W::indexed(2, &[ser(&a), ser(&p), ser(&n), ser(&q)]),
				mix(
					match p {
						Some(p) => mix(0, 2, p as u16),
						None => 0,
					},
					2,
					q as u16,
				),
			),
			_ => (W::compact(3, W::new().put(&a).put(&m).put(&n)), m),
		};
		(w.0, Oc { a, m, n: if r >= 2 { n } else { 31 } })
	}
	fn eq(&self, o: &Self) -> bool {
		self.a == o.a && self.m == o.m && self.n == o.n
	}
}

#[revisioned(revision(1), revision(2, optimised, indexed_struct))]
pub struct Ot(pub u16, #[revision(end = 2, convert_fn = "c")] pub u8, pub Option<u8>, #[revision(start = 2)] pub u16);
impl Ot {
	fn c(&mut self, rev: u16, v: u8) -> Result<(), Error> {
		self.2 = mix(self.2, rev, v as u16);
		Ok(())
	}
}
impl Model for Ot {
	const LATEST: u16 = 2;
	fn written(r: u16) -> (Vec<u8>, Self) {
		let (a, o, b, c) = (u16::sym(), u8::sym(), Option::<u8>::sym(), u16::sym());
		if r == 1 {
			(W::rev(1).put(&a).put(&o).put(&b).0, Ot(a, b, mix(0, 1, o as u16)))
		} else {
			(W::indexed(2, &[ser(&a), ser(&b), ser(&c)]).0, Ot(a, b, c))
		}
	}
	fn eq(&self, o: &Self) -> bool {
		self.0 == o.0 && self.1.same(&o.1) && self.2 == o.2
	}
}

#[revisioned(revision(1, optimised), revision(2, optimised, indexed_struct))]
pub struct Ou;
impl Model for Ou {
	const LATEST: u16 = 2;
	fn written(r: u16) -> (Vec<u8>, Self) {
		(W::compact(r, W::new()).0, Ou)
	}
	fn eq(&self, _: &Self) -> bool {
		true
	}
}

/// indexed fields: default encoding at the legacy revision, indexed at the others
#[revisioned(revision(1), revision(2, optimised), revision(3, optimised, indexed_struct))]
pub struct Oi {
	pub id: u8,
	#[revision(indexed_map)]
	pub m: BTreeMap<u8, bool>,
	#[revision(indexed_seq)]
	pub s: Vec<Option<u8>>,
	#[revision(indexed_set, start = 2)]
	pub t: BTreeSet<u8>,
	pub z: u16,
}
fn small_map() -> BTreeMap<u8, bool> {
	let mut m = BTreeMap::new();
	for _ in 0..sx::pick(2) {
		m.insert(u8::sym(), bool::sym());
	}
	m
}
fn small_set() -> BTreeSet<u8> {
	let mut m = BTreeSet::new();
	for _ in 0..sx::pick(2) {
		m.insert(u8::sym());
	}
	m
}
impl Model for Oi {
	const LATEST: u16 = 3;
	fn written(r: u16) -> (Vec<u8>, Self) {
		let (id, m, s, z) = (u8::sym(), small_map(), few::<Option<u8>>(1), u16::sym());
		let t = if r >= 2 { small_set() } else { BTreeSet::new() };
		let w = match r {
			1 => W::rev(1).put(&id).put(&m).put(&s).put(&z),
			2 => W::compact(2, W::new().put(&id).raw(&imap(&m)).raw(&iseq(&s)).raw(&iset(&t)).put(&z)),
			_ => W::indexed(3, &[ser(&id), imap(&m), iseq(&s), iset(&t), ser(&z)]),
		};
		(w.0, Oi { id, m, s, t, z })
	}
	fn eq(&self, o: &Self) -> bool {
		self.id == o.id && self.m.same(&o.m) && self.s.same(&o.s) && self.t.same(&o.t) && self.z == o.z
	}
}

/// an indexed field that was removed, with the layout of the rest
#[revisioned(revision(1, optimised), revision(2, optimised, indexed_struct), revision(3, optimised))]
pub struct Or {
	pub a: u8,
	#[revision(indexed_seq, end = 3, convert_fn = "c_s")]
	pub s: Vec<Option<u8>>,
	#[revision(indexed_map)]
	pub m: BTreeMap<u8, bool>,
	#[revision(indexed_set, end = 3, convert_fn = "c_t")]
	pub t: BTreeSet<u8>,
	#[revision(indexed_map, end = 2, convert_fn = "c_n")]
	pub n: BTreeMap<u8, bool>,
	#[revision(start = 3)]
	pub z: u16,
}
impl Or {
	fn c_s(&mut self, rev: u16, v: Vec<Option<u8>>) -> Result<(), Error> {
		for x in v {
			self.z = mix(self.z, rev, x.map(|x| x as u16 + 1).unwrap_or(0));
		}
		Ok(())
	}
	fn c_t(&mut self, rev: u16, v: BTreeSet<u8>) -> Result<(), Error> {
		for x in v {
			self.z = mix(self.z, rev, x as u16);
		}
		Ok(())
	}
	fn c_n(&mut self, rev: u16, v: BTreeMap<u8, bool>) -> Result<(), Error> {
		for (k, x) in v {
			self.z = mix(self.z, rev, k as u16 + x as u16);
		}
		Ok(())
	}
}
impl Model for Or {
	const LATEST: u16 = 3;
	fn written(r: u16) -> (Vec<u8>, Self) {
		let (a, m, z) = (u8::sym(), small_map(), u16::sym());
		if r == 3 {
			return (W::compact(3, W::new().put(&a).raw(&imap(&m)).put(&z)).0, Or { a, m, z });
		}
		let (s, t) = (few::<Option<u8>>(1), small_set());
		let mut v = Or { a, m, z: 0 };
		for x in &s {
			v.z = mix(v.z, r, x.map(|x| x as u16 + 1).unwrap_or(0));
		}
		for x in &t {
			v.z = mix(v.z, r, *x as u16);
		}
		if r == 2 {
			return (W::indexed(2, &[ser(&a), iseq(&s), imap(&v.m), iset(&t)]).0, v);
		}
		let n = small_map();
		for (k, x) in &n {
			v.z = mix(v.z, r, *k as u16 + *x as u16);
		}
		(W::compact(1, W::new().put(&a).raw(&iseq(&s)).raw(&imap(&v.m)).raw(&iset(&t)).raw(&imap(&n))).0, v)
	}
	fn eq(&self, o: &Self) -> bool {
		self.a == o.a && self.m.same(&o.m) && self.z == o.z
	}
}

/// compact types inside compact types
#[revisioned(revision(1), revision(2, optimised))]
pub struct On {
	pub a: Os,
	#[revision(start = 2)]
	pub e: Option<Oe>,
	pub t: u8,
}
impl Model for On {
	const LATEST: u16 = 2;
	fn written(r: u16) -> (Vec<u8>, Self) {
		let (b, a) = Os::written(inner_rev::<Os>());
		let t = u8::sym();
		if r == 1 {
			return (W::rev(1).raw(&b).put(&t).0, On { a, e: None, t });
		}
		if sx::pick(2) == 0 {
			return (W::compact(2, W::new().raw(&b).put(&0u8).put(&t)).0, On { a, e: None, t });
		}
		let (c, e) = Oe::written(inner_rev::<Oe>());
		(W::compact(2, W::new().raw(&b).put(&1u8).raw(&c).put(&t)).0, On { a, e: Some(e), t })
	}
	fn eq(&self, o: &Self) -> bool {
		let e = match (&self.e, &o.e) {
			(None, None) => true,
			(Some(a), Some(b)) => a.eq(b),
			_ => false,
		};
		self.a.eq(&o.a) && e && self.t == o.t
	}
}

// ---- compact layout, enums --------------------------------------------------------------------

#[revisioned(revision(1, optimised), revision(2, optimised), revision(3, optimised))]
pub enum Oe {
	#[revision(size = "inline")]
	A,
	#[revision(size = "fixed(2)", end = 3, convert_fn = "old")]
	Old(u8, bool),
	#[revision(size = "varlen")]
	B(String),
	#[revision(size = "fixed(3)")]
	C([u8; 3]),
	#[revision(size = "inline", start = 2)]
	D,
	#[revision(size = "varlen", start = 2)]
	E { x: u16, y: Option<u8> },
	#[revision(size = "varlen", start = 3, override(revision = 3, discriminant = 31))]
	Z(Option<u16>),
	#[revision(size = "varlen", end = 2, convert_fn = "gone")]
	Gone { p: u16 },
}
impl Oe {
	fn old(f: OeOldFields, rev: u16) -> Result<Self, Error> {
		Ok(Oe::C([f.0, f.1 as u8, rev as u8]))
	}
	fn gone(f: OeGoneFields, rev: u16) -> Result<Self, Error> {
		Ok(Oe::Z(Some(mix(0, rev, f.p))))
	}
}
/// ids of A Old B C D E Z Gone
pub const OE: [[Option<u8>; 8]; 3] = [
	[Some(0), Some(1), Some(2), Some(3), None, None, None, Some(4)],
	[Some(0), Some(1), Some(2), Some(3), Some(4), Some(5), None, None],
	[Some(0), None, Some(1), Some(2), Some(3), Some(4), Some(31), None],
];
impl Model for Oe {
	const LATEST: u16 = 3;
	fn written(r: u16) -> (Vec<u8>, Self) {
		let k = sx::pick(8);
		let id = match OE[r as usize - 1][k] {
			Some(d) => d,
			None => {
				sx::assume(false);
				0
			}
		};
		let (w, v) = match k {
			0 => (W::inline(r, id), Oe::A),
			1 => {
				let (a, b) = (u8::sym(), bool::sym());
				(W::fixed(r, id, W::new().put(&a).put(&b)), Oe::C([a, b as u8, r as u8]))
			}
			2 => {
				let s = text();
				(W::varlen(r, id, W::new().put(&s)), Oe::B(s))
			}
			3 => {
				let c = sx::bytes::<3>();
				(W::fixed(r, id, W::new().raw(&c)), Oe::C(c))
			}
			4 => (W::inline(r, id), Oe::D),
			5 => {
				let (x, y) = (u16::sym(), Option::<u8>::sym());
				(W::varlen(r, id, W::new().put(&x).put(&y)), Oe::E { x, y })
			}
			6 => {
				let o = Option::<u16>::sym();
				(W::varlen(r, id, W::new().put(&o)), Oe::Z(o))
			}
			_ => {
				let p = u16::sym();
				(W::varlen(r, id, W::new().put(&p)), Oe::Z(Some(mix(0, r, p))))
			}
		};
		(w.0, v)
	}
	fn eq(&self, o: &Self) -> bool {
		match (self, o) {
			(Oe::A, Oe::A) | (Oe::D, Oe::D) => true,
			(Oe::B(a), Oe::B(b)) => a.same(b),
			(Oe::C(a), Oe::C(b)) => a == b,
			(Oe::E { x, y }, Oe::E { x: a, y: b }) => x == a && y.same(b),
			(Oe::Z(a), Oe::Z(b)) => a.same(b),
			_ => false,
		}
	}
}

/// layout switch without conversions; a new first variant shifts every number
#[revisioned(revision(1), revision(2, optimised), revision(3, optimised))]
pub enum Ow {
	#[revision(size = "varlen", start = 3)]
	New(Option<u8>),
	#[revision(size = "inline")]
	A,
	#[revision(size = "varlen")]
	B(u16),
	#[revision(size = "fixed(2)")]
	C([u8; 2]),
	#[revision(size = "varlen")]
	D { x: u8, y: u16 },
	#[revision(size = "fixed(1)", start = 2)]
	E(bool),
	#[revision(size = "varlen", start = 2)]
	F(Tup),
}
/// ids of New A B C D E F
pub const OW: [[Option<u8>; 7]; 3] = [
	[None, Some(0), Some(1), Some(2), Some(3), None, None],
	[None, Some(0), Some(1), Some(2), Some(3), Some(4), Some(5)],
	[Some(0), Some(1), Some(2), Some(3), Some(4), Some(5), Some(6)],
];
impl Ow {
	pub fn index(&self) -> usize {
		match self {
			Ow::New(_) => 0,
			Ow::A => 1,
			Ow::B(_) => 2,
			Ow::C(_) => 3,
			Ow::D { .. } => 4,
			Ow::E(_) => 5,
			Ow::F(_) => 6,
		}
	}
}
impl Model for Ow {
	const LATEST: u16 = 3;
	fn written(r: u16) -> (Vec<u8>, Self) {
		let k = sx::pick(7);
		let id = match OW[r as usize - 1][k] {
			Some(d) => d,
			None => {
				sx::assume(false);
				0
			}
		};
		let (body, class, v) = match k {
			0 => {
				let o = Option::<u8>::sym();
				(W::new().put(&o), 2, Ow::New(o))
			}
			1 => (W::new(), 0, Ow::A),
			2 => {
				let x = u16::sym();
				(W::new().put(&x), 2, Ow::B(x))
			}
			3 => {
				let c = sx::bytes::<2>();
				(W::new().raw(&c), 1, Ow::C(c))
			}
			4 => {
				let (x, y) = (u8::sym(), u16::sym());
				(W::new().put(&x).put(&y), 2, Ow::D { x, y })
			}
			5 => {
				let b = bool::sym();
				(W::new().put(&b), 1, Ow::E(b))
			}
			_ => {
				let (b, t) = Tup::written(inner_rev::<Tup>());
				(W::new().raw(&b), 2, Ow::F(t))
			}
		};
		let w = if r == 1 {
			W::rev(1).put(&(id as u32)).raw(&body.0)
		} else {
			match class {
				0 => W::inline(r, id),
				1 => W::fixed(r, id, body),
				_ => W::varlen(r, id, body),
			}
		};
		(w.0, v)
	}
	fn eq(&self, o: &Self) -> bool {
		match (self, o) {
			(Ow::New(a), Ow::New(b)) => a.same(b),
			(Ow::A, Ow::A) => true,
			(Ow::B(a), Ow::B(b)) => a == b,
			(Ow::C(a), Ow::C(b)) => a == b,
			(Ow::D { x, y }, Ow::D { x: a, y: b }) => x == a && y == b,
			(Ow::E(a), Ow::E(b)) => a == b,
			(Ow::F(a), Ow::F(b)) => a.eq(b),
			_ => false,
		}
	}
}

/// payloads of large fixed sizes, and variable ones whose length takes two bytes
#[revisioned(revision(1, optimised), revision(2, optimised))]
pub enum Ol {
	#[revision(size = "fixed(64)")]
	A([[u8; 32]; 2]),
	#[revision(size = "fixed(255)", start = 2)]
	B([[u8; 17]; 15]),
	#[revision(size = "varlen")]
	V([[u8; 30]; 10]),
	#[revision(size = "fixed(128)", end = 2, convert_fn = "old")]
	Old([[u8; 32]; 4]),
}
impl Ol {
	fn old(f: OlOldFields, _: u16) -> Result<Self, Error> {
		Ok(Ol::A([f.0[0], f.0[3]]))
	}
}
/// ids of A B V Old
pub const OL: [[Option<u8>; 4]; 2] = [[Some(0), None, Some(1), Some(2)], [Some(0), Some(1), Some(2), None]];
/// arbitrary at both ends
fn filled<const N: usize, const M: usize>() -> [[u8; N]; M] {
	let mut a = [[7; N]; M];
	a[0][0] = sx::u8();
	a[M - 1][N - 1] = sx::u8();
	a
}
impl Model for Ol {
	const LATEST: u16 = 2;
	fn written(r: u16) -> (Vec<u8>, Self) {
		let k = sx::pick(4);
		let id = match OL[r as usize - 1][k] {
			Some(d) => d,
			None => {
				sx::assume(false);
				0
			}
		};
		let (w, v) = match k {
			0 => {
				let a = filled();
				(W::fixed(r, id, W::new().raw(&a.concat())), Ol::A(a))
			}
			1 => {
				let a = filled();
				(W::fixed(r, id, W::new().raw(&a.concat())), Ol::B(a))
			}
			2 => {
				let a = filled();
				(W::varlen(r, id, W::new().raw(&a.concat())), Ol::V(a))
			}
			_ => {
				let a = filled::<32, 4>();
				(W::fixed(r, id, W::new().raw(&a.concat())), Ol::A([a[0], a[3]]))
			}
		};
		(w.0, v)
	}
	fn eq(&self, o: &Self) -> bool {
		match (self, o) {
			(Ol::A(a), Ol::A(b)) => a == b,
			(Ol::B(a), Ol::B(b)) => a == b,
			(Ol::V(a), Ol::V(b)) => a == b,
			_ => false,
		}
	}
}

/// What `rev` wrote decodes to what it stands for now, consuming exactly that; the current
/// revision writes exactly the documented bytes.
pub fn evolves<M: Model>() {
	let rev = any_rev::<M>();
	sx::check(M::revision() == M::LATEST, "the type reports another current revision");
	let mode = sx::pick(3);
	uniform(mode == 1);
	let (bytes, want) = M::written(rev);
	match mode {
		0 => {
			let mut full = bytes.clone();
			full.push(sx::u8());
			let mut r = &full[..];
			match M::deserialize_revisioned(&mut r) {
				Ok(got) => {
					sx::check(got.eq(&want), "an old encoding decodes to another value");
					sx::check(r.len() == 1, "decoding an old encoding consumes another length");
				}
				Err(_) => sx::fail("an old encoding is rejected"),
			}
		}
		1 => {
			let out = ser(&want);
			if rev == M::LATEST {
				sx::check(out == bytes, "the current layout is not the documented one");
			}
			let mut full = out.clone();
			full.push(sx::u8());
			let mut r = &full[..];
			sx::check(u16::deserialize_revisioned(&mut r).ok() == Some(M::LATEST), "encoding does not announce the current revision");
			let mut r = &full[..];
			match M::deserialize_revisioned(&mut r) {
				Ok(got) => {
					sx::check(got.eq(&want), "re-encoding gives another value");
					sx::check(r.len() == 1, "decoding consumes another length than encoding wrote");
				}
				Err(_) => sx::fail("the encoding of a value is rejected"),
			}
		}
		_ => truncated::<M>(&bytes),
	}
	sx::observe_bytes(&bytes);
}
/// what some revision wrote, followed by anything
pub fn skips_written<M: Model>() {
	let rev = any_rev::<M>();
	let (bytes, _) = M::written(rev);
	let n = bytes.len();
	let mut s = bytes;
	s.push(sx::u8());
	s.push(sx::u8());
	let s = &s[..];
	match sx::pick(5) {
		0 => {
			let mut r = s;
			sx::check(M::skip_revisioned(&mut r).is_ok(), "reader skip rejects an encoding");
			sx::check(r.len() == 2, "reader skip consumes another length than was written");
		}
		1 => match skip_slice::<M>(s) {
			Ok(k) => sx::check(k == n, "slice skip consumes another length than was written"),
			Err(_) => sx::fail("slice skip rejects an encoding"),
		},
		2 => {
			let mut r = s;
			sx::check(M::skip_check_revisioned(&mut r).is_ok(), "checking skip rejects an encoding");
			sx::check(r.len() == 2, "checking skip consumes another length than was written");
		}
		3 => match skip_check_slice::<M>(s) {
			Ok(k) => sx::check(k == n, "checking slice skip consumes another length than was written"),
			Err(_) => sx::fail("checking slice skip rejects an encoding"),
		},
		_ => {
			// inside a container
			let mut l = ser(&2usize);
			l.extend_from_slice(&s[..n]);
			l.extend_from_slice(&s[..n]);
			match skip_slice::<Vec<M>>(&l) {
				Ok(k) => sx::check(k == l.len(), "skipping a list consumes another length than was written"),
				Err(_) => sx::fail("skipping a list of encodings fails"),
			}
		}
	}
	sx::observe_bytes(s);
}
#[macro_export]
macro_rules! structs {
	($f:ident; $($(#[$m:meta])* fn $name:ident() $body:block)*) => {
		$crate::harnesses! {
			fn h_evo() { $f::<$crate::model::Evo>() }
			fn h_tup() { $f::<$crate::model::Tup>() }
			fn h_many() { $f::<$crate::model::Many>() }
			fn h_unit() { $f::<$crate::model::Unit>() }
			fn h_add() { $f::<$crate::model::Add>() }
			fn h_nest() { $f::<$crate::model::Nest>() }
			fn h_mk() { $f::<$crate::model::Mk>() }
			fn h_mw() { $f::<$crate::model::Mw>() }
			fn h_os() { $f::<$crate::model::Os>() }
			fn h_oc() { $f::<$crate::model::Oc>() }
			fn h_ot() { $f::<$crate::model::Ot>() }
			fn h_ou() { $f::<$crate::model::Ou>() }
			fn h_oi() { $f::<$crate::model::Oi>() }
			fn h_or() { $f::<$crate::model::Or>() }
			fn h_on() { $f::<$crate::model::On>() }
			$($(#[$m])* fn $name() $body)*
		}
	};
}
#[macro_export]
macro_rules! enums {
	($f:ident; $($(#[$m:meta])* fn $name:ident() $body:block)*) => {
		$crate::harnesses! {
			fn h_en() { $f::<$crate::model::En>() }
			fn h_ev() { $f::<$crate::model::Ev>() }
			fn h_ea() { $f::<$crate::model::Ea>() }
			fn h_mke() { $f::<$crate::model::MkE>() }
			fn h_eb() { $f::<$crate::model::Eb>() }
			fn h_oe() { $f::<$crate::model::Oe>() }
			fn h_ow() { $f::<$crate::model::Ow>() }
			fn h_eo() { $f::<$crate::model::Eo>() }
			fn h_ol() { $f::<$crate::model::Ol>() }
			$($(#[$m])* fn $name() $body)*
		}
	};
}
#[macro_export]
macro_rules! models {
	($f:ident; $($(#[$m:meta])* fn $name:ident() $body:block)*) => {
		$crate::harnesses! {
			fn h_evo() { $f::<$crate::model::Evo>() }
			fn h_tup() { $f::<$crate::model::Tup>() }
			fn h_many() { $f::<$crate::model::Many>() }
			fn h_unit() { $f::<$crate::model::Unit>() }
			fn h_add() { $f::<$crate::model::Add>() }
			fn h_nest() { $f::<$crate::model::Nest>() }
			fn h_mk() { $f::<$crate::model::Mk>() }
			fn h_mw() { $f::<$crate::model::Mw>() }
			fn h_os() { $f::<$crate::model::Os>() }
			fn h_oc() { $f::<$crate::model::Oc>() }
			fn h_ot() { $f::<$crate::model::Ot>() }
			fn h_ou() { $f::<$crate::model::Ou>() }
			fn h_oi() { $f::<$crate::model::Oi>() }
			fn h_or() { $f::<$crate::model::Or>() }
			fn h_on() { $f::<$crate::model::On>() }
			fn h_en() { $f::<$crate::model::En>() }
			fn h_ev() { $f::<$crate::model::Ev>() }
			fn h_ea() { $f::<$crate::model::Ea>() }
			fn h_mke() { $f::<$crate::model::MkE>() }
			fn h_eb() { $f::<$crate::model::Eb>() }
			fn h_oe() { $f::<$crate::model::Oe>() }
			fn h_ow() { $f::<$crate::model::Ow>() }
			fn h_eo() { $f::<$crate::model::Eo>() }
			fn h_ol() { $f::<$crate::model::Ol>() }
			$($(#[$m])* fn $name() $body)*
		}
	};
}
