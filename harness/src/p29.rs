//! Lengths beyond 32 bits: refused, or written faithfully.
use crate::harnesses;
use crate::sx;
use crate::util::*;
use revision::optimised::indexed::*;
use std::io::{self, Read, Write};

/// longest element: past every 32-bit length with what surrounds it
const TOP: u64 = (1 << 32) + (1 << 12);
/// shortest long element (P10 to P12 decide the lengths below)
const LOW: u64 = 1 << 16;

fn zeros(n: usize) -> Vec<u8> {
	vec![0u8; n]
}
/// encodes as `n` zero bytes, or as the byte `b`
pub struct Blob {
	n: usize,
	b: u8,
}
impl Revisioned for Blob {
	fn revision() -> u16 {
		1
	}
}
impl SerializeRevisioned for Blob {
	fn serialize_revisioned<W: Write>(&self, w: &mut W) -> Result<(), Error> {
		if self.n == 0 {
			w.write_all(&[self.b]).map_err(Error::Io)
		} else {
			w.write_all(&zeros(self.n)).map_err(Error::Io)
		}
	}
}
impl DeserializeRevisioned for Blob {
	fn deserialize_revisioned<R: Read>(_: &mut R) -> Result<Self, Error> {
		Err(Error::Deserialize(String::new()))
	}
}
impl SkipRevisioned for Blob {
	fn skip_revisioned<R: Read>(_: &mut R) -> Result<(), Error> {
		Err(Error::Deserialize(String::new()))
	}
}
impl WalkRevisioned for Blob {
	type Walker<'r, R: BorrowedReader + 'r> = LeafWalker<'r, Blob, R>;
	fn walk_revisioned<'r, R: BorrowedReader>(r: &'r mut R) -> Result<Self::Walker<'r, R>, Error> {
		Ok(LeafWalker::new(r))
	}
}
/// encodes as nothing
pub struct Nil;
impl Revisioned for Nil {
	fn revision() -> u16 {
		1
	}
}
impl SerializeRevisioned for Nil {
	fn serialize_revisioned<W: Write>(&self, _: &mut W) -> Result<(), Error> {
		Ok(())
	}
}
impl DeserializeRevisioned for Nil {
	fn deserialize_revisioned<R: Read>(_: &mut R) -> Result<Self, Error> {
		Ok(Nil)
	}
}
impl SkipRevisioned for Nil {
	fn skip_revisioned<R: Read>(_: &mut R) -> Result<(), Error> {
		Ok(())
	}
}
impl WalkRevisioned for Nil {
	type Walker<'r, R: BorrowedReader + 'r> = LeafWalker<'r, Nil, R>;
	fn walk_revisioned<'r, R: BorrowedReader>(r: &'r mut R) -> Result<Self::Walker<'r, R>, Error> {
		Ok(LeafWalker::new(r))
	}
}

/// keeps what comes before the first long write, and counts the rest
struct Out {
	head: [u8; 160],
	n: usize,
	closed: bool,
	total: u64,
}
impl Out {
	fn new() -> Out {
		Out {
			head: [0; 160],
			n: 0,
			closed: false,
			total: 0,
		}
	}
	fn u32(&self, at: usize) -> u64 {
		sx::check(at + 4 <= self.n, "the offset table is incomplete");
		u32::from_le_bytes([self.head[at], self.head[at + 1], self.head[at + 2], self.head[at + 3]]) as u64
	}
}
impl Write for Out {
	fn write(&mut self, b: &[u8]) -> io::Result<usize> {
		self.total += b.len() as u64;
		if b.len() > 64 {
			// a long piece: its beginning
			if !self.closed {
				let mut i = 0;
				while i < 48 {
					self.head[self.n] = b[i];
					self.n += 1;
					i += 1;
				}
			}
			self.closed = true;
		} else if !self.closed {
			let mut i = 0;
			while i < b.len() {
				self.head[self.n] = b[i];
				self.n += 1;
				i += 1;
			}
		}
		Ok(b.len())
	}
	fn flush(&mut self) -> io::Result<()> {
		Ok(())
	}
}

fn long() -> usize {
	let n = sx::u64();
	sx::assume(n >= LOW);
	sx::assume(n <= TOP);
	n as usize
}
/// one long element among eight
fn blobs() -> (Vec<Blob>, usize, usize) {
	let n = long();
	let at = sx::pick(8);
	let v = (0..8)
		.map(|i| Blob {
			n: if i == at {
				n
			} else {
				0
			},
			b: i as u8,
		})
		.collect();
	(v, at, n)
}
fn len_prefix(out: &Out, n: usize) -> usize {
	sx::check(out.head[1] as usize == n, "the element count is wrong");
	2
}
fn refused(r: Result<(), Error>, total: u64) -> bool {
	match r {
		Ok(()) => false,
		Err(Error::Serialize(_)) => {
			sx::check(total > u32::MAX as u64, "a value that fits is refused");
			sx::cover("too long");
			true
		}
		Err(_) => sx::fail("a value that does not fit is not a serialisation error"),
	}
}
/// offsets of eight elements of which the `at`-th (in the order written) is `n` long
fn offsets(out: &Out, base: usize, step: usize, at: usize, n: u64) {
	let mut pos = 0u64;
	for i in 0..8 {
		sx::check(out.u32(base + step * i) == pos, "an offset in the table is not where its element starts");
		pos += if i == at {
			n
		} else {
			1
		};
	}
}

harnesses! {
	fn h_seq() {
		let (v, at, n) = blobs();
		let mut out = Out::new();
		let r = serialize_indexed_seq(&v, &mut out);
		if !refused(r, n as u64 + 7) {
			let base = len_prefix(&out, 8);
			offsets(&out, base, 4, at, n as u64);
			sx::check(out.total == base as u64 + 32 + n as u64 + 7, "the elements are not written completely");
			sx::cover("fits");
		}
	}
	fn h_set() {
		let (v, at, n) = blobs();
		let mut out = Out::new();
		let r = serialize_indexed_set_iter(v.iter(), &mut out);
		if !refused(r, n as u64 + 7) {
			// zero bytes sort before the others, after the single zero byte
			let base = len_prefix(&out, 8);
			offsets(&out, base, 4, if at == 0 { 0 } else { 1 }, n as u64);
			sx::check(out.total == base as u64 + 32 + n as u64 + 7, "the elements are not written completely");
			sx::cover("fits");
		}
	}
	fn h_map_value() {
		let (v, at, n) = blobs();
		let k: Vec<u8> = (0..8).collect();
		let mut out = Out::new();
		let r = serialize_indexed_entries(k.iter().zip(v.iter()), &mut out);
		if !refused(r, n as u64 + 7) {
			let base = len_prefix(&out, 8);
			offsets(&out, base, 8, 8, 0);
			offsets(&out, base + 4, 8, at, n as u64);
			sx::check(out.u32(base + 64) == 8 && out.u32(base + 68) == n as u64 + 7, "the length of a region is wrong");
			sx::check(out.total == base as u64 + 72 + 8 + n as u64 + 7, "the entries are not written completely");
			sx::cover("fits");
		}
	}
	fn h_map_key() {
		let (k, at, n) = blobs();
		let v: Vec<u8> = (0..8).collect();
		let mut out = Out::new();
		let r = serialize_indexed_entries(k.iter().zip(v.iter()), &mut out);
		if !refused(r, n as u64 + 7) {
			let base = len_prefix(&out, 8);
			offsets(&out, base, 8, if at == 0 { 0 } else { 1 }, n as u64);
			offsets(&out, base + 4, 8, 8, 0);
			sx::check(out.u32(base + 64) == n as u64 + 7 && out.u32(base + 68) == 8, "the length of a region is wrong");
			sx::check(out.total == base as u64 + 72 + 8 + n as u64 + 7, "the entries are not written completely");
			sx::cover("fits");
		}
	}
	/// few elements: no table, so nothing to overflow
	fn h_few() {
		let n = long();
		let v = vec![Blob { n, b: 0 }, Blob { n: 0, b: 1 }];
		let k = [0u8, 1];
		let mut out = Out::new();
		let extra = match sx::pick(3) {
			0 => {
				sx::check(serialize_indexed_seq(&v, &mut out).is_ok(), "a short sequence of long elements is refused");
				0
			}
			1 => {
				sx::check(serialize_indexed_set_iter(v.iter(), &mut out).is_ok(), "a small set of long elements is refused");
				0
			}
			_ => {
				sx::check(serialize_indexed_entries(k.iter().zip(v.iter()), &mut out).is_ok(), "a small map of long elements is refused");
				2
			}
		};
		let base = len_prefix(&out, 2);
		sx::check(out.total == base as u64 + n as u64 + 1 + extra, "the elements are not written completely");
	}
	fn h_struct() {
		let n = long();
		let s = Sl { a: 7, b: Blob { n, b: 0 } };
		let mut out = Out::new();
		if !refused(s.serialize_revisioned(&mut out), n as u64 + 1) {
			let base = ser(&1u16).len();
			sx::check(out.u32(base) == n as u64 + 1, "the length of a struct's payload is wrong");
			sx::check(out.total == base as u64 + 4 + n as u64 + 1, "the fields are not written completely");
			sx::cover("fits");
		}
	}
	fn h_indexed_struct() {
		let n = long();
		let s = Si { a: 7, b: Blob { n, b: 0 }, c: Nil };
		let mut out = Out::new();
		if !refused(s.serialize_revisioned(&mut out), n as u64 + 13) {
			let base = ser(&1u16).len();
			sx::check(out.u32(base) == n as u64 + 13, "the length of a struct's payload is wrong");
			sx::check(out.u32(base + 4) == 12 && out.u32(base + 8) == 13 && out.u32(base + 12) == n as u64 + 13, "an offset in the table is not where its field starts");
			sx::check(out.total == base as u64 + 4 + n as u64 + 13, "the fields are not written completely");
			sx::cover("fits");
		}
	}
	fn h_enum() {
		let n = long();
		let s = El::A(Blob { n, b: 0 });
		let mut out = Out::new();
		if !refused(s.serialize_revisioned(&mut out), n as u64) {
			let base = ser(&1u16).len();
			sx::check(out.u32(base + 1) == n as u64, "the length of a variant's payload is wrong");
			sx::check(out.total == base as u64 + 5 + n as u64, "the payload is not written completely");
			sx::cover("fits");
		}
	}
	/// layouts without 32-bit lengths take any length
	fn h_plain() {
		let n = long();
		let mut out = Out::new();
		let want = match sx::pick(4) {
			0 => {
				let v = zeros(n);
				let t = unsafe { String::from_utf8_unchecked(v) };
				sx::check(t.serialize_revisioned(&mut out).is_ok(), "a long text is refused");
				prefix(&out, 0, n) + n as u64
			}
			1 => {
				let v = zeros(n);
				sx::check(v.serialize_revisioned(&mut out).is_ok(), "a long list is refused");
				prefix(&out, 0, n) + n as u64
			}
			2 => {
				let v = (7u8, Some(Blob { n, b: 0 }));
				sx::check(v.serialize_revisioned(&mut out).is_ok(), "a long tuple is refused");
				n as u64 + 2
			}
			_ => {
				let v = Pl { a: 7, b: Blob { n, b: 0 } };
				sx::check(v.serialize_revisioned(&mut out).is_ok(), "a long struct is refused");
				ser(&1u16).len() as u64 + n as u64 + 1
			}
		};
		sx::check(out.total == want, "a long value is not written completely");
	}
}
fn prefix(out: &Out, at: usize, n: usize) -> u64 {
	let h = ser(&n);
	let mut i = 0;
	while i < h.len() {
		sx::check(out.head[at + i] == h[i], "the length prefix is wrong");
		i += 1;
	}
	h.len() as u64
}
#[revisioned(revision(1, optimised))]
pub struct Sl {
	a: u8,
	b: Blob,
}
#[revisioned(revision(1, optimised, indexed_struct))]
pub struct Si {
	a: u8,
	b: Blob,
	c: Nil,
}
#[revisioned(revision(1, optimised))]
pub enum El {
	#[revision(size = "varlen")]
	A(Blob),
	#[revision(size = "varlen")]
	B(u8),
}
#[revisioned(revision(1))]
pub struct Pl {
	a: u8,
	b: Blob,
}
