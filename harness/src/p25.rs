//! The slice reader and its contract.
use crate::harnesses;
use crate::sx;
use crate::util::*;
use revision::slice_reader::{advance_read, read_borrowed_bytes, take_bytes_reader, take_bytes_slice, BorrowedReader, SliceReader};
use std::io::Read;

const N: usize = if cfg!(feature = "deep") { 6 } else { 5 };
const OPS: usize = 3;

/// One operation on a reader whose next bytes must be `data[pos..]`; the new position.
fn step<R: BorrowedReader>(r: &mut R, data: &[u8], pos: usize) -> usize {
	let left = data.len() - pos;
	let op = sx::pick(6);
	if op == 0 {
		// plain read into a buffer of any length
		let k = sx::pick(N + 2);
		let mut buf = [0u8; N + 2];
		let want = k.min(left);
		match r.read(&mut buf[..k]) {
			Ok(n) => {
				sx::check(n == want, "a read returns a different number of bytes than are there");
				sx::check(buf[..want] == data[pos..pos + want], "a read returns other bytes than the next ones");
			}
			Err(_) => sx::fail("a read from memory fails"),
		}
		return pos + want;
	}
	let n = sx::u64() as usize;
	let fits = n <= left;
	match op {
		1 => match r.peek_bytes(n) {
			Ok(b) => sx::check(fits && b.len() == n && *b == data[pos..pos + n], "peeking shows other bytes than the next ones"),
			Err(_) => sx::check(!fits, "peeking at bytes that are there fails"),
		},
		2 => {
			let ok = r.advance(n).is_ok();
			sx::check(ok == fits, "advancing succeeds or fails wrongly");
			if ok {
				return pos + n;
			}
		}
		3 => match read_borrowed_bytes(r, n) {
			Ok(b) => {
				sx::check(fits && b.len() == n && *b == data[pos..pos + n], "borrowing takes other bytes than the next ones");
				return pos + n;
			}
			Err(_) => sx::check(!fits, "borrowing bytes that are there fails"),
		},
		4 => {
			sx::assume(fits);
			let ok = advance_read(r, n).is_ok();
			sx::check(ok, "skipping bytes that are there fails");
			return pos + n;
		}
		_ => {
			let k = sx::pick(N + 2);
			let mut buf = [0u8; N + 2];
			sx::assume(k <= left);
			sx::check(r.read_exact(&mut buf[..k]).is_ok(), "reading bytes that are there fails");
			sx::check(buf[..k] == data[pos..pos + k], "reading gives other bytes than the next ones");
			return pos + k;
		}
	}
	pos
}

harnesses! {
	fn h_slice_reader() {
		let d = sx::bytes::<N>();
		let d = &d[..sx::pick(N + 1)];
		let mut r = SliceReader::new(d);
		let mut pos = 0;
		for _ in 0..OPS {
			pos = step(&mut r, d, pos);
			sx::check(r.remaining().len() + r.consumed_len() == d.len(), "consumed and remaining do not add up");
			sx::check(r.consumed_len() == pos && r.position() == pos, "the position is wrong");
			sx::check(*r.remaining() == d[pos..], "the remaining bytes are wrong");
			sx::check(*BorrowedReader::remaining(&r) == d[pos..], "the remaining bytes are wrong");
		}
		sx::observe(pos as u64);
	}
	fn h_slice() {
		let d = sx::bytes::<N>();
		let d = &d[..sx::pick(N + 1)];
		let mut r = d;
		let mut pos = 0;
		for _ in 0..OPS {
			pos = step(&mut r, d, pos);
			sx::check(*BorrowedReader::remaining(&r) == d[pos..], "the remaining bytes are wrong");
		}
		sx::observe(pos as u64);
	}
	fn h_forwarded() {
		let d = sx::bytes::<4>();
		let d = &d[..sx::pick(5)];
		let mut own = SliceReader::new(d);
		let mut r = &mut own;
		let mut pos = 0;
		for _ in 0..2 {
			pos = step(&mut r, d, pos);
			sx::check(BorrowedReader::position(&r) == pos, "the position is wrong");
			sx::check(*BorrowedReader::remaining(&r) == d[pos..], "the remaining bytes are wrong");
		}
	}
	fn h_consume_take() {
		let d = sx::bytes::<N>();
		let d = &d[..sx::pick(N + 1)];
		let a = sx::pick(N + 1);
		sx::assume(a <= d.len());
		let n = sx::u64() as usize;
		let fits = n <= d.len() - a;
		let mut r = SliceReader::new(d);
		sx::check(r.consume(a).is_ok(), "consuming bytes that are there fails");
		let mut t = r;
		sx::check(r.consume(n).is_ok() == fits, "consuming succeeds or fails wrongly");
		sx::check(r.consumed_len() == if fits { a + n } else { a }, "consuming ends elsewhere");
		match take_bytes_reader(&mut t, n) {
			Ok(b) => sx::check(fits && b.len() == n && *b == d[a..a + n], "taking gives other bytes than the next ones"),
			Err(_) => sx::check(!fits, "taking bytes that are there fails"),
		}
		sx::check(t.consumed_len() == r.consumed_len() && t.remaining().len() == r.remaining().len(), "taking ends elsewhere");
		let mut s = &d[a..];
		match take_bytes_slice(&mut s, n) {
			Ok(b) => sx::check(fits && b.len() == n && *b == d[a..a + n], "taking gives other bytes than the next ones"),
			Err(_) => sx::check(!fits, "taking bytes that are there fails"),
		}
		sx::check(*s == d[r.consumed_len()..], "taking ends elsewhere");
	}
	fn h_sub() {
		let d = sx::bytes::<N>();
		let d = &d[..sx::pick(N + 1)];
		let a = sx::pick(N + 1);
		sx::assume(a <= d.len());
		let mut r = SliceReader::new(d);
		sx::check(r.consume(a).is_ok(), "consuming bytes that are there fails");
		let (off, len) = (sx::u64() as usize, sx::u64() as usize);
		let fits = off >= a && off <= d.len() && len <= d.len() - off;
		match r.sub(off, len) {
			Ok(mut s) => {
				sx::check(fits, "a sub-reader reaches outside the unread bytes");
				sx::check(s.consumed_len() == 0 && *s.remaining() == d[off..off + len], "a sub-reader shows other bytes than its window");
				let mut pos = 0;
				for _ in 0..2 {
					pos = step(&mut s, &d[off..off + len], pos);
					sx::check(*s.remaining() == d[off + pos..off + len], "a sub-reader leaves its window");
				}
				sx::cover("a window");
			}
			Err(_) => sx::check(!fits, "a window inside the unread bytes is refused"),
		}
		sx::check(r.consumed_len() == a, "making a sub-reader moves the parent");
	}
	// around the internal chunk of the discarding skip
	fn h_advance_read_long() {
		const L: &[usize] = &[4095, 4096, 4097, 8191, 8192, 8193, 12289];
		let n = L[sx::pick(L.len())];
		let d = vec![7u8; n + 1];
		let mut r = &d[..];
		sx::check(advance_read(&mut r, n).is_ok() && r.len() == 1, "skipping many bytes ends elsewhere");
		let mut r = &d[1..];
		sx::check(advance_read(&mut r, n + 1).is_err(), "skipping beyond the end succeeds");
		let mut r = SliceReader::new(&d);
		sx::check(advance_read(&mut r, n).is_ok() && r.consumed_len() == n, "skipping many bytes ends elsewhere");
	}
	fn h_advance_read_short() {
		let d = sx::bytes::<N>();
		let d = &d[..sx::pick(N + 1)];
		let n = sx::u64() as usize;
		sx::assume(n <= 5000);
		let mut r = d;
		let ok = advance_read(&mut r, n).is_ok();
		sx::check(ok == (n <= d.len()), "skipping succeeds or fails wrongly");
		if ok {
			sx::check(r.len() == d.len() - n, "skipping ends elsewhere");
		}
	}
}
