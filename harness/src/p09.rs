//! Tag byte and envelopes of the compact layout.
use crate::harnesses;
use crate::sx;
use crate::util::*;
use revision::optimised::envelope::*;
use revision::optimised::tag::{read_tag, write_tag};
use revision::optimised::{SizeClass, Tag, MAX_VARIANTS};
use revision::slice_reader::SliceReader;
use std::io::Read;

fn class() -> (SizeClass, u8) {
	match sx::pick(3) {
		0 => (SizeClass::Inline, 0),
		1 => (SizeClass::Fixed, 1),
		_ => (SizeClass::Varlen, 2),
	}
}
fn variant() -> u8 {
	let v = sx::u8();
	sx::assume((v as usize) < MAX_VARIANTS);
	v
}
fn payload() -> Vec<u8> {
	let b = sx::bytes::<5>();
	b[..sx::pick(6)].to_vec()
}
/// the class documented for a tag byte
fn class_of(b: u8) -> Option<u8> {
	if b & 0x80 != 0 || b >> 5 & 3 == 3 {
		None
	} else {
		Some(b >> 5 & 3)
	}
}
fn num(c: SizeClass) -> u8 {
	match c {
		SizeClass::Inline => 0,
		SizeClass::Fixed => 1,
		SizeClass::Varlen => 2,
	}
}

harnesses! {
	fn h_tag_layout() {
		let v = variant();
		let (c, n) = class();
		let t = Tag::new(v, c);
		sx::check(MAX_VARIANTS == 32, "the number of variants is not the documented one");
		sx::check(t.0 == v | n << 5, "the tag byte is not laid out as documented");
		sx::check(t.variant_id() == v, "the variant number reads back differently");
		sx::check(matches!(t.size_class(), Ok(x) if x == c), "the size class reads back differently");
		sx::check(!t.is_extended(), "a plain tag reads as an extended one");
		let mut out = Vec::new();
		sx::check(write_tag(&mut out, t).is_ok() && out.len() == 1 && out[0] == t.0, "the tag is written differently");
		let mut r = &out[..];
		sx::check(matches!(read_tag(&mut r), Ok(x) if x == t) && r.is_empty(), "the tag reads back differently");
		sx::observe(t.0 as u64);
	}
	fn h_tag_any_byte() {
		let b = sx::u8();
		let d = [b, sx::u8()];
		let mut r = &d[..];
		match (read_optimised_tag(&mut r), class_of(b)) {
			(Ok((t, c)), Some(k)) => {
				sx::check(t.variant_id() == b & 31, "wrong variant number");
				sx::check(num(c) == k, "wrong size class");
				sx::check(Tag::new(t.variant_id(), c).0 == b, "a tag byte does not rebuild from its parts");
				sx::check(r.len() == 1, "reading a tag takes more than one byte");
			}
			(Err(_), None) => {}
			(Ok(_), None) => sx::fail("a tag byte with a reserved bit pattern is accepted"),
			(Err(_), Some(_)) => sx::fail("a valid tag byte is rejected"),
		}
		sx::check(Tag(b).is_extended() == (b & 0x80 != 0), "extended bit misread");
		let mut e: &[u8] = &[];
		sx::check(read_optimised_tag(&mut e).is_err() && read_tag(&mut e).is_err(), "a tag is read from nothing");
		sx::observe(b as u64);
	}
	fn h_inline() {
		let v = variant();
		let mut out = Vec::new();
		sx::check(encode_inline(&mut out, v).is_ok(), "encoding fails");
		sx::check(out.len() == 1 && out[0] == v, "an inline value is not one tag byte");
	}
	fn h_fixed() {
		let v = variant();
		let p = payload();
		let mut out = Vec::new();
		sx::check(encode_fixed(&mut out, v, |w| { w.extend_from_slice(&p); Ok(()) }).is_ok(), "encoding fails");
		sx::check(out.len() == 1 + p.len() && out[0] == (v | 0x20) && out[1..] == p[..], "a fixed value is not the tag and its payload");
		let e = encode_fixed(&mut Vec::new(), v, |_| Err(Error::IntegerOverflow));
		sx::check(matches!(e, Err(Error::IntegerOverflow)), "the payload's error is lost");
	}
	fn h_varlen() {
		let v = variant();
		let p = payload();
		let mut out = Vec::new();
		sx::check(encode_varlen(&mut out, v, |w| { w.extend_from_slice(&p); Ok(()) }).is_ok(), "encoding fails");
		sx::check(out.len() == 5 + p.len() && out[0] == (v | 0x40), "a variable-length value has the wrong length or tag");
		sx::check(out[1..5] == (p.len() as u32).to_le_bytes() && out[5..] == p[..], "a variable-length value is not length and payload");
		out.push(sx::u8());
		let mut s = SliceReader::new(&out);
		sx::check(matches!(read_optimised_tag(&mut s), Ok((t, SizeClass::Varlen)) if t.variant_id() == v), "the tag reads back differently");
		let (mut a, mut b) = (s, s);
		match read_varlen_slice(&mut s) {
			Ok(x) => sx::check(*x == p[..], "the payload slice differs from what was written"),
			Err(_) => sx::fail("the payload is rejected"),
		}
		sx::check(s.remaining().len() == 1, "slicing the payload ends elsewhere");
		sx::check(skip_varlen(&mut a).is_ok() && a.remaining().len() == 1, "skipping the payload ends elsewhere");
		sx::check(skip_varlen_borrowed(&mut b).is_ok() && b.remaining().len() == 1, "skipping the payload ends elsewhere");
		let mut r = &out[1..];
		sx::check(matches!(read_varlen_len(&mut r), Ok(n) if n as usize == p.len()) && r.len() == p.len() + 1, "the length reads back differently");
		let e = encode_varlen(&mut Vec::new(), v, |_| Err(Error::IntegerOverflow));
		sx::check(matches!(e, Err(Error::IntegerOverflow)), "the payload's error is lost");
		sx::observe_bytes(&out);
	}
	fn h_varlen_any() {
		const N: usize = 10;
		let b = sx::bytes::<N>();
		let s = &b[..sx::pick(N + 1)];
		let want = if s.len() < 4 { None } else {
			let n = u32::from_le_bytes([s[0], s[1], s[2], s[3]]) as usize;
			if n <= s.len() - 4 { Some(n) } else { None }
		};
		let mut r = SliceReader::new(s);
		match (read_varlen_slice(&mut r), want) {
			(Ok(p), Some(n)) => sx::check(p.len() == n && *p == s[4..4 + n], "the payload slice is not the announced bytes"),
			(Err(_), None) => {}
			(Ok(_), None) => sx::fail("a truncated or oversized payload is accepted"),
			(Err(_), Some(_)) => sx::fail("a complete payload is rejected"),
		}
		let mut r = SliceReader::new(s);
		sx::check(skip_varlen_borrowed(&mut r).is_ok() == want.is_some(), "the borrowed skip disagrees");
		if let Some(n) = want {
			sx::check(r.consumed_len() == 4 + n, "the borrowed skip ends elsewhere");
		}
		let mut r = s;
		sx::check(skip_varlen(&mut r).is_ok() == want.is_some(), "the skip disagrees");
		if let Some(n) = want {
			sx::check(r.len() == s.len() - 4 - n, "the skip ends elsewhere");
			sx::cover("a complete payload");
		}
		sx::observe(want.map_or(0, |n| n as u64 + 1));
	}
}
