//! Derived decoders are total on arbitrary input, and what they accept is stable.
use crate::model::*;
use crate::sx;
use crate::util::*;

/// up to `fields` bytes after what the layout of each revision puts before the fields
fn total<M: Model>(head: &[usize], fields: usize) {
	sx::allow_huge();
	let rev = any_rev::<M>();
	let n = sx::pick(head.get(rev as usize - 1).copied().unwrap_or(0) + fields + 1);
	let mut s = ser(&rev);
	for _ in 0..n {
		s.push(sx::u8());
	}
	let mut r = &s[..];
	match M::deserialize_revisioned(&mut r) {
		Ok(v) => {
			sx::cover("an input that decodes");
			sx::check(r.len() <= s.len(), "decoding leaves more than it was given");
			let out = ser(&v);
			let mut r = &out[..];
			match M::deserialize_revisioned(&mut r) {
				Ok(w) => {
					sx::check(v.eq(&w), "re-encoding a decoded value gives another value");
					sx::check(r.is_empty(), "decoding a re-encoded value leaves bytes");
				}
				Err(_) => sx::fail("a re-encoded value is rejected"),
			}
			sx::observe(1);
		}
		Err(_) => sx::observe(0),
	}
}
crate::harnesses! {
	fn h_evo() { total::<Evo>(&[], bound(7, 10, 8)) }
	fn h_tup() { total::<Tup>(&[], bound(7, 6, 8)) }
	fn h_many() { total::<Many>(&[], 4) }
	fn h_unit() { total::<Unit>(&[], 2) }
	fn h_add() { total::<Add>(&[], bound(7, 15, 8)) }
	fn h_nest() { total::<Nest>(&[], bound(9, 16, 10)) }
	fn h_mk() { total::<Mk>(&[], bound(20, 24, 21)) }
	fn h_mw() { total::<Mw>(&[], bound(14, 14, 16)) }
	fn h_os() { total::<Os>(&[0, 4, 16, 20], bound(6, 8, 7)) }
	fn h_oc() { total::<Oc>(&[4, 20, 4], bound(7, 8, 8)) }
	fn h_ot() { total::<Ot>(&[0, 16], bound(6, 8, 8)) }
	fn h_ou() { total::<Ou>(&[4, 4], 2) }
	fn h_oi() { total::<Oi>(&[0, 4, 24], bound(12, 12, 14)) }
	fn h_or() { total::<Or>(&[4, 20, 4], bound(12, 12, 14)) }
	fn h_on() { total::<On>(&[0, 4], bound(12, 12, 14)) }
	fn h_en() { total::<En>(&[], 6) }
	fn h_ev() { total::<Ev>(&[], bound(8, 10, 10)) }
	fn h_mke() { total::<MkE>(&[], bound(14, 18, 18)) }
	fn h_eb() { total::<Eb>(&[], 7) }
	fn h_eo() { total::<Eo>(&[], bound(8, 8, 10)) }
	fn h_oe() { total::<Oe>(&[1, 1, 1], bound(10, 14, 12)) }
	fn h_ow() { total::<Ow>(&[0, 1, 1], bound(10, 14, 12)) }
}
