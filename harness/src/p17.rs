//! Old encodings of an evolving enum decode to the documented value; encoding uses the current layout.
use crate::model::*;
use crate::sx;
use crate::util::*;

/// A number that no variant has at the revision is refused by decoding and the checking skip,
/// whatever follows.
fn refused<M: Model>(s: &[u8]) {
	let mut r = s;
	sx::check(M::deserialize_revisioned(&mut r).is_err(), "an unknown variant number decodes");
	let mut r = s;
	sx::check(M::skip_check_revisioned(&mut r).is_err(), "the checking skip accepts an unknown variant number");
	sx::check(skip_check_slice::<M>(s).is_err(), "the checking slice skip accepts an unknown variant number");
}
fn unknown_disc<M: Model>(known: impl Fn(u16, u32) -> bool) {
	let rev = any_rev::<M>();
	let d = sx::u32();
	sx::assume(!known(rev, d));
	let s = W::rev(rev).put(&d).raw(&sx::bytes::<8>()).0;
	refused::<M>(&s);
	sx::cover("an unknown variant number");
}
fn unknown_tag<M: Model>(first: u16, known: impl Fn(u16, u8) -> bool) {
	let rev = any_rev::<M>();
	sx::assume(rev >= first);
	let t = sx::u8();
	sx::assume(!known(rev, t & 31));
	let s = W::rev(rev).raw(&[t]).raw(&[4, 0, 0, 0]).raw(&sx::bytes::<8>()).0;
	let mut r = &s[..];
	sx::check(M::deserialize_revisioned(&mut r).is_err(), "an unknown tag decodes");
	let mut r = &s[..];
	sx::check(M::skip_check_revisioned(&mut r).is_err(), "the checking skip accepts an unknown tag");
	sx::cover("an unknown tag");
}
crate::enums! { evolves;
	fn h_unknown_en() { unknown_disc::<En>(|r, d| d < 1 + r as u32) }
	fn h_unknown_ev() { unknown_disc::<Ev>(|r, d| EV[r as usize - 1].contains(&Some(d))) }
	fn h_unknown_mke() { unknown_disc::<MkE>(|r, d| d < 5 - r as u32) }
	fn h_unknown_eb() { unknown_disc::<Eb>(|_, d| EB.contains(&d)) }
	fn h_unknown_oe() { unknown_tag::<Oe>(1, |r, d| OE[r as usize - 1].contains(&Some(d))) }
	fn h_unknown_eo() { unknown_disc::<Eo>(|r, d| EO[r as usize - 1].contains(&Some(d))) }
	fn h_unknown_ol() { unknown_tag::<Ol>(1, |r, d| OL[r as usize - 1].contains(&Some(d))) }
	fn h_unknown_ow() { unknown_tag::<Ow>(2, |r, d| OW[r as usize - 1].contains(&Some(d))) }
	fn h_unknown_ow1() {
		let d = sx::u32();
		sx::assume(d > 3);
		refused::<Ow>(&W::rev(1).put(&d).raw(&sx::bytes::<8>()).0)
	}
}
