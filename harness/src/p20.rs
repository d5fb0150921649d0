//! Skipping a derived type, over a reader or a slice, plain or checking, consumes what decoding does.
use crate::model::*;
use crate::sx;
use crate::util::*;

/// any input (legacy layout, whose fields are skipped one by one)
fn any_input<M: Model>(max: usize) {
	sx::allow_huge();
	let rev = any_rev::<M>();
	let n = sx::pick(max + 1);
	let mut s = ser(&rev);
	for _ in 0..n {
		s.push(sx::u8());
	}
	agree::<M>(&s);
}
crate::models! { skips_written;
	fn h_any_evo() { any_input::<Evo>(bound(7, 10, 8)) }
	fn h_any_tup() { any_input::<Tup>(bound(7, 6, 8)) }
	fn h_any_many() { any_input::<Many>(4) }
	fn h_any_unit() { any_input::<Unit>(2) }
	fn h_any_add() { any_input::<Add>(bound(7, 15, 8)) }
	fn h_any_nest() { any_input::<Nest>(bound(8, 14, 10)) }
	fn h_any_mk() { any_input::<Mk>(bound(20, 24, 21)) }
	fn h_any_mw() { any_input::<Mw>(bound(14, 14, 16)) }
	fn h_any_en() { any_input::<En>(6) }
	fn h_any_ev() { any_input::<Ev>(bound(8, 10, 10)) }
	fn h_any_ea() { any_input::<Ea>(bound(7, 10, 9)) }
	fn h_any_mke() { any_input::<MkE>(bound(14, 18, 18)) }
	fn h_any_eo() { any_input::<Eo>(bound(8, 8, 10)) }
	fn h_any_eb() { any_input::<Eb>(7) }
}
