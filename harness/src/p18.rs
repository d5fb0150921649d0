//! A revision number that is zero or newer than the type is refused by every operation.
use crate::model::*;
use crate::sx;
use crate::util::*;

fn all_refuse<M: Model>(s: &[u8]) {
	match sx::pick(6) {
		0 => {
			let mut r = s;
			sx::check(M::deserialize_revisioned(&mut r).is_err(), "decoding accepts an unknown revision");
		}
		1 => {
			let mut r = s;
			sx::check(M::skip_revisioned(&mut r).is_err(), "reader skip accepts an unknown revision");
		}
		2 => sx::check(skip_slice::<M>(s).is_err(), "slice skip accepts an unknown revision"),
		3 => {
			let mut r = s;
			sx::check(M::skip_check_revisioned(&mut r).is_err(), "checking skip accepts an unknown revision");
		}
		4 => sx::check(skip_check_slice::<M>(s).is_err(), "checking slice skip accepts an unknown revision"),
		_ => {
			let mut r = s;
			sx::check(M::walk_revisioned(&mut r).is_err(), "walking accepts an unknown revision");
		}
	}
	sx::cover("an unknown revision");
}
fn unknown<M: Model>() {
	let r = sx::u16();
	sx::assume(r == 0 || r > M::LATEST);
	let w = if cfg!(feature = "fixedw") || sx::pick(2) == 0 { W::rev(r) } else { W::new().raw(&[251]).raw(&r.to_le_bytes()) };
	all_refuse::<M>(&w.raw(&sx::bytes::<12>()).0)
}
crate::models! { unknown; }
