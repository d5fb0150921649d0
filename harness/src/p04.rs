//! Decoders and skippers of built-in types are total on every byte string up to the bound.
use crate::sx;
use crate::util::*;

fn go<T: DeserializeRevisioned + SkipRevisioned + SkipCheckRevisioned, const N: usize>() {
	// a length prefix asking for more memory than any host has ends the path
	sx::allow_huge();
	let b = sx::bytes::<N>();
	let n = sx::pick(N + 1);
	let s = &b[..n];
	let which = sx::pick(5);
	if std::mem::size_of::<T>() > 0 {
		sx::expect("a rejected input");
	}
	let r = match which {
		0 => {
			let mut r = s;
			T::deserialize_revisioned(&mut r).map(|_| n - r.len())
		}
		1 => {
			let mut r = s;
			T::skip_revisioned(&mut r).map(|_| n - r.len())
		}
		2 => skip_slice::<T>(s),
		3 => {
			let mut r = s;
			skip_check_reader::<T, _>(&mut r).map(|_| n - r.len())
		}
		_ => skip_check_slice::<T>(s),
	};
	match r {
		Ok(c) => {
			sx::check(c <= n, "more bytes consumed than supplied");
			sx::observe(c as u64 + 1);
		}
		Err(_) => {
			sx::cover("a rejected input");
			sx::observe(0);
		}
	}
}
crate::builtin_types!(go);
