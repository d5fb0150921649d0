//! Skipping agrees with decoding on every byte string up to the bound.
use crate::sx;
use crate::util::*;

fn go<T: DeserializeRevisioned + SkipRevisioned + SkipCheckRevisioned, const N: usize>() {
	sx::allow_huge();
	sx::expect("an input that decodes");
	let b = sx::bytes::<N>();
	let n = sx::pick(N + 1);
	agree::<T>(&b[..n]);
}
crate::builtin_types!(go);
