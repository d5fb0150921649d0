use crate::sx;
pub use revision::prelude::*;
pub use revision::*;

/// Serialise into a `Vec`; a failure here is a violation.
pub fn ser<T: SerializeRevisioned>(v: &T) -> Vec<u8> {
    let mut out = Vec::new();
    match v.serialize_revisioned(&mut out) {
        Ok(()) => out,
        Err(_) => sx::fail("serialising an in-memory value failed"),
    }
}
pub fn de<T: DeserializeRevisioned>(r: &mut &[u8]) -> Result<T, Error> {
    T::deserialize_revisioned(r)
}
/// decode(encode(v) ++ junk) gives v and leaves exactly the junk
pub fn roundtrip<T: SerializeRevisioned + DeserializeRevisioned>(
    v: &T,
    same: impl Fn(&T, &T) -> bool,
) -> Vec<u8> {
    let out = ser(v);
    let mut full = out.clone();
    full.push(sx::u8());
    full.push(sx::u8());
    let mut r = &full[..];
    match T::deserialize_revisioned(&mut r) {
        Ok(w) => {
            sx::check(
                same(v, &w),
                "decoding the encoding of a value gave a different value",
            );
            sx::check(
                r.len() == 2,
                "decoding did not consume exactly the encoding",
            );
            sx::check(
                r[0] == full[out.len()] && r[1] == full[out.len() + 1],
                "decoding left the wrong bytes",
            );
        }
        Err(_) => sx::fail("the encoding of a value was rejected"),
    }
    sx::observe_bytes(&out);
    out
}
/// no proper prefix of an encoding is accepted
pub fn truncated<T: DeserializeRevisioned>(out: &[u8]) {
    let n = sx::concrete(out.len());
    if n == 0 {
        return;
    }
    let k = sx::pick(n);
    let mut r = &out[..k];
    sx::check(
        T::deserialize_revisioned(&mut r).is_err(),
        "a truncated encoding was accepted",
    );
}
/// Decoding `s` and all ways of skipping it agree.
pub fn agree<T: DeserializeRevisioned + SkipRevisioned + SkipCheckRevisioned>(s: &[u8]) {
    let n = s.len();
    let mut r = s;
    let d = T::deserialize_revisioned(&mut r).is_ok();
    let c = n - r.len();
    if d {
        sx::cover("an input that decodes");
        let mut r = s;
        sx::check(
            T::skip_revisioned(&mut r).is_ok(),
            "reader skip rejects what decodes",
        );
        sx::check(n - r.len() == c, "reader skip consumes a different length");
        match skip_slice::<T>(s) {
            Ok(k) => sx::check(k == c, "slice skip consumes a different length"),
            Err(_) => sx::fail("slice skip rejects what decodes"),
        }
        let mut r = s;
        sx::check(
            T::skip_check_revisioned(&mut r).is_ok(),
            "checking skip rejects what decodes",
        );
        sx::check(
            n - r.len() == c,
            "checking skip consumes a different length",
        );
        match skip_check_slice::<T>(s) {
            Ok(k) => sx::check(k == c, "checking slice skip consumes a different length"),
            Err(_) => sx::fail("checking slice skip rejects what decodes"),
        }
        sx::observe(c as u64 + 1);
    } else {
        let mut r = s;
        sx::check(
            T::skip_check_revisioned(&mut r).is_err(),
            "checking skip accepts what does not decode",
        );
        sx::check(
            skip_check_slice::<T>(s).is_err(),
            "checking slice skip accepts what does not decode",
        );
        sx::observe(0);
    }
}

/// Input length bound: compact integers, fixed-width integers, thorough tier.
pub const fn bound(n: usize, f: usize, deep: usize) -> usize {
    let q = if cfg!(feature = "fixedw") { f } else { n };
    if cfg!(feature = "deep") && deep > q {
        deep
    } else {
        q
    }
}
