//! Arbitrary values of the types under test, and the equality each must round-trip under.
use crate::sx;
use std::borrow::Cow;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet};
use std::hash::{BuildHasher, Hasher};
use std::num::Wrapping;
use std::ops::{Bound, Range};
use std::path::PathBuf;
use std::sync::Arc;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

pub trait Sym: Sized {
    fn sym() -> Self;
    fn same(&self, o: &Self) -> bool;
}

macro_rules! ints {
	($($t:ty)*) => {$(
		impl Sym for $t {
			fn sym() -> Self { <$t>::from_le_bytes(sx::bytes()) }
			fn same(&self, o: &Self) -> bool { self == o }
		}
	)*};
}
ints!(u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 usize isize);
impl Sym for f32 {
    fn sym() -> Self {
        f32::from_bits(sx::u32())
    }
    fn same(&self, o: &Self) -> bool {
        self.to_bits() == o.to_bits()
    }
}
impl Sym for f64 {
    fn sym() -> Self {
        f64::from_bits(sx::u64())
    }
    fn same(&self, o: &Self) -> bool {
        self.to_bits() == o.to_bits()
    }
}
impl Sym for bool {
    fn sym() -> Self {
        sx::flag()
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
impl Sym for char {
    fn sym() -> Self {
        let v = sx::u32();
        sx::assume(v < 0x11_0000 && !(v >= 0xd800 && v < 0xe000));
        unsafe { char::from_u32_unchecked(v) }
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
/// One arbitrary character, or up to this many ASCII bytes.
pub const MAXS: usize = if cfg!(feature = "deep") { 3 } else { 2 };
impl Sym for String {
    fn sym() -> Self {
        match sx::pick(MAXS + 1) {
            1 => {
                let mut s = String::new();
                s.push(char::sym());
                s
            }
            n => ascii(n),
        }
    }
    fn same(&self, o: &Self) -> bool {
        self.as_bytes() == o.as_bytes()
    }
}
/// A string of `n` bytes, arbitrary ASCII in the first and last, for exercising length prefixes.
pub fn ascii(n: usize) -> String {
    let mut v = vec![b'x'; n];
    if n > 0 {
        v[0] = sx::u8() & 0x7f;
        v[n - 1] = sx::u8() & 0x7f;
        if n == 3 {
            v[1] = sx::u8() & 0x7f;
        }
    }
    unsafe { String::from_utf8_unchecked(v) }
}
impl Sym for Box<str> {
    fn sym() -> Self {
        String::sym().into_boxed_str()
    }
    fn same(&self, o: &Self) -> bool {
        self.as_bytes() == o.as_bytes()
    }
}
impl Sym for Arc<str> {
    fn sym() -> Self {
        Arc::from(String::sym())
    }
    fn same(&self, o: &Self) -> bool {
        self.as_bytes() == o.as_bytes()
    }
}
impl Sym for Cow<'static, str> {
    fn sym() -> Self {
        if sx::flag() {
            Cow::Borrowed("")
        } else {
            Cow::Owned(String::sym())
        }
    }
    fn same(&self, o: &Self) -> bool {
        self.as_bytes() == o.as_bytes()
    }
}
impl Sym for PathBuf {
    fn sym() -> Self {
        PathBuf::from(String::sym())
    }
    fn same(&self, o: &Self) -> bool {
        self.as_os_str().as_encoded_bytes() == o.as_os_str().as_encoded_bytes()
    }
}
impl Sym for Duration {
    fn sym() -> Self {
        let s = sx::u64();
        let n = sx::u32();
        sx::assume(n < 1_000_000_000);
        Duration::new(s, n)
    }
    fn same(&self, o: &Self) -> bool {
        self.as_secs() == o.as_secs() && self.subsec_nanos() == o.subsec_nanos()
    }
}
impl Sym for SystemTime {
    /// at or after the epoch: earlier times are documented as not encodable
    fn sym() -> Self {
        match UNIX_EPOCH.checked_add(Duration::sym()) {
            Some(t) => t,
            None => {
                sx::assume(false);
                UNIX_EPOCH
            }
        }
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
impl Sym for () {
    fn sym() -> Self {}
    fn same(&self, _: &Self) -> bool {
        true
    }
}
macro_rules! tuples {
	($($t:ident $i:tt),*) => {
		impl<$($t: Sym),*> Sym for ($($t,)*) {
			fn sym() -> Self { ($($t::sym(),)*) }
			fn same(&self, o: &Self) -> bool { $(self.$i.same(&o.$i) &)* true }
		}
	};
}
tuples!(A 0);
tuples!(A 0, B 1);
tuples!(A 0, B 1, C 2);
tuples!(A 0, B 1, C 2, D 3);
tuples!(A 0, B 1, C 2, D 3, E 4);
tuples!(A 0, B 1, C 2, D 3, E 4, F 5);
impl<T: Sym, const N: usize> Sym for [T; N] {
    fn sym() -> Self {
        std::array::from_fn(|_| T::sym())
    }
    fn same(&self, o: &Self) -> bool {
        let mut ok = true;
        for i in 0..N {
            ok &= self[i].same(&o[i]);
        }
        ok
    }
}
impl<T: Sym> Sym for Option<T> {
    fn sym() -> Self {
        if sx::flag() {
            Some(T::sym())
        } else {
            None
        }
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Some(a), Some(b)) => a.same(b),
            (None, None) => true,
            _ => false,
        }
    }
}
impl<T: Sym, E: Sym> Sym for Result<T, E> {
    fn sym() -> Self {
        if sx::flag() {
            Ok(T::sym())
        } else {
            Err(E::sym())
        }
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Ok(a), Ok(b)) => a.same(b),
            (Err(a), Err(b)) => a.same(b),
            _ => false,
        }
    }
}
impl<T: Sym> Sym for Bound<T> {
    fn sym() -> Self {
        match sx::pick(3) {
            0 => Bound::Unbounded,
            1 => Bound::Included(T::sym()),
            _ => Bound::Excluded(T::sym()),
        }
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Bound::Included(a), Bound::Included(b)) => a.same(b),
            (Bound::Excluded(a), Bound::Excluded(b)) => a.same(b),
            (Bound::Unbounded, Bound::Unbounded) => true,
            _ => false,
        }
    }
}
impl<T: Sym> Sym for Range<T> {
    fn sym() -> Self {
        T::sym()..T::sym()
    }
    fn same(&self, o: &Self) -> bool {
        self.start.same(&o.start) & self.end.same(&o.end)
    }
}
macro_rules! wrap {
	($w:ident, $($f:tt)*) => {
		impl<T: Sym> Sym for $w<T> {
			fn sym() -> Self { $($f)*(T::sym()) }
			fn same(&self, o: &Self) -> bool { self.0.same(&o.0) }
		}
	};
}
wrap!(Wrapping, Wrapping);
wrap!(Reverse, Reverse);
impl<T: Sym> Sym for Box<T> {
    fn sym() -> Self {
        Box::new(T::sym())
    }
    fn same(&self, o: &Self) -> bool {
        (**self).same(o)
    }
}
impl<T: Sym> Sym for Arc<T> {
    fn sym() -> Self {
        Arc::new(T::sym())
    }
    fn same(&self, o: &Self) -> bool {
        (**self).same(o)
    }
}
/// `Cow<'static, T>` of a sized type
impl<T: Sym + Clone + 'static> Sym for Cow<'static, T> {
    fn sym() -> Self {
        let v = T::sym();
        if sx::flag() {
            Cow::Borrowed(Box::leak(Box::new(v)))
        } else {
            Cow::Owned(v)
        }
    }
    fn same(&self, o: &Self) -> bool {
        (**self).same(o)
    }
}

/// elements per collection
pub const MAXN: usize = if cfg!(feature = "deep") { 3 } else { 2 };
impl<T: Sym> Sym for Vec<T> {
    fn sym() -> Self {
        let n = sx::pick(MAXN + 1);
        let mut v = Vec::new();
        for _ in 0..n {
            v.push(T::sym());
        }
        v
    }
    fn same(&self, o: &Self) -> bool {
        if self.len() != o.len() {
            return false;
        }
        let mut ok = true;
        for i in 0..self.len() {
            ok &= self[i].same(&o[i]);
        }
        ok
    }
}
impl<K: Sym + Ord, V: Sym> Sym for BTreeMap<K, V> {
    fn sym() -> Self {
        let n = sx::pick(MAXN + 1);
        let mut m = BTreeMap::new();
        for _ in 0..n {
            m.insert(K::sym(), V::sym());
        }
        m
    }
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len()
            && self
                .iter()
                .zip(o.iter())
                .all(|((a, b), (c, d))| a.same(c) & b.same(d))
    }
}
impl<K: Sym + Ord> Sym for BTreeSet<K> {
    fn sym() -> Self {
        let n = sx::pick(MAXN + 1);
        let mut m = BTreeSet::new();
        for _ in 0..n {
            m.insert(K::sym());
        }
        m
    }
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().zip(o.iter()).all(|(a, c)| a.same(c))
    }
}
/// constant hash: the table degenerates to a probe sequence, so the structure does not depend on symbolic keys
#[derive(Default, Clone, Copy)]
pub struct H0;
impl Hasher for H0 {
    fn finish(&self) -> u64 {
        0x5a5a_5a5a_5a5a_5a5a
    }
    fn write(&mut self, _: &[u8]) {}
}
impl BuildHasher for H0 {
    type Hasher = H0;
    fn build_hasher(&self) -> H0 {
        H0
    }
}
pub type HMap<K, V> = HashMap<K, V, H0>;
pub type HSet<K> = HashSet<K, H0>;
impl<K: Sym + Eq + std::hash::Hash, V: Sym> Sym for HMap<K, V> {
    fn sym() -> Self {
        let n = sx::pick(MAXN + 1);
        let mut m = HMap::default();
        for _ in 0..n {
            m.insert(K::sym(), V::sym());
        }
        m
    }
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len()
            && self.iter().all(|(k, v)| match o.get(k) {
                Some(w) => v.same(w),
                None => false,
            })
    }
}
impl<K: Sym + Eq + std::hash::Hash> Sym for HSet<K> {
    fn sym() -> Self {
        let n = sx::pick(MAXN + 1);
        let mut m = HSet::default();
        for _ in 0..n {
            m.insert(K::sym());
        }
        m
    }
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().all(|k| o.contains(k))
    }
}
impl<T: Sym + Ord + Clone> Sym for BinaryHeap<T> {
    fn sym() -> Self {
        let n = sx::pick(MAXN + 1);
        let mut m = BinaryHeap::new();
        for _ in 0..n {
            m.push(T::sym());
        }
        m
    }
    /// same multiset
    fn same(&self, o: &Self) -> bool {
        let (a, b) = (self.clone().into_sorted_vec(), o.clone().into_sorted_vec());
        a.same(&b)
    }
}
