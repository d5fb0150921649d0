//! Arbitrary values of the supported third-party types, and the equality each must round-trip under.
use crate::sx;
use crate::sym::*;
use bytes::Bytes;
use chrono::{DateTime, NaiveDate, NaiveTime, TimeDelta, Timelike, Utc};
use geo::{Coord, LineString, MultiLineString, MultiPoint, MultiPolygon, Point, Polygon};
use imbl::{OrdMap, OrdSet, Vector};
use ordered_float::NotNan;
use rust_decimal::Decimal;
use uuid::Uuid;

pub fn need<T>(o: Option<T>) -> T {
	match o {
		Some(x) => x,
		None => {
			sx::assume(false);
			unreachable!()
		}
	}
}
impl Sym for NaiveDate {
	fn sym() -> Self {
		need(NaiveDate::from_yo_opt(sx::u32() as i32, sx::u32()))
	}
	fn same(&self, o: &Self) -> bool {
		self == o
	}
}
impl Sym for NaiveTime {
	/// `with_nanosecond` may put a leap second anywhere
	fn sym() -> Self {
		let t = need(NaiveTime::from_num_seconds_from_midnight_opt(sx::u32(), 0));
		need(t.with_nanosecond(sx::u32()))
	}
	fn same(&self, o: &Self) -> bool {
		(self.num_seconds_from_midnight() == o.num_seconds_from_midnight()) & (self.nanosecond() == o.nanosecond())
	}
}
impl Sym for DateTime<Utc> {
	fn sym() -> Self {
		let d = NaiveDate::sym();
		d.and_time(NaiveTime::sym()).and_utc()
	}
	fn same(&self, o: &Self) -> bool {
		self.naive_utc().date().same(&o.naive_utc().date()) & self.naive_utc().time().same(&o.naive_utc().time())
	}
}
impl Sym for TimeDelta {
	fn sym() -> Self {
		need(TimeDelta::new(sx::u64() as i64, sx::u32()))
	}
	fn same(&self, o: &Self) -> bool {
		self == o
	}
}
impl Sym for Decimal {
	fn sym() -> Self {
		let neg = sx::flag();
		let scale = sx::u32();
		sx::assume(scale <= Decimal::MAX_SCALE);
		let mut d = Decimal::from_parts(sx::u32(), sx::u32(), sx::u32(), false, scale);
		d.set_sign_negative(neg);
		d
	}
	/// the same digits, sign and scale, not just the same number
	fn same(&self, o: &Self) -> bool {
		(self.mantissa() == o.mantissa()) & (self.scale() == o.scale()) & (self.is_sign_negative() == o.is_sign_negative())
	}
}
impl Sym for Uuid {
	fn sym() -> Self {
		Uuid::from_bytes(sx::bytes())
	}
	fn same(&self, o: &Self) -> bool {
		self.as_bytes() == o.as_bytes()
	}
}
impl Sym for NotNan<f32> {
	fn sym() -> Self {
		need(NotNan::new(f32::sym()).ok())
	}
	fn same(&self, o: &Self) -> bool {
		self.into_inner().same(&o.into_inner())
	}
}
impl Sym for NotNan<f64> {
	fn sym() -> Self {
		need(NotNan::new(f64::sym()).ok())
	}
	fn same(&self, o: &Self) -> bool {
		self.into_inner().same(&o.into_inner())
	}
}
impl Sym for Bytes {
	fn sym() -> Self {
		Bytes::from(Vec::<u8>::sym())
	}
	fn same(&self, o: &Self) -> bool {
		self[..] == o[..]
	}
}
impl Sym for Coord {
	fn sym() -> Self {
		Coord { x: f64::sym(), y: f64::sym() }
	}
	fn same(&self, o: &Self) -> bool {
		self.x.same(&o.x) & self.y.same(&o.y)
	}
}
macro_rules! geos {
	($($t:ident)*) => {$(
		impl Sym for $t {
			fn sym() -> Self { $t(Sym::sym()) }
			fn same(&self, o: &Self) -> bool { self.0.same(&o.0) }
		}
	)*};
}
geos!(Point LineString MultiPoint MultiLineString MultiPolygon);
impl Sym for Polygon {
	fn sym() -> Self {
		Polygon::new(Sym::sym(), Sym::sym())
	}
	fn same(&self, o: &Self) -> bool {
		let (a, b) = (self.interiors(), o.interiors());
		if a.len() != b.len() {
			return false;
		}
		let mut ok = self.exterior().same(o.exterior());
		for i in 0..a.len() {
			ok &= a[i].same(&b[i]);
		}
		ok
	}
}
impl<T: Sym + Clone> Sym for Vector<T> {
	fn sym() -> Self {
		let n = sx::pick(MAXN + 1);
		let mut v = Vector::new();
		for _ in 0..n {
			v.push_back(T::sym());
		}
		v
	}
	fn same(&self, o: &Self) -> bool {
		if self.len() != o.len() {
			return false;
		}
		let mut ok = true;
		for i in 0..self.len() {
			ok &= self[i].same(&o[i]);
		}
		ok
	}
}
impl<K: Sym + Ord + Clone, V: Sym + Clone> Sym for OrdMap<K, V> {
	fn sym() -> Self {
		let n = sx::pick(MAXN + 1);
		let mut m = OrdMap::new();
		for _ in 0..n {
			m.insert(K::sym(), V::sym());
		}
		m
	}
	fn same(&self, o: &Self) -> bool {
		self.len() == o.len() && self.iter().zip(o.iter()).all(|((a, b), (c, d))| a.same(c) & b.same(d))
	}
}
impl<K: Sym + Ord + Clone> Sym for OrdSet<K> {
	fn sym() -> Self {
		let n = sx::pick(MAXN + 1);
		let mut m = OrdSet::new();
		for _ in 0..n {
			m.insert(K::sym());
		}
		m
	}
	fn same(&self, o: &Self) -> bool {
		self.len() == o.len() && self.iter().zip(o.iter()).all(|(a, c)| a.same(c))
	}
}
