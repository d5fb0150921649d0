//! Indexed structs: every field in any order is what decoding gives.
use crate::model::*;
use crate::sx;
use crate::sym::*;
use crate::util::*;
use revision::optimised::IndexedStructWalker;
use std::collections::{BTreeMap, BTreeSet};

/// fields of fixed and of variable length, and nested types in both layouts
#[revisioned(revision(1, optimised, indexed_struct), revision(2, optimised, indexed_struct))]
pub struct Ox {
	pub s: String,
	pub t: Tup,
	#[revision(end = 2, convert_fn = "c_g")]
	pub g: u32,
	pub a: [u8; 3],
	pub v: Vec<u16>,
	#[revision(start = 2)]
	pub e: Ow,
	pub l: u64,
}
impl Default for Ow {
	fn default() -> Self {
		Ow::A
	}
}
impl Ox {
	fn c_g(&mut self, _: u16, v: u32) -> Result<(), Error> {
		self.l ^= v as u64;
		Ok(())
	}
}
impl Model for Ox {
	const LATEST: u16 = 2;
	fn written(r: u16) -> (Vec<u8>, Self) {
		let (bt, t) = Tup::written(<Tup as Model>::LATEST);
		let (s, g, a, v, l) = (text(), u32::sym(), sx::bytes::<3>(), few::<u16>(1), u64::sym());
		if r == 1 {
			let w = W::indexed(1, &[ser(&s), bt, ser(&g), a.to_vec(), ser(&v), ser(&l)]);
			return (w.0, Ox { s, t, a, v, e: Ow::A, l: l ^ g as u64 });
		}
		let (be, e) = Ow::written(<Ow as Model>::LATEST);
		let w = W::indexed(2, &[ser(&s), bt, a.to_vec(), ser(&v), be, ser(&l)]);
		(w.0, Ox { s, t, a, v, e, l })
	}
	fn eq(&self, o: &Self) -> bool {
		self.s.same(&o.s) && self.t.eq(&o.t) && self.a == o.a && self.v.same(&o.v) && self.e.eq(&o.e) && self.l == o.l
	}
}
/// many fields of one byte, so that the table is longer than the fields
#[revisioned(revision(1, optimised, indexed_struct))]
pub struct Ol(pub u8, pub u8, pub bool, pub u8, pub u8, pub u8, pub u8, pub u8, pub u16);
impl Model for Ol {
	const LATEST: u16 = 1;
	fn written(_: u16) -> (Vec<u8>, Self) {
		let (b, c, d) = (sx::bytes::<7>(), bool::sym(), u16::sym());
		let mut f: Vec<Vec<u8>> = b.iter().map(|x| vec![*x]).collect();
		f.insert(2, ser(&c));
		f.push(ser(&d));
		(W::indexed(1, &f).0, Ol(b[0], b[1], c, b[2], b[3], b[4], b[5], b[6], d))
	}
	fn eq(&self, o: &Self) -> bool {
		self.0 == o.0 && self.1 == o.1 && self.2 == o.2 && self.3 == o.3 && self.4 == o.4 && self.5 == o.5 && self.6 == o.6 && self.7 == o.7 && self.8 == o.8
	}
}
macro_rules! sym_eq {
	($($T:ident)*) => {$(
		impl Sym for $T {
			fn sym() -> Self {
				<$T as Model>::written(<$T as Model>::LATEST).1
			}
			fn same(&self, o: &Self) -> bool {
				Model::eq(self, o)
			}
		}
	)*};
}
sym_eq! { Tup Ow }

fn bytes_of<T: SerializeRevisioned>(_: bool, v: &T) -> Vec<u8> {
	ser(v)
}

macro_rules! indexed {
	($(
		fn $fields:ident() $order:ident() $T:ident, rev $($rev:literal)*, walked $($walked:literal)*;
		$(($decode:ident $skip:ident $bytes:ident, $f:tt: $F:ty, $start:literal, $enc:expr $(, $own:ident)?))*
	)* extra { $($extra:tt)* }) => {
		crate::harnesses! {
			$(
			// the offset table leads to the bytes of each field, whichever is asked for
			fn $fields() {
				const REVS: &[u16] = &[$($rev),*];
				let rev = REVS[sx::pick(REVS.len())];
				uniform(true);
				let (s, want) = <$T>::written(rev);
				let payload = &s[ser(&rev).len() + 4..];
				let mut fields: Vec<Vec<u8>> = Vec::new();
				$(if rev >= $start {
					let enc: fn(&$F) -> Vec<u8> = $enc;
					fields.push(enc(&want.$f));
				})*
				let n = fields.len() as u16;
				let checked = sx::pick(2) == 0;
				let w = if checked { IndexedStructWalker::from_payload(payload, rev, n) } else { IndexedStructWalker::from_payload_unvalidated(payload, rev, n) };
				let w = match w {
					Ok(w) => w,
					Err(_) => sx::fail("the payload of an encoding cannot be opened"),
				};
				sx::check(w.revision() == rev && w.field_count() == n, "the reader reports another revision or field count");
				let i = sx::u16();
				if i >= n {
					sx::check(w.field_bytes(i).is_err(), "a field beyond the last has bytes");
					sx::check(w.decode_field::<u8>(i).is_err(), "a field beyond the last decodes");
					sx::cover("a field beyond the last");
					return;
				}
				let i = sx::concrete(i as usize) as u16;
				match w.field_bytes(i) {
					Ok(b) => sx::check(b == &fields[i as usize][..], "the bytes of a field are not its encoding"),
					Err(_) => sx::fail("a field has no bytes"),
				}
				let mut k = 0;
				$(if rev >= $start {
					#[allow(unused_mut, unused_assignments)]
					let mut own = false;
					$(own = stringify!($own) == "own";)?
					if k == i && !own {
						match w.decode_field::<$F>(i) {
							Ok(v) => sx::check(v.same(&want.$f), "a field decodes to another value"),
							Err(_) => sx::fail("a field does not decode"),
						}
					}
					k += 1;
				})*
				let _ = k;
				sx::check(w.skip_field(i).is_ok(), "a field cannot be skipped");
			}
			// the derived walker, field by field in any order
			fn $order() {
				const REVS: &[u16] = &[$($walked),*];
				if REVS.is_empty() {
					return;
				}
				let rev = REVS[sx::pick(REVS.len())];
				uniform(true);
				let (mut s, want) = <$T>::written(rev);
				s.push(sx::u8());
				let mut r = &s[..];
				{
					let mut w = match <$T>::walk_revisioned(&mut r) {
						Ok(w) => w,
						Err(_) => sx::fail("an encoding cannot be walked"),
					};
					sx::check(w.revision() == rev, "the walker reports another revision than was written");
					const STARTS: &[u16] = &[$($start),*];
					for _ in 0..bound(2, 2, 3) {
						let k = sx::pick(STARTS.len());
						let op = sx::pick(3);
						let mut i = 0;
						$(
							if i == k {
								match op {
									0 => match w.$decode() {
										Ok(v) => sx::check(v.same(&want.$f), "a field read out of order is another value"),
										Err(_) => sx::fail("a field cannot be read out of order"),
									},
									1 => sx::check(w.$skip().is_ok(), "a field cannot be skipped"),
									_ => {
										match w.$bytes() {
											Ok(b) => {
												let enc: fn(&$F) -> Vec<u8> = $enc;
												sx::check(rev >= $start && &b[..] == &enc(&want.$f)[..], "the bytes of a field are not its encoding");
											}
											Err(_) => sx::check(rev < $start, "a field has no bytes"),
										}
										return;
									}
								}
							}
							i += 1;
						)*
						let _ = i;
					}
				}
				sx::check(r.len() == 1, "walking ends elsewhere than at the end of the payload");
				sx::cover("fields in some order");
			})*
			$($extra)*
		}
	};
}
indexed! {
	fn h_os() h_os_order() Os, rev 3 4, walked 3 4;
		(decode_a skip_a into_a_bytes, a: u16, 0, ser)
		(decode_d skip_d into_d_bytes, d: u8, 4, ser)
		(decode_b skip_b into_b_bytes, b: Option<u8>, 0, ser)
		(decode_c skip_c into_c_bytes, c: String, 0, ser)
	fn h_ot() h_ot_order() Ot, rev 2, walked 2;
		(decode_field_0 skip_field_0 into_field_0_bytes, 0: u16, 0, ser)
		(decode_field_1 skip_field_1 into_field_1_bytes, 1: Option<u8>, 0, ser)
		(decode_field_2 skip_field_2 into_field_2_bytes, 2: u16, 0, ser)
	fn h_oi() h_oi_order() Oi, rev 3, walked 3;
		(decode_id skip_id into_id_bytes, id: u8, 0, ser)
		(decode_m skip_m into_m_bytes, m: BTreeMap<u8, bool>, 0, imap, own)
		(decode_s skip_s into_s_bytes, s: Vec<Option<u8>>, 0, iseq, own)
		(decode_t skip_t into_t_bytes, t: BTreeSet<u8>, 0, iset, own)
		(decode_z skip_z into_z_bytes, z: u16, 0, ser)
	fn h_ox() h_ox_order() Ox, rev 2, walked 2;
		(decode_s skip_s into_s_bytes, s: String, 0, ser)
		(decode_t skip_t into_t_bytes, t: Tup, 0, ser)
		(decode_a skip_a into_a_bytes, a: [u8; 3], 0, ser)
		(decode_v skip_v into_v_bytes, v: Vec<u16>, 0, ser)
		(decode_e skip_e into_e_bytes, e: Ow, 0, ser)
		(decode_l skip_l into_l_bytes, l: u64, 0, ser)
	fn h_ol() h_ol_order() Ol, rev 1, walked 1;
		(decode_field_0 skip_field_0 into_field_0_bytes, 0: u8, 0, ser)
		(decode_field_1 skip_field_1 into_field_1_bytes, 1: u8, 0, ser)
		(decode_field_2 skip_field_2 into_field_2_bytes, 2: bool, 0, ser)
		(decode_field_3 skip_field_3 into_field_3_bytes, 3: u8, 0, ser)
		(decode_field_4 skip_field_4 into_field_4_bytes, 4: u8, 0, ser)
		(decode_field_5 skip_field_5 into_field_5_bytes, 5: u8, 0, ser)
		(decode_field_6 skip_field_6 into_field_6_bytes, 6: u8, 0, ser)
		(decode_field_7 skip_field_7 into_field_7_bytes, 7: u8, 0, ser)
		(decode_field_8 skip_field_8 into_field_8_bytes, 8: u16, 0, ser)
	extra {
		fn h_os_all() { agree_all::<Os>(&[3, 4]) }
		fn h_oc_all() { agree_all::<Oc>(&[2]) }
		fn h_ot_all() { agree_all::<Ot>(&[2]) }
		fn h_ou_all() { agree_all::<Ou>(&[2]) }
		fn h_oi_all() { agree_all::<Oi>(&[3]) }
		fn h_or_all() { agree_all::<Or>(&[2]) }
		fn h_ox_all() { agree_all::<Ox>(&[1, 2]) }
		fn h_ol_all() { agree_all::<Ol>(&[1]) }
	}
}

/// decoding, skipping and walking give the same value and end
fn agree_all<M: Model>(revs: &[u16]) {
	let rev = revs[sx::pick(revs.len())];
	uniform(true);
	let (bytes, want) = M::written(rev);
	let n = bytes.len();
	let mut s = bytes.clone();
	s.push(sx::u8());
	match sx::pick(5) {
		0 => {
			let mut r = &s[..];
			match M::deserialize_revisioned(&mut r) {
				Ok(v) => sx::check(v.eq(&want) && r.len() == 1, "decoding an indexed struct gives another value or end"),
				Err(_) => sx::fail("an indexed struct is rejected"),
			}
		}
		1 => {
			let mut r = &s[..];
			sx::check(M::skip_revisioned(&mut r).is_ok() && r.len() == 1, "skipping an indexed struct ends elsewhere");
		}
		2 => sx::check(skip_slice::<M>(&s).ok() == Some(n), "slice-skipping an indexed struct ends elsewhere"),
		3 => {
			let mut r = &s[..];
			sx::check(M::walk_revisioned(&mut r).is_ok() && r.len() == 1, "walking an indexed struct ends elsewhere");
		}
		_ => {
			if rev == M::LATEST {
				sx::check(ser(&want) == bytes, "an indexed struct is not written as documented");
			}
			// every cut is refused by all
			let k = sx::pick(n);
			let mut r = &s[..k];
			sx::check(M::deserialize_revisioned(&mut r).is_err(), "a cut encoding decodes");
			sx::check(skip_slice::<M>(&s[..k]).is_err(), "a cut encoding is skipped");
			let mut r = &s[..k];
			sx::check(M::walk_revisioned(&mut r).is_err(), "a cut encoding can be walked");
		}
	}
	sx::observe_bytes(&bytes);
}
