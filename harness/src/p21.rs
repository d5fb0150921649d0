//! Walking a struct field by field gives what decoding gives.
use crate::model::*;
use crate::sx;
use crate::sym::*;
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet};

fn got<T: Sym>(r: Result<T, Error>, want: &T) {
	match r {
		Ok(v) => sx::check(v.same(want), "walking gives another field value than decoding"),
		Err(_) => sx::fail("a field cannot be walked"),
	}
}
/// a sub-walker: where it is offered it must lead to the field's value
macro_rules! descend {
	(leaf, $w:expr, $want:expr, $T:ty) => {
		match $w {
			Ok(w) => got::<$T>(w.decode(), $want),
			Err(_) => return,
		}
	};
	(nowalk, $w:expr, $want:expr, $T:ty) => {
		match $w {
			Ok(w) => got::<$T>(w.decode(), $want),
			Err(_) => return,
		}
	};
	(opt, $w:expr, $want:expr, $T:ty) => {
		match $w {
			Ok(w) => got::<$T>(w.decode(), $want),
			Err(_) => return,
		}
	};
	(seqw, $w:expr, $want:expr, $T:ty) => {
		match $w {
			Ok(mut w) => {
				let mut v: $T = Vec::new();
				while let Some(x) = w.next_item() {
					match x.decode() {
						Ok(x) => v.push(x),
						Err(_) => sx::fail("an item cannot be walked"),
					}
				}
				sx::check(v.same($want), "walking into a list gives other items than decoding");
			}
			Err(_) => return,
		}
	};
	(map, $w:expr, $want:expr, $T:ty) => {
		match $w {
			Ok(w) => {
				sx::check(w.as_bytes() == imap::<$T>($want), "the view of an indexed map is not its encoding");
				sx::check(w.walker().is_ok(), "the view of an indexed map cannot be opened");
			}
			Err(_) => sx::fail("an indexed field cannot be viewed"),
		}
	};
	(seq, $w:expr, $want:expr, $T:ty) => {
		match $w {
			Ok(w) => {
				sx::check(w.as_bytes() == iseq::<$T>($want), "the view of an indexed sequence is not its encoding");
				sx::check(w.walker().is_ok(), "the view of an indexed sequence cannot be opened");
			}
			Err(_) => sx::fail("an indexed field cannot be viewed"),
		}
	};
	(set, $w:expr, $want:expr, $T:ty) => {
		match $w {
			Ok(w) => {
				sx::check(w.as_bytes() == iset::<$T>($want), "the view of an indexed set is not its encoding");
				sx::check(w.walker().is_ok(), "the view of an indexed set cannot be opened");
			}
			Err(_) => sx::fail("an indexed field cannot be viewed"),
		}
	};
	(none, $w:expr, $want:expr, $T:ty) => {
		if $w.is_err() {
			return;
		}
	};
}
/// the bytes of a field: `layout` is the revision whose layout the walker is over
macro_rules! raw {
	(map, $v:expr, $compact:expr) => {
		if $compact {
			imap($v)
		} else {
			ser($v)
		}
	};
	(seq, $v:expr, $compact:expr) => {
		if $compact {
			iseq($v)
		} else {
			ser($v)
		}
	};
	(set, $v:expr, $compact:expr) => {
		if $compact {
			iset($v)
		} else {
			ser($v)
		}
	};
	($k:ident, $v:expr, $compact:expr) => {
		ser($v)
	};
}
/// `wire`: revisions walked in place, one field after the other; `conv`: revisions walked over a
/// converted copy; `compact`: revisions in the compact layout
macro_rules! walks {
	($(
		fn $name:ident() $any:ident($heads:expr, $max:expr) $T:ty, rev $($revs:literal)*, wire $($wire:literal)*, conv $($conv:literal)*, compact $($compact:literal)*;
		$(($decode:ident $skip:ident $walk:ident $into_walk:ident $bytes:ident, $f:tt: $F:ty, $kind:ident, $start:literal $(, $raw:expr)?))*
	)*
	NAMES $($names:ident $N:ident { $($r:literal => $($fname:literal)*;)* })*) => {
		crate::harnesses! {
			// the table of names, at any revision
			$(fn $names() {
				let rev = sx::u16();
				let want: &[&str] = match rev {
					$($r => &[$($fname),*],)*
					_ => &[],
				};
				sx::check($N::walk_revisioned_field_names(rev) == want, "the fields of a revision are others");
			})*
			$(fn $name() {
				const REVS: &[u16] = &[$($revs),*];
				let rev = REVS[sx::pick(REVS.len())];
				uniform(true);
				let (mut s, want) = <$T>::written(rev);
				s.push(sx::u8());
				s.push(sx::u8());
				let wire = [$($wire as u16),*].contains(&rev);
				let conv = [$($conv as u16),*].contains(&rev);
				let layout = if conv { <$T as Model>::LATEST } else { rev };
				let compact = [$($compact as u16),*].contains(&layout);
				let mut r = &s[..];
				let mut w = match <$T>::walk_revisioned(&mut r) {
					Ok(w) => w,
					Err(_) => sx::fail("an encoding cannot be walked"),
				};
				if !conv {
					sx::check(w.revision() == rev, "the walker reports another revision than was written");
				}
				const STARTS: &[u16] = &[$($start),*];
				let count = STARTS.len();
				let k = sx::pick(count + 1);
				let op = sx::pick(3);
				if k == count && op != 0 {
					return;
				}
				let mut i = 0;
				$(
					let want_f: &$F = &want.$f;
					if i == k {
						let absent = layout < $start;
						match op {
							0 => {
								let w2 = w.$walk();
								if w2.is_err() {
									sx::check(!wire || absent || stringify!($kind) == "none" || stringify!($kind) == "seqw" || stringify!($kind) == "nowalk", "a field in place cannot be descended into");
								}
								descend!($kind, w2, want_f, $F);
							}
							1 => {
								let w2 = w.$into_walk();
								if w2.is_err() {
									sx::check(!wire || absent || stringify!($kind) == "none" || stringify!($kind) == "seqw" || stringify!($kind) == "nowalk", "a field in place cannot be descended into");
								}
								descend!($kind, w2, want_f, $F);
								return;
							}
							_ => {
								match w.$bytes() {
									Ok(b) => {
										sx::check(!absent, "a field that is not there has bytes");
										#[allow(unused_mut, unused_assignments)]
										let mut e: Vec<u8> = raw!($kind, want_f, compact);
										$(
											let f: fn(&$F) -> Vec<u8> = $raw;
											e = f(want_f);
										)?
										sx::check(&b[..] == &e[..], "the bytes of a field are not its encoding");
									}
									Err(_) => sx::check(absent, "the bytes of a field cannot be had"),
								}
								return;
							}
						}
					} else if sx::pick(2) == 0 {
						got::<$F>(w.$decode(), want_f);
					} else {
						sx::check(w.$skip().is_ok(), "a field cannot be skipped");
					}
					i += 1;
				)*
				drop(w);
				sx::check(r.len() == 2, "walking all fields ends elsewhere than decoding");
				sx::cover("all fields walked");
			}
			// any input: what decodes, walks to the same values and ends there; nothing panics
			fn $any() {
				sx::allow_huge();
				const REVS: &[u16] = &[$($revs),*];
				let rev = REVS[sx::pick(REVS.len())];
				let heads: &[usize] = $heads;
				let n = sx::pick(heads.get(rev as usize - 1).copied().unwrap_or(0) + $max + 1);
				let mut s = ser(&rev);
				for _ in 0..n {
					s.push(sx::u8());
				}
				#[allow(unused_variables)]
				let compact = [$($compact as u16),*].contains(&rev);
				let skips = sx::pick(2) == 1;
				let mut q = &s[..];
				let v = if compact { Err(Error::Conversion(String::new())) } else { <$T>::deserialize_revisioned(&mut q) };
				let mut r = &s[..];
				let mut w = match <$T>::walk_revisioned(&mut r) {
					Ok(w) => w,
					Err(_) => {
						sx::check(v.is_err() || compact, "an input that decodes cannot be walked");
						return;
					}
				};
				let mut ok = true;
				// in the compact layout, where lengths and offsets are not part of the value, one
				// field is enough
				const FIELDS: &[u16] = &[$($start),*];
				let only = if compact && !FIELDS.is_empty() { sx::pick(FIELDS.len()) } else { FIELDS.len() };
				let mut i = 0;
				$(
					if only != FIELDS.len() && only != i {
					} else if compact && (stringify!($F) == "String" || !matches!(stringify!($kind), "leaf" | "opt") || sx::pick(2) == 1) {
						// decoding what is there is covered elsewhere
						match sx::pick(2) {
							0 => {
								if let Ok(b) = w.$bytes() {
									sx::check(b.len() <= s.len(), "the bytes of a field lie outside the input");
								}
							}
							_ => {
								let _ = w.$walk().is_ok();
							}
						}
						return;
					} else if ok && skips && sx::pick(2) == 1 {
						ok = w.$skip().is_ok();
						sx::check(ok || v.is_err() || compact, "a field of an input that decodes cannot be skipped");
					} else if ok {
						match (w.$decode(), &v) {
							(Ok(x), Ok(v)) => sx::check(compact || x.same(&v.$f), "walking an input gives another field value than decoding"),
							(Err(_), Ok(_)) => {
								sx::check(compact, "a field of an input that decodes cannot be walked");
								ok = false;
							}
							(Ok(_), Err(_)) => {}
							(Err(_), Err(_)) => ok = false,
						}
					}
					i += 1;
				)*
				let _ = i;
				drop(w);
				if ok && v.is_ok() && !compact {
					sx::check(q.len() == r.len(), "walking an input ends elsewhere than decoding");
				}
				sx::check(skips || !ok || v.is_ok() || compact, "an input that does not decode can be walked");
				sx::cover("an input walked");
			})*
		}
	};
}
fn le32(x: &u32) -> Vec<u8> {
	x.to_le_bytes().to_vec()
}
fn le64(x: &i64) -> Vec<u8> {
	x.to_le_bytes().to_vec()
}
fn le128(x: &i128) -> Vec<u8> {
	x.to_le_bytes().to_vec()
}
fn b16(x: &Vec<u16>) -> Vec<u8> {
	bulk16(x)
}
fn bb(x: &Vec<bool>) -> Vec<u8> {
	bulk_bool(x)
}
walks! {
	fn h_evo() h_any_evo(&[], bound(7, 10, 8)) Evo, rev 1 2 3 4, wire 4, conv 1 2 3, compact;
		(decode_a skip_a walk_a into_walk_a into_a_bytes, a: u16, leaf, 0)
		(decode_b skip_b walk_b into_walk_b into_b_bytes, b: Option<u8>, opt, 2)
		(decode_e skip_e walk_e into_walk_e into_e_bytes, e: u16, leaf, 3)
		(decode_f skip_f walk_f into_walk_f into_f_bytes, f: String, leaf, 4)
	fn h_tup() h_any_tup(&[], bound(6, 6, 8)) Tup, rev 1 2 3, wire 3, conv 1 2, compact;
		(decode_field_0 skip_field_0 walk_field_0 into_walk_field_0 into_field_0_bytes, 0: u8, leaf, 0)
		(decode_field_1 skip_field_1 walk_field_1 into_walk_field_1 into_field_1_bytes, 1: u16, leaf, 2)
		(decode_field_2 skip_field_2 walk_field_2 into_walk_field_2 into_field_2_bytes, 2: bool, leaf, 3)
	fn h_unit() h_any_unit(&[], 2) Unit, rev 1 2, wire 1 2, conv, compact;
	fn h_add() h_any_add(&[], bound(7, 15, 8)) Add, rev 1 2 3, wire 1 2 3, conv, compact;
		(decode_x skip_x walk_x into_walk_x into_x_bytes, x: u8, leaf, 0)
		(decode_z skip_z walk_z into_walk_z into_z_bytes, z: String, leaf, 3)
		(decode_y skip_y walk_y into_walk_y into_y_bytes, y: Option<u16>, opt, 2)
		(decode_t skip_t walk_t into_walk_t into_t_bytes, t: u16, leaf, 0)
	fn h_many() h_any_many(&[], 4) Many, rev 1 249 250 251 256 300, wire 300, conv 1 2 249 250 251 256 299, compact;
		(decode_x skip_x walk_x into_walk_x into_x_bytes, x: u8, leaf, 250)
		(decode_z skip_z walk_z into_walk_z into_z_bytes, z: u8, leaf, 300)
	fn h_mk() h_any_mk(&[], bound(20, 24, 21)) Mk, rev 1 2, wire 2, conv 1, compact;
		(decode_a skip_a walk_a into_walk_a into_a_bytes, a: u32, nowalk, 0, le32)
		(decode_b skip_b walk_b into_walk_b into_b_bytes, b: Vec<u16>, seqw, 0, b16)
		(decode_d skip_d walk_d into_walk_d into_d_bytes, d: u32, leaf, 0)
		(decode_e skip_e walk_e into_walk_e into_e_bytes, e: i64, nowalk, 0, le64)
		(decode_f skip_f walk_f into_walk_f into_f_bytes, f: Vec<bool>, seqw, 2, bb)
		(decode_h skip_h walk_h into_walk_h into_h_bytes, h: i128, nowalk, 2, le128)
		(decode_t skip_t walk_t into_walk_t into_t_bytes, t: u8, leaf, 0)
	fn h_mw() h_any_mw(&[], bound(14, 14, 16)) Mw, rev 1 2, wire 1 2, conv, compact;
		(decode_a skip_a walk_a into_walk_a into_a_bytes, a: u32, nowalk, 0, le32)
		(decode_b skip_b walk_b into_walk_b into_b_bytes, b: Vec<u16>, seqw, 0, b16)
		(decode_c skip_c walk_c into_walk_c into_c_bytes, c: i64, nowalk, 2, le64)
		(decode_d skip_d walk_d into_walk_d into_d_bytes, d: Vec<bool>, seqw, 2, bb)
		(decode_t skip_t walk_t into_walk_t into_t_bytes, t: u16, leaf, 0)
	fn h_os() h_any_os(&[0, 4, 16, 20], bound(5, 8, 6)) Os, rev 1 2 3 4, wire 1 2, conv, compact 2 3 4;
		(decode_a skip_a walk_a into_walk_a into_a_bytes, a: u16, leaf, 0)
		(decode_d skip_d walk_d into_walk_d into_d_bytes, d: u8, leaf, 4)
		(decode_b skip_b walk_b into_walk_b into_b_bytes, b: Option<u8>, opt, 0)
		(decode_c skip_c walk_c into_walk_c into_c_bytes, c: String, leaf, 2)
	fn h_oc() h_any_oc(&[4, 20, 4], bound(5, 8, 7)) Oc, rev 1 2 3, wire 3, conv 1 2, compact 1 2 3;
		(decode_a skip_a walk_a into_walk_a into_a_bytes, a: u8, leaf, 0)
		(decode_m skip_m walk_m into_walk_m into_m_bytes, m: u16, leaf, 3)
		(decode_n skip_n walk_n into_walk_n into_n_bytes, n: u8, leaf, 2)
	fn h_ot() h_any_ot(&[0, 16], bound(5, 8, 6)) Ot, rev 1 2, wire, conv 1, compact 2;
		(decode_field_0 skip_field_0 walk_field_0 into_walk_field_0 into_field_0_bytes, 0: u16, leaf, 0)
		(decode_field_1 skip_field_1 walk_field_1 into_walk_field_1 into_field_1_bytes, 1: Option<u8>, opt, 0)
		(decode_field_2 skip_field_2 walk_field_2 into_walk_field_2 into_field_2_bytes, 2: u16, leaf, 2)
	fn h_ou() h_any_ou(&[4, 4], 2) Ou, rev 1 2, wire 1, conv, compact 1 2;
	fn h_oi() h_any_oi(&[0, 4, 24], bound(5, 8, 6)) Oi, rev 1 2 3, wire 1 2, conv, compact 2 3;
		(decode_id skip_id walk_id into_walk_id into_id_bytes, id: u8, leaf, 0)
		(decode_m skip_m walk_m into_walk_m into_m_bytes, m: BTreeMap<u8, bool>, map, 0)
		(decode_s skip_s walk_s into_walk_s into_s_bytes, s: Vec<Option<u8>>, seq, 0)
		(decode_t skip_t walk_t into_walk_t into_t_bytes, t: BTreeSet<u8>, set, 2)
		(decode_z skip_z walk_z into_walk_z into_z_bytes, z: u16, leaf, 0)
	fn h_or() h_any_or(&[4, 20, 4], bound(5, 8, 6)) Or, rev 1 2 3, wire 3, conv 1 2, compact 1 2 3;
		(decode_a skip_a walk_a into_walk_a into_a_bytes, a: u8, leaf, 0)
		(decode_m skip_m walk_m into_walk_m into_m_bytes, m: BTreeMap<u8, bool>, map, 0)
		(decode_z skip_z walk_z into_walk_z into_z_bytes, z: u16, leaf, 3)
	NAMES
		h_names_evo Evo { 1 => "a" "c"; 2 => "a" "b" "c" "d"; 3 => "a" "b" "d" "e"; 4 => "a" "b" "e" "f"; }
		h_names_tup Tup { 1 => "0" "1"; 2 => "0" "2"; 3 => "0" "2" "3"; }
		h_names_unit Unit { 1 => ; 2 => ; }
		h_names_add Add { 1 => "x" "t"; 2 => "x" "y" "t"; 3 => "x" "z" "y" "t"; }
		h_names_mk Mk { 1 => "a" "b" "c" "d" "e" "g" "t"; 2 => "a" "b" "d" "e" "f" "h" "t"; }
		h_names_os Os { 1 => "a" "b"; 2 => "a" "b" "c"; 3 => "a" "b" "c"; 4 => "a" "d" "b" "c"; }
}
