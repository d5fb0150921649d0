//! Walking an enum gives the variant and the payload that decoding gives.
use crate::model::*;
use crate::sx;
use crate::sym::*;
use crate::util::*;

/// what the walker is over
struct At<'a> {
	/// a converted copy at the current revision
	conv: bool,
	/// the compact layout (of the current revision, if converted)
	compact: bool,
	/// what the walker reads, from the header on
	bytes: &'a [u8],
	/// the bytes before the payload
	head: usize,
}
impl At<'_> {
	fn payload(&self) -> &[u8] {
		&self.bytes[self.head..]
	}
	fn in_place(&self) -> bool {
		!self.conv && !self.compact
	}
}
fn head(bytes: &[u8], compact: bool) -> usize {
	let mut r = bytes;
	let _ = u16::deserialize_revisioned(&mut r);
	if compact {
		// the tag, and the length of a variable payload
		let varlen = (r[0] >> 5) & 3 == 2;
		bytes.len() - r.len() + 1 + if varlen { 4 } else { 0 }
	} else {
		let _ = u32::deserialize_revisioned(&mut r);
		bytes.len() - r.len()
	}
}

macro_rules! use_variant {
	(unit, $w:expr, $r:expr, $hit:expr, $at:expr, $want:expr, $pat:pat => $val:expr, $($T:ty)?, ($into:ident $decode:ident)) => {{
		let got = if sx::pick(2) == 0 { $w.$into() } else { $w.$decode() };
		sx::check(got.is_ok() == $hit, "a unit variant is taken for another");
		if $hit {
			sx::check($r.len() == 2, "walking ends elsewhere than decoding");
		}
	}};
	(one, $w:expr, $r:expr, $hit:expr, $at:expr, $want:expr, $pat:pat => $val:expr, $T:ty, ($into:ident $decode:ident $view:ident $kind:ident)) => {{
		let value: Option<&$T> = match $want {
			$pat => Some($val),
			_ => None,
		};
		match sx::pick(3) {
			0 => match $w.$decode() {
				Ok(v) => match value {
					Some(x) => {
						sx::check(v.same(x), "walking gives another payload than decoding");
						sx::check($r.len() == 2, "walking ends elsewhere than decoding");
					}
					None => sx::fail("the payload of another variant is decoded"),
				},
				Err(_) => sx::check(!$hit, "a payload cannot be decoded by walking"),
			},
			1 => match $w.$view() {
				Ok(v) => match value {
					Some(x) => {
						let view = v.as_bytes();
						let mut s = view;
						match <$T>::deserialize_revisioned(&mut s) {
							Ok(y) => sx::check(y.same(x) && s.is_empty(), "the bytes of a payload are another value"),
							Err(_) => sx::fail("the bytes of a payload cannot be decoded"),
						}
						if !stringify!($kind).starts_with("own") {
							sx::check(view == &ser(x)[..], "the bytes of a payload are not its encoding");
						}
						sx::check($r.len() == 2, "walking ends elsewhere than decoding");
					}
					None => sx::fail("the payload of another variant is viewed"),
				},
				Err(_) => sx::check(!$hit, "a payload cannot be viewed"),
			},
			_ => {
				let w = $w.$into();
				if w.is_err() {
					// in place, and in the encoding of the payload's type
					sx::check(!$hit || !$at.in_place() || $at.payload().is_empty() || stringify!($kind).starts_with("own"), "a payload in place cannot be descended into");
				}
				into!($kind, w, value, $r, $T);
			}
		}
	}};
	(many, $w:expr, $r:expr, $hit:expr, $at:expr, $want:expr, $pat:pat => $val:expr, $($T:ty)?, ($view:ident)) => {{
		match $w.$view() {
			Ok(v) => {
				sx::check($hit, "the payload of another variant is viewed");
				sx::check(v.as_bytes() == $at.payload(), "the bytes of a payload are not what was written");
				sx::check($r.len() == 2, "walking ends elsewhere than decoding");
			}
			Err(_) => sx::check(!$hit || $at.in_place(), "a payload cannot be viewed"),
		}
	}};
}
macro_rules! into {
	(leaf, $w:expr, $value:expr, $r:expr, $T:ty) => {
		if let Ok(w) = $w {
			match (w.decode(), $value) {
				(Ok(v), Some(x)) => {
					sx::check(v.same(x), "walking into a payload gives another value than decoding");
					sx::check($r.len() == 2, "walking ends elsewhere than decoding");
				}
				_ => sx::fail("another variant is descended into"),
			}
		}
	};
	(own, $w:expr, $value:expr, $r:expr, $T:ty) => {
		into!(leaf, $w, $value, $r, $T)
	};
	(opt, $w:expr, $value:expr, $r:expr, $T:ty) => {
		into!(leaf, $w, $value, $r, $T)
	};
	(nested, $w:expr, $value:expr, $r:expr, $T:ty) => {
		if let Ok(mut w) = $w {
			match (w.decode_field_0(), $value) {
				(Ok(v), Some(x)) => sx::check(v == x.0, "walking into a payload gives another value than decoding"),
				_ => sx::fail("another variant is descended into"),
			}
		}
	};
	(ownseq, $w:expr, $value:expr, $r:expr, $T:ty) => {
		if let Ok(mut w) = $w {
			match $value {
				Some(x) => {
					let mut v: $T = Vec::new();
					while let Some(i) = w.next_item() {
						match i.decode() {
							Ok(i) => v.push(i),
							Err(_) => sx::fail("an item cannot be walked"),
						}
					}
					sx::check(v.same(x), "walking into a payload gives another value than decoding");
				}
				_ => sx::fail("another variant is descended into"),
			}
		}
	};
}
impl Sym for Tup {
	fn sym() -> Self {
		unreachable!()
	}
	fn same(&self, o: &Self) -> bool {
		self.eq(o)
	}
}
macro_rules! any_variant {
	(unit, $w:expr, ($into:ident $decode:ident)) => {
		$w.$decode().is_ok()
	};
	(one, $w:expr, ($into:ident $decode:ident $view:ident $kind:ident)) => {
		if sx::pick(2) == 0 {
			$w.$decode().is_ok()
		} else {
			$w.$view().is_ok()
		}
	};
	(many, $w:expr, ($view:ident)) => {
		$w.$view().is_ok()
	};
}
macro_rules! walks {
	($(
		fn $name:ident() $any:ident($heads:expr, $max:expr) $T:ident, conv $($conv:literal)*, compact $($compact:literal)*, numbers $number:expr;
		$(($vname:literal $pat:pat => $val:expr $(, $F:ty)?; $is:ident $shape:ident $ops:tt))*
	)*
	NAMES $($names:ident $N:ident { $($r:literal => $($vn:literal $vd:literal)*;)* })*) => {
		crate::harnesses! {
			// the tables of names: any revision, any number
			$(fn $names() {
				let (rev, d) = (sx::u16(), sx::u32());
				let table: &[(&str, u32)] = match rev {
					$($r => &[$(($vn, $vd)),*],)*
					_ => &[],
				};
				let mut want = None;
				for (n, x) in table {
					if *x == d {
						want = Some(*n);
					}
				}
				sx::check($N::walk_revisioned_variant_name(rev, d) == want, "a number at a revision is given another variant's name");
				let got = $N::walk_revisioned_variant_table(rev);
				sx::check(got.len() == table.len() && table.iter().all(|e| got.contains(e)), "the variant table of a revision is another");
			})*
			$(fn $name() {
				let rev = any_rev::<$T>();
				uniform(true);
				let (mut s, want) = <$T>::written(rev);
				let conv = [$($conv as u16),*].contains(&rev);
				let layout = if conv { <$T as Model>::LATEST } else { rev };
				let compact = [$($compact as u16),*].contains(&layout);
				let copy = if conv { ser(&want) } else { s.clone() };
				let at = At { conv, compact, bytes: &copy, head: head(&copy, compact) };
				s.push(sx::u8());
				s.push(sx::u8());
				let mut r = &s[..];
				const NAMES: &[&str] = &[$($vname),*];
				let number: fn(u16, usize) -> Option<u32> = $number;
				let mut which = usize::MAX;
				let mut i = 0;
				$(
					#[allow(unused_variables)]
					if let $pat = &want {
						which = i;
					}
					i += 1;
				)*
				let _ = i;
				let k = sx::pick(NAMES.len() + 1);
				{
					let w = match <$T>::walk_revisioned(&mut r) {
						Ok(w) => w,
						Err(_) => sx::fail("an encoding cannot be walked"),
					};
					sx::check(w.revision() == layout, "the walker reports another revision than it is over");
					sx::check(Some(w.discriminant()) == number(layout, which), "the walker reports another variant number");
					sx::check(<$T>::walk_revisioned_variant_name(layout, w.discriminant()) == Some(NAMES[which]), "the variant table names another variant");
					let mut i = 0;
					$(
						sx::check(w.$is() == (i == which), "the walker reports another variant than decoding");
						if i == k {
							#[allow(unused_variables)]
							let hit = k == which;
							use_variant!($shape, w, r, hit, at, &want, $pat => $val, $($F)?, $ops);
							return;
						}
						i += 1;
					)*
					let _ = i;
				}
				sx::cover("every variant asked about");
			}
			// any input: what decodes, walks to the same variant; nothing panics
			fn $any() {
				sx::allow_huge();
				let rev = any_rev::<$T>();
				let heads: &[usize] = $heads;
				let n = sx::pick(heads.get(rev as usize - 1).copied().unwrap_or(0) + $max + 1);
				let mut s = ser(&rev);
				for _ in 0..n {
					s.push(sx::u8());
				}
				let conv = [$($conv as u16),*].contains(&rev);
				let compact = [$($compact as u16),*].contains(&rev);
				let mut q = &s[..];
				let v = <$T>::deserialize_revisioned(&mut q);
				let mut r = &s[..];
				{
					let w = match <$T>::walk_revisioned(&mut r) {
						Ok(w) => w,
						Err(_) => {
							// a compact payload has to be all there before it is looked at
							sx::check(v.is_err() || compact, "an input that decodes cannot be walked");
							return;
						}
					};
					let mut some = 0;
					$(
						let is = w.$is();
						some += is as u32;
						if let Ok(v) = &v {
							#[allow(unused_variables)]
							let same = if let $pat = v { true } else { false };
							sx::check(is == same, "the walker reports another variant than decoding");
						}
					)*
					sx::check(some <= 1, "the walker reports two variants");
					let name = <$T>::walk_revisioned_variant_name(w.revision(), w.discriminant());
					sx::check(some == 0 || name.is_some(), "a known variant has no name");
					sx::check(v.is_err() || some == 1, "an input that decodes has no variant");
					$(
						if w.$is() {
							let ok = any_variant!($shape, w, $ops);
							let many = stringify!($shape) == "many";
							sx::check(ok || v.is_err() || compact || many, "the payload of an input that decodes cannot be walked");
							sx::check(!ok || v.is_ok() || compact || many || conv, "an input that does not decode can be walked");
							if ok && v.is_ok() && !compact {
								sx::check(q.len() == r.len(), "walking an input ends elsewhere than decoding");
							}
							sx::cover("a payload walked");
							return;
						}
					)*
				}
			})*
		}
	};
}
walks! {
	fn h_en() h_any_en(&[], 6) En, conv, compact, numbers |r, k| match (r, k) { (1, 1) => None, (1, 2) => Some(1), _ => Some(k as u32) };
		("A" En::A(x) => x, u8; is_a one (into_a decode_a a_view leaf))
		("B" En::B => &(); is_b unit (into_b decode_b))
		("C" En::C(x) => x, bool; is_c one (into_c decode_c c_view leaf))
	fn h_ea() h_any_ea(&[], bound(7, 10, 9)) Ea, conv, compact, numbers |r, k| EA[r as usize - 1][k];
		("A" Ea::A(x) => x, u16; is_a one (into_a decode_a a_view leaf))
		("N" Ea::N(x) => x, u8; is_n one (into_n decode_n n_view leaf))
		("B" Ea::B(x) => x, u8; is_b one (into_b decode_b b_view leaf))
		("C" Ea::C => &(); is_c unit (into_c decode_c))
		("D" Ea::D(_, _) => &(); is_d many (d_view))
		("M" Ea::M(x) => x, u32; is_m one (into_m decode_m m_view own))
		("S" Ea::S(x) => x, Vec<u16>; is_s one (into_s decode_s s_view ownseq))
		("X" Ea::X { .. } => &(); is_x many (x_view))
	fn h_ev() h_any_ev(&[], bound(8, 10, 10)) Ev, conv 1 2 3, compact, numbers |r, k| EV[r as usize - 1][[0, 2, 3, 4, 5, 6, 7][k]];
		("A" Ev::A => &(); is_a unit (into_a decode_a))
		("B" Ev::B(x) => x, u16; is_b one (into_b decode_b b_view leaf))
		("C" Ev::C { .. } => &(); is_c many (c_view))
		("D" Ev::D(x) => x, Option<u8>; is_d one (into_d decode_d d_view leaf))
		("E" Ev::E(_, _) => &(); is_e many (e_view))
		("F" Ev::F => &(); is_f unit (into_f decode_f))
		("G" Ev::G(x) => x, u16; is_g one (into_g decode_g g_view leaf))
	fn h_mke() h_any_mke(&[], bound(14, 18, 18)) MkE, conv 1, compact, numbers |_, k| Some(k as u32);
		("A" MkE::A(x) => x, u32; is_a one (into_a decode_a a_view own))
		("B" MkE::B { .. } => &(); is_b many (b_view))
		("C" MkE::C(x) => x, u32; is_c one (into_c decode_c c_view leaf))
	fn h_eb() h_any_eb(&[], 7) Eb, conv, compact, numbers |_, k| Some(EB[k]);
		("A" Eb::A(x) => x, u8; is_a one (into_a decode_a a_view leaf))
		("B" Eb::B(x) => x, u8; is_b one (into_b decode_b b_view leaf))
		("C" Eb::C(x) => x, u8; is_c one (into_c decode_c c_view leaf))
		("D" Eb::D(x) => x, u8; is_d one (into_d decode_d d_view leaf))
	fn h_oe() h_any_oe(&[1, 1, 1], bound(8, 9, 9)) Oe, conv 1 2, compact 1 2 3, numbers |_, k| [Some(0), Some(1), Some(2), Some(3), Some(4), Some(31)][k];
		("A" Oe::A => &(); is_a unit (into_a decode_a))
		("B" Oe::B(x) => x, String; is_b one (into_b decode_b b_view leaf))
		("C" Oe::C(x) => x, [u8; 3]; is_c one (into_c decode_c c_view leaf))
		("D" Oe::D => &(); is_d unit (into_d decode_d))
		("E" Oe::E { .. } => &(); is_e many (e_view))
		("Z" Oe::Z(x) => x, Option<u16>; is_z one (into_z decode_z z_view leaf))
	fn h_ow() h_any_ow(&[0, 1, 1], bound(8, 9, 9)) Ow, conv, compact 2 3, numbers |r, k| OW[r as usize - 1][k].map(|d| d as u32);
		("New" Ow::New(x) => x, Option<u8>; is_new one (into_new decode_new new_view leaf))
		("A" Ow::A => &(); is_a unit (into_a decode_a))
		("B" Ow::B(x) => x, u16; is_b one (into_b decode_b b_view leaf))
		("C" Ow::C(x) => x, [u8; 2]; is_c one (into_c decode_c c_view leaf))
		("D" Ow::D { .. } => &(); is_d many (d_view))
		("E" Ow::E(x) => x, bool; is_e one (into_e decode_e e_view leaf))
		("F" Ow::F(x) => x, Tup; is_f one (into_f decode_f f_view nested))
	fn h_eo() h_any_eo(&[], bound(8, 8, 10)) Eo, conv 1 2 3, compact, numbers |r, k| EO[r as usize - 1][[0, 1, 3, 4][k]];
		("A" Eo::A(x) => x, u8; is_a one (into_a decode_a a_view leaf))
		("B" Eo::B(x) => x, u16; is_b one (into_b decode_b b_view leaf))
		("C" Eo::C => &(); is_c unit (into_c decode_c))
		("D" Eo::D(x) => x, u16; is_d one (into_d decode_d d_view leaf))
	fn h_ol() h_any_ol(&[], 3) Ol, conv 1, compact 1 2, numbers |_, k| Some(k as u32);
		("A" Ol::A(x) => x, [[u8; 32]; 2]; is_a one (into_a decode_a a_view leaf))
		("B" Ol::B(x) => x, [[u8; 17]; 15]; is_b one (into_b decode_b b_view leaf))
		("V" Ol::V(x) => x, [[u8; 30]; 10]; is_v one (into_v decode_v v_view leaf))
	NAMES
		h_names_en En { 1 => "A" 0 "C" 1; 2 => "A" 0 "B" 1 "C" 2; }
		h_names_ev Ev {
			1 => "A" 0 "Old" 1 "B" 2 "C" 3 "G" 4 "Gone" 5;
			2 => "A" 0 "Old" 1 "B" 2 "C" 3 "D" 4 "G" 5;
			3 => "A" 0 "B" 1 "C" 2 "D" 3 "E" 9 "G" 4;
			4 => "A" 0 "B" 2 "C" 3 "D" 4 "E" 1 "F" 5 "G" 6;
		}
		h_names_eo Eo {
			1 => "A" 0 "B" 1 "Old" 4 "D" 2;
			2 => "A" 0 "B" 9 "Old" 1 "D" 2;
			3 => "A" 1 "B" 2 "C" 0 "D" 3;
			4 => "A" 0 "B" 1 "C" 2 "D" 3;
		}
		h_names_mke MkE { 1 => "A" 0 "B" 1 "Old" 2 "C" 3; 2 => "A" 0 "B" 1 "C" 2; }
		h_names_oe Oe {
			1 => "A" 0 "Old" 1 "B" 2 "C" 3 "Gone" 4;
			2 => "A" 0 "Old" 1 "B" 2 "C" 3 "D" 4 "E" 5;
			3 => "A" 0 "B" 1 "C" 2 "D" 3 "E" 4 "Z" 31;
		}
		h_names_ow Ow {
			1 => "A" 0 "B" 1 "C" 2 "D" 3;
			2 => "A" 0 "B" 1 "C" 2 "D" 3 "E" 4 "F" 5;
			3 => "New" 0 "A" 1 "B" 2 "C" 3 "D" 4 "E" 5 "F" 6;
		}
		h_names_eb Eb { 1 => "A" 250 "B" 300 "C" 70000 "D" 4294967295; 2 => "A" 250 "B" 300 "C" 70000 "D" 4294967295; }
}
