//! The built-in types and the input lengths they are explored with (compact integers, fixed-width integers, thorough).
#[macro_export]
macro_rules! type_harnesses {
	($go:ident; $($name:ident: $t:ty, $n:expr, $f:expr, $d:expr;)*) => {
		$crate::harnesses! {
			$(fn $name() { $go::<$t, { $crate::util::bound($n, $f, $d) }>() })*
		}
	};
}
#[macro_export]
macro_rules! builtin_types {
	($go:ident) => {
		use std::borrow::Cow;
		use std::cmp::Reverse;
		use std::collections::{BTreeMap, BTreeSet, BinaryHeap};
		use std::num::Wrapping;
		use std::ops::{Bound, Range};
		use std::path::PathBuf;
		use std::sync::Arc;
		use std::time::{Duration, SystemTime};
		use $crate::sym::{HMap, HSet};
		$crate::type_harnesses! { $go;
			h_bool: bool, 2, 2, 2;
			h_char: char, 5, 5, 5;
			h_f32: f32, 5, 5, 5;
			h_f64: f64, 9, 9, 9;
			h_u8: u8, 2, 2, 2;
			h_u16: u16, 18, 18, 18;
			h_u32: u32, 18, 18, 18;
			h_u64: u64, 18, 18, 18;
			h_u128: u128, 18, 18, 18;
			h_i8: i8, 2, 2, 2;
			h_i16: i16, 18, 18, 18;
			h_i32: i32, 18, 18, 18;
			h_i64: i64, 18, 18, 18;
			h_i128: i128, 18, 18, 18;
			h_usize: usize, 18, 18, 18;
			h_isize: isize, 18, 18, 18;
			h_string: String, 9, 12, 12;
			h_box_str: Box<str>, 9, 12, 12;
			h_arc_str: Arc<str>, 9, 12, 12;
			h_cow_str: Cow<'static, str>, 9, 12, 12;
			h_pathbuf: PathBuf, 9, 12, 12;
			h_duration: Duration, 15, 15, 18;
			h_system_time: SystemTime, 15, 15, 18;
			h_tuple1: (u16,), 4, 4, 10;
			h_tuple2: (u16, bool), 6, 6, 11;
			h_tuple3: (u8, u16, String), 9, 14, 12;
			h_tuple4: (u8, i16, bool, u8), 8, 8, 13;
			h_tuple5: (u8, u16, u8, i8, bool), 9, 9, 14;
			h_tuple6: (u8, i8, u8, u16, bool, u8), 10, 10, 15;
			h_array1: [u32; 1], 6, 6, 10;
			h_array3: [u16; 3], 10, 10, 14;
			h_array32: [u8; 32], 33, 33, 33;
			h_option: Option<u32>, 7, 7, 18;
			h_option_string: Option<String>, 9, 12, 12;
			h_option_nested: Option<Option<bool>>, 4, 4, 4;
			h_result: Result<u32, String>, 9, 15, 12;
			h_bound: Bound<u32>, 10, 10, 14;
			h_range: Range<u32>, 11, 11, 18;
			h_wrapping: Wrapping<i32>, 6, 6, 10;
			h_reverse: Reverse<u16>, 6, 6, 10;
			h_box: Box<u32>, 6, 6, 10;
			h_arc: Arc<u32>, 6, 6, 10;
			h_cow: Cow<'static, u32>, 6, 6, 10;
			h_vec_u8: Vec<u8>, 12, 12, 14;
			h_vec_i8: Vec<i8>, 12, 12, 14;
			h_vec_bool: Vec<bool>, 11, 11, 13;
			h_vec_u16: Vec<u16>, 12, 12, 15;
			h_vec_u32: Vec<u32>, if cfg!(feature = "spec") { 16 } else { 12 }, 16, if cfg!(feature = "spec") { 18 } else { 14 };
			h_vec_u64: Vec<u64>, if cfg!(feature = "spec") { 16 } else { 12 }, 16, if cfg!(feature = "spec") { 18 } else { 14 };
			h_vec_u128: Vec<u128>, if cfg!(feature = "spec") { 24 } else { 10 }, 24, if cfg!(feature = "spec") { 25 } else { 13 };
			h_vec_i16: Vec<i16>, 12, 12, 15;
			h_vec_i32: Vec<i32>, 12, 12, 15;
			h_vec_i64: Vec<i64>, if cfg!(feature = "spec") { 16 } else { 12 }, 16, if cfg!(feature = "spec") { 18 } else { 14 };
			h_vec_i128: Vec<i128>, if cfg!(feature = "spec") { 24 } else { 10 }, 24, if cfg!(feature = "spec") { 25 } else { 13 };
			h_vec_f32: Vec<f32>, 16, 16, 18;
			h_vec_f64: Vec<f64>, 16, 16, 18;
			h_vec_string: Vec<String>, 8, 20, 11;
			h_vec_option: Vec<Option<u16>>, 10, 14, 12;
			h_vec_vec: Vec<Vec<u8>>, 9, 20, 11;
			h_vec_tuple: Vec<(u8, bool)>, 11, 13, 13;
			h_btreemap: BTreeMap<u8, u16>, 11, 15, 13;
			h_btreemap_string: BTreeMap<String, u8>, 9, 20, 11;
			h_hashmap: HMap<u8, u16>, 10, 14, 11;
			h_btreeset: BTreeSet<u16>, 6, 13, 8;
			h_hashset: HSet<u16>, 7, 12, 9;
			h_heap: BinaryHeap<u8>, 10, 11, 11;
			h_nested: Option<BTreeMap<u8, Vec<bool>>>, 9, 20, 11;
		}
	};
}
