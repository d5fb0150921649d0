//! Z3 C API through dlopen (so that either installed Z3 release can decide the queries).
use crate::term::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::{Duration, Instant};

type P = *mut c_void;
extern "C" {
	fn dlopen(f: *const c_char, flag: c_int) -> P;
	fn dlsym(h: P, s: *const c_char) -> P;
}

macro_rules! api {
	($($f:ident ( $($a:ty),* ) -> $r:ty;)*) => {
		#[allow(non_snake_case)]
		struct Api { $($f: unsafe extern "C" fn($($a),*) -> $r,)* }
		impl Api {
			unsafe fn load(h: P) -> Api {
				Api { $($f: {
					let n = CString::new(stringify!($f)).unwrap();
					let p = dlsym(h, n.as_ptr());
					if p.is_null() { panic!("missing {}", stringify!($f)); }
					std::mem::transmute::<P, unsafe extern "C" fn($($a),*) -> $r>(p)
				},)* }
			}
		}
	}
}
api! {
	Z3_mk_config() -> P;
	Z3_set_param_value(P, *const c_char, *const c_char) -> ();
	Z3_mk_context(P) -> P;
	Z3_get_full_version() -> *const c_char;
	Z3_mk_string_symbol(P, *const c_char) -> P;
	Z3_mk_bv_sort(P, c_uint) -> P;
	Z3_mk_bool_sort(P) -> P;
	Z3_mk_const(P, P, P) -> P;
	Z3_mk_numeral(P, *const c_char, P) -> P;
	Z3_mk_unsigned_int64(P, u64, P) -> P;
	Z3_mk_true(P) -> P;
	Z3_mk_false(P) -> P;
	Z3_mk_not(P, P) -> P;
	Z3_mk_eq(P, P, P) -> P;
	Z3_mk_xor(P, P, P) -> P;
	Z3_mk_and(P, c_uint, *const P) -> P;
	Z3_mk_or(P, c_uint, *const P) -> P;
	Z3_mk_ite(P, P, P, P) -> P;
	Z3_mk_bvnot(P, P) -> P;
	Z3_mk_bvand(P, P, P) -> P;
	Z3_mk_bvor(P, P, P) -> P;
	Z3_mk_bvxor(P, P, P) -> P;
	Z3_mk_bvadd(P, P, P) -> P;
	Z3_mk_bvsub(P, P, P) -> P;
	Z3_mk_bvmul(P, P, P) -> P;
	Z3_mk_bvudiv(P, P, P) -> P;
	Z3_mk_bvurem(P, P, P) -> P;
	Z3_mk_bvsdiv(P, P, P) -> P;
	Z3_mk_bvsrem(P, P, P) -> P;
	Z3_mk_bvshl(P, P, P) -> P;
	Z3_mk_bvlshr(P, P, P) -> P;
	Z3_mk_bvashr(P, P, P) -> P;
	Z3_mk_concat(P, P, P) -> P;
	Z3_mk_extract(P, c_uint, c_uint, P) -> P;
	Z3_mk_sign_ext(P, c_uint, P) -> P;
	Z3_mk_bvult(P, P, P) -> P;
	Z3_mk_bvslt(P, P, P) -> P;
	Z3_mk_simple_solver(P) -> P;
	Z3_mk_solver_for_logic(P, P) -> P;
	Z3_solver_inc_ref(P, P) -> ();
	Z3_solver_dec_ref(P, P) -> ();
	Z3_solver_push(P, P) -> ();
	Z3_solver_pop(P, P, c_uint) -> ();
	Z3_solver_assert(P, P, P) -> ();
	Z3_solver_check(P, P) -> c_int;
	Z3_solver_get_model(P, P) -> P;
	Z3_solver_set_params(P, P, P) -> ();
	Z3_mk_params(P) -> P;
	Z3_params_inc_ref(P, P) -> ();
	Z3_params_set_uint(P, P, P, c_uint) -> ();
	Z3_model_inc_ref(P, P) -> ();
	Z3_model_dec_ref(P, P) -> ();
	Z3_model_eval(P, P, P, bool, *mut P) -> bool;
	Z3_get_numeral_uint64(P, P, *mut u64) -> bool;
	Z3_get_numeral_string(P, P) -> *const c_char;
	Z3_get_error_code(P) -> c_int;
	Z3_set_error_handler(P, P) -> ();
}

pub enum Res {
	Sat(Vec<(u32, u128)>),
	Unsat,
	Unknown,
}

pub struct Smt {
	a: Api,
	c: P,
	s: P,
	depth: u32,
	memo_bv: HashMap<T, P>,
	memo_b: HashMap<T, P>,
	sorts: HashMap<u16, P>,
	cache: HashMap<Vec<T>, Option<Vec<(u32, u128)>>>,
	pub queries: u64,
	pub unsat: u64,
	pub sat: u64,
	pub unknown: u64,
	pub cached: u64,
	pub time: Duration,
	pub max_query: Duration,
	pub version: String,
	timeout_ms: u32,
	since_reset: u32,
}

unsafe extern "C" fn on_error(_: P, e: c_int) {
	eprintln!("z3 error {e}");
	std::process::exit(3);
}

impl Smt {
	pub fn new(timeout_ms: u32) -> Smt {
		let mut cands = vec![];
		if let Ok(p) = std::env::var("SX_Z3") {
			cands.push(p);
		}
		cands.push("/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so".into());
		cands.push("/usr/lib/x86_64-linux-gnu/libz3.so".into());
		cands.push("libz3.so.4".into());
		unsafe {
			for p in &cands {
				let n = CString::new(p.as_str()).unwrap();
				let h = dlopen(n.as_ptr(), 2);
				if h.is_null() {
					continue;
				}
				let a = Api::load(h);
				let cfg = (a.Z3_mk_config)();
				let c = (a.Z3_mk_context)(cfg);
				(a.Z3_set_error_handler)(c, on_error as *mut c_void);
				let version = std::ffi::CStr::from_ptr((a.Z3_get_full_version)()).to_string_lossy().into_owned();
				let mut s = Smt {
					a,
					c,
					s: std::ptr::null_mut(),
					depth: 0,
					memo_bv: HashMap::new(),
					memo_b: HashMap::new(),
					sorts: HashMap::new(),
					cache: HashMap::new(),
					queries: 0,
					unsat: 0,
					sat: 0,
					unknown: 0,
					cached: 0,
					time: Duration::ZERO,
					max_query: Duration::ZERO,
					version,
					timeout_ms,
					since_reset: 0,
				};
				s.fresh();
				return s;
			}
		}
		panic!("no libz3 found");
	}
	unsafe fn fresh(&mut self) {
		if !self.s.is_null() {
			(self.a.Z3_solver_dec_ref)(self.c, self.s);
		}
		self.s = (self.a.Z3_mk_simple_solver)(self.c);
		(self.a.Z3_solver_inc_ref)(self.c, self.s);
		self.set_timeout(self.s);
		self.depth = 0;
		self.since_reset = 0;
	}
	unsafe fn set_timeout(&self, s: P) {
		let p = (self.a.Z3_mk_params)(self.c);
		(self.a.Z3_params_inc_ref)(self.c, p);
		let k = CString::new("timeout").unwrap();
		let sym = (self.a.Z3_mk_string_symbol)(self.c, k.as_ptr());
		(self.a.Z3_params_set_uint)(self.c, p, sym, self.timeout_ms);
		(self.a.Z3_solver_set_params)(self.c, s, p);
	}
	fn sort(&mut self, w: u16) -> P {
		if let Some(&s) = self.sorts.get(&w) {
			return s;
		}
		let s = unsafe { (self.a.Z3_mk_bv_sort)(self.c, w as c_uint) };
		self.sorts.insert(w, s);
		s
	}
	fn boolean(&mut self, t: T) -> P {
		if let Some(&p) = self.memo_b.get(&t) {
			return p;
		}
		let n = node(t);
		debug_assert!(n.w == 1);
		let c = self.c;
		let p = unsafe {
			match n.k {
				K::Const(v) => {
					if v == 1 {
						(self.a.Z3_mk_true)(c)
					} else {
						(self.a.Z3_mk_false)(c)
					}
				}
				K::Not => {
					let x = self.boolean(n.a);
					(self.a.Z3_mk_not)(c, x)
				}
				K::And => {
					let v = [self.boolean(n.a), self.boolean(n.b)];
					(self.a.Z3_mk_and)(c, 2, v.as_ptr())
				}
				K::Or => {
					let v = [self.boolean(n.a), self.boolean(n.b)];
					(self.a.Z3_mk_or)(c, 2, v.as_ptr())
				}
				K::Xor => {
					let (x, y) = (self.boolean(n.a), self.boolean(n.b));
					(self.a.Z3_mk_xor)(c, x, y)
				}
				K::Ite => {
					let (x, y, z) = (self.boolean(n.a), self.boolean(n.b), self.boolean(n.c));
					(self.a.Z3_mk_ite)(c, x, y, z)
				}
				K::Eq => {
					if width(n.a) == 1 {
						let (x, y) = (self.boolean(n.a), self.boolean(n.b));
						(self.a.Z3_mk_eq)(c, x, y)
					} else {
						let (x, y) = (self.bv(n.a), self.bv(n.b));
						(self.a.Z3_mk_eq)(c, x, y)
					}
				}
				K::Ult => {
					let (x, y) = (self.bv(n.a), self.bv(n.b));
					(self.a.Z3_mk_bvult)(c, x, y)
				}
				K::Slt => {
					let (x, y) = (self.bv(n.a), self.bv(n.b));
					(self.a.Z3_mk_bvslt)(c, x, y)
				}
				_ => {
					let x = self.bv(t);
					let one = {
						let s = self.sort(1);
						(self.a.Z3_mk_unsigned_int64)(c, 1, s)
					};
					(self.a.Z3_mk_eq)(c, x, one)
				}
			}
		};
		self.memo_b.insert(t, p);
		p
	}
	fn bv(&mut self, t: T) -> P {
		if let Some(&p) = self.memo_bv.get(&t) {
			return p;
		}
		let n = node(t);
		let c = self.c;
		let p = unsafe {
			match n.k {
				K::Const(v) => {
					let s = self.sort(n.w);
					if v <= u64::MAX as u128 {
						(self.a.Z3_mk_unsigned_int64)(c, v as u64, s)
					} else {
						let d = CString::new(v.to_string()).unwrap();
						(self.a.Z3_mk_numeral)(c, d.as_ptr(), s)
					}
				}
				K::Var(i) => {
					let s = self.sort(n.w);
					let d = CString::new(format!("v{i}")).unwrap();
					let sym = (self.a.Z3_mk_string_symbol)(c, d.as_ptr());
					(self.a.Z3_mk_const)(c, sym, s)
				}
				K::Eq | K::Ult | K::Slt => {
					let b = self.boolean(t);
					let s = self.sort(1);
					let (one, zero) = ((self.a.Z3_mk_unsigned_int64)(c, 1, s), (self.a.Z3_mk_unsigned_int64)(c, 0, s));
					(self.a.Z3_mk_ite)(c, b, one, zero)
				}
				K::Not => {
					let x = self.bv(n.a);
					(self.a.Z3_mk_bvnot)(c, x)
				}
				K::Extract(lo) => {
					let x = self.bv(n.a);
					(self.a.Z3_mk_extract)(c, (lo + n.w - 1) as c_uint, lo as c_uint, x)
				}
				K::SExt => {
					let x = self.bv(n.a);
					(self.a.Z3_mk_sign_ext)(c, (n.w - width(n.a)) as c_uint, x)
				}
				K::Ite => {
					let (x, y, z) = (self.boolean(n.a), self.bv(n.b), self.bv(n.c));
					(self.a.Z3_mk_ite)(c, x, y, z)
				}
				_ => {
					let (x, y) = (self.bv(n.a), self.bv(n.b));
					let f = match n.k {
						K::And => self.a.Z3_mk_bvand,
						K::Or => self.a.Z3_mk_bvor,
						K::Xor => self.a.Z3_mk_bvxor,
						K::Add => self.a.Z3_mk_bvadd,
						K::Sub => self.a.Z3_mk_bvsub,
						K::Mul => self.a.Z3_mk_bvmul,
						K::UDiv => self.a.Z3_mk_bvudiv,
						K::URem => self.a.Z3_mk_bvurem,
						K::SDiv => self.a.Z3_mk_bvsdiv,
						K::SRem => self.a.Z3_mk_bvsrem,
						K::Shl => self.a.Z3_mk_bvshl,
						K::LShr => self.a.Z3_mk_bvlshr,
						K::AShr => self.a.Z3_mk_bvashr,
						K::Concat => self.a.Z3_mk_concat,
						_ => unreachable!(),
					};
					f(c, x, y)
				}
			}
		};
		self.memo_bv.insert(t, p);
		p
	}
	/// Is the conjunction satisfiable? Constraints must already be the relevant slice.
	pub fn check(&mut self, cs: &[T]) -> Res {
		let mut key: Vec<T> = cs.to_vec();
		key.sort_unstable();
		key.dedup();
		if let Some(r) = self.cache.get(&key) {
			self.cached += 1;
			return match r {
				Some(m) => Res::Sat(m.clone()),
				None => Res::Unsat,
			};
		}
		let t0 = Instant::now();
		let r = unsafe { self.decide(&key) };
		let d = t0.elapsed();
		self.time += d;
		self.max_query = self.max_query.max(d);
		self.queries += 1;
		match &r {
			Res::Sat(m) => {
				self.sat += 1;
				self.cache.insert(key, Some(m.clone()));
			}
			Res::Unsat => {
				self.unsat += 1;
				self.cache.insert(key, None);
			}
			Res::Unknown => self.unknown += 1,
		}
		r
	}
	unsafe fn decide(&mut self, key: &[T]) -> Res {
		self.since_reset += 1;
		if self.since_reset > 2000 {
			self.fresh();
		}
		(self.a.Z3_solver_push)(self.c, self.s);
		let mut sup = 0;
		for &t in key {
			let b = self.boolean(t);
			(self.a.Z3_solver_assert)(self.c, self.s, b);
			sup = cx().union(sup, support(t));
		}
		let mut solver = self.s;
		let mut r = (self.a.Z3_solver_check)(self.c, solver);
		let mut extra = std::ptr::null_mut();
		if r == 0 {
			// second opinion from the preprocessing QF_BV solver
			let l = CString::new("QF_BV").unwrap();
			let sym = (self.a.Z3_mk_string_symbol)(self.c, l.as_ptr());
			extra = (self.a.Z3_mk_solver_for_logic)(self.c, sym);
			(self.a.Z3_solver_inc_ref)(self.c, extra);
			self.set_timeout(extra);
			for &t in key {
				let b = self.boolean(t);
				(self.a.Z3_solver_assert)(self.c, extra, b);
			}
			r = (self.a.Z3_solver_check)(self.c, extra);
			solver = extra;
		}
		let out = match r {
			1 => {
				let m = (self.a.Z3_solver_get_model)(self.c, solver);
				(self.a.Z3_model_inc_ref)(self.c, m);
				let mut vals = vec![];
				let bits = cx().sets[sup as usize].clone();
				for (i, w) in bits.iter().enumerate() {
					for b in 0..64 {
						if w >> b & 1 == 1 {
							let v = (i * 64 + b) as u32;
							let vt = cx().var_term[v as usize];
							let e = self.bv(vt);
							let mut o: P = std::ptr::null_mut();
							(self.a.Z3_model_eval)(self.c, m, e, true, &mut o);
							let mut x = 0u64;
							if (self.a.Z3_get_numeral_uint64)(self.c, o, &mut x) {
								vals.push((v, x as u128));
							} else {
								let s = std::ffi::CStr::from_ptr((self.a.Z3_get_numeral_string)(self.c, o));
								vals.push((v, s.to_str().unwrap().parse::<u128>().unwrap()));
							}
						}
					}
				}
				(self.a.Z3_model_dec_ref)(self.c, m);
				Res::Sat(vals)
			}
			-1 => Res::Unsat,
			_ => Res::Unknown,
		};
		if !extra.is_null() {
			(self.a.Z3_solver_dec_ref)(self.c, extra);
		}
		(self.a.Z3_solver_pop)(self.c, self.s, 1);
		out
	}
}
