//! Path-exploring symbolic executor over the parsed LLVM IR.
use crate::ir::*;
use crate::smt::*;
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::{Duration, Instant};

const PAGE: usize = 64;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum B {
	Uninit,
	C(u8),
	/// byte `idx` (little endian) of a term
	P(T, u8),
}
type Page = [B; PAGE];

#[derive(Clone)]
pub struct Obj {
	base: u64,
	size: u64,
	ssize: Option<T>,
	fill: B,
	pages: BTreeMap<u64, Rc<Page>>,
	ro: bool,
	heap: bool,
}
impl Obj {
	fn get(&self, off: u64) -> B {
		match self.pages.get(&(off / PAGE as u64)) {
			Some(p) => p[(off % PAGE as u64) as usize],
			None => self.fill,
		}
	}
	fn set(&mut self, off: u64, b: B) {
		let k = off / PAGE as u64;
		if !self.pages.contains_key(&k) {
			if b == self.fill {
				return;
			}
			self.pages.insert(k, Rc::new([self.fill; PAGE]));
		}
		let p = Rc::make_mut(self.pages.get_mut(&k).unwrap());
		p[(off % PAGE as u64) as usize] = b;
	}
}

#[derive(Clone)]
pub struct Frame {
	f: Rc<Func>,
	block: u32,
	ip: usize,
	regs: Vec<Val>,
	allocas: Vec<u64>,
	dst: Option<u32>,
	normal: Option<u32>,
}

#[derive(Clone)]
pub struct State {
	frames: Vec<Frame>,
	mem: Rc<BTreeMap<u64, Rc<Obj>>>,
	next: u64,
	next_big: u64,
	pc: Vec<T>,
	known: Rc<HashMap<T, u128>>,
	fixed: Vec<u64>,
	model: Rc<Model>,
	inputs: Vec<T>,
	obs: Vec<T>,
	steps: u64,
	allow_huge: bool,
	allow_panic: bool,
	fresh: usize,
	/// sizes of large allocations
	bigs: Vec<T>,
	visits: Rc<HashMap<(usize, u32), u32>>,
}

thread_local! {
	/// how many uninitialised bytes/words the current path has materialised
	static FRESH: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
	static FRESH_VARS: std::cell::RefCell<HashMap<(usize, u16), T>> = std::cell::RefCell::new(HashMap::new());
}
/// A variable standing for undefined contents; reused by index across sibling paths.
fn fresh(w: u16) -> T {
	let i = FRESH.with(|c| {
		let i = c.get();
		c.set(i + 1);
		i
	});
	FRESH_VARS.with(|m| *m.borrow_mut().entry((i, w)).or_insert_with(|| mk_var(w, false)))
}

#[derive(Debug)]
pub enum End {
	Ok,
	Assumed,
	Huge,
	/// one branch (of a fork pushed on the work list) carries on elsewhere
	Infeasible,
	Violation(String, String),
	Inconclusive(String),
}

#[derive(Clone)]
enum Fk {
	Def(Rc<Func>),
	Panic,
	AllocFail,
	Format,
	FmtWrite,
	Builtin(Rc<str>),
}

pub struct Viol {
	pub kind: String,
	pub msg: String,
	pub inputs: Vec<u8>,
	pub stack: Vec<String>,
	pub obs: Vec<u64>,
}

#[derive(Default)]
pub struct Stats {
	pub paths: u64,
	pub assumed: u64,
	pub huge: u64,
	pub infeasible: u64,
	pub panics_allowed: u64,
	pub forks: u64,
	pub steps: u64,
	pub asserts: u64,
	pub uninit_reads: u64,
	pub max_depth: usize,
	pub max_inputs: usize,
	pub max_visits: u32,
}

pub struct Exec {
	pub m: Module,
	pub smt: Smt,
	funcs: HashMap<String, Fk>,
	gobj: HashMap<usize, Rc<Obj>>,
	gaddrs: Vec<(u64, usize)>,
	work: Vec<State>,
	pub viols: Vec<Viol>,
	pub inconcl: BTreeMap<String, u64>,
	pub covers: BTreeMap<String, u64>,
	pub funcs_run: BTreeSet<String>,
	pub st: Stats,
	pub samples: Vec<(Vec<u8>, Vec<u64>)>,
	stride: u64,
	deadline: Instant,
	max_steps: u64,
	pub max_viol: usize,
	loop_cap: u32,
	trace: bool,
	/// run the formatting machinery instead of yielding an empty text
	pub real_fmt: bool,
}

type R<X> = Result<X, End>;
fn inc<X>(s: impl Into<String>) -> R<X> {
	Err(End::Inconclusive(s.into()))
}
fn s(t: T) -> Val {
	Val::S(t)
}

fn bits_contains(set: &[u64], sub: &[u64]) -> bool {
	sub.iter().enumerate().all(|(i, w)| w & !set.get(i).copied().unwrap_or(0) == 0)
}

impl Exec {
	pub fn new(m: Module, timeout_ms: u32, secs: u64, max_steps: u64, loop_cap: u32) -> Exec {
		let mut gaddrs: Vec<(u64, usize)> = m.globals.iter().enumerate().map(|(i, g)| (g.addr, i)).collect();
		gaddrs.sort();
		Exec {
			m,
			smt: Smt::new(timeout_ms),
			funcs: HashMap::new(),
			gobj: HashMap::new(),
			gaddrs,
			work: vec![],
			viols: vec![],
			inconcl: BTreeMap::new(),
			covers: BTreeMap::new(),
			funcs_run: BTreeSet::new(),
			st: Stats::default(),
			samples: vec![],
			stride: 1,
			deadline: Instant::now() + Duration::from_secs(secs),
			max_steps,
			max_viol: 8,
			loop_cap,
			real_fmt: false,
			trace: std::env::var("SX_TRACE").is_ok(),
		}
	}

	fn classify(&mut self, name: &str) -> Fk {
		if let Some(k) = self.funcs.get(name) {
			return k.clone();
		}
		let k = if name.contains("4core9panicking") || name.contains("3std9panicking") || name.contains("rust_begin_unwind") || name.contains("rust_start_panic") || name.contains("rust_panic") || name.contains("slice_error_fail") || name.contains("6option13expect_failed") || name.contains("6result13unwrap_failed") || name.contains("16slice_index_fail") || name.contains("11panic_const") {
			Fk::Panic
		} else if name.contains("handle_alloc_error") || name.contains("7raw_vec12handle_error") || name.contains("7raw_vec17capacity_overflow") {
			Fk::AllocFail
		} else if !self.real_fmt && name.contains("5alloc3fmt6format") {
			Fk::Format
		} else if !self.real_fmt && name.ends_with("4core3fmt5write") {
			Fk::FmtWrite
		} else if self.m.fn_text.contains_key(name) {
			Fk::Def(Rc::new(self.m.parse_fn(name)))
		} else {
			Fk::Builtin(Rc::from(name))
		};
		self.funcs.insert(name.to_string(), k.clone());
		k
	}

	// ---------------------------------------------------------------- constraints
	fn slice(&self, st: &State, q: &[T]) -> Vec<T> {
		let mut sup = 0;
		for &t in q {
			sup = cx().union(sup, support(t));
		}
		let mut taken = vec![false; st.pc.len()];
		let mut out = q.to_vec();
		loop {
			let mut ch = false;
			for (i, &c) in st.pc.iter().enumerate() {
				if !taken[i] && intersects(support(c), sup) {
					taken[i] = true;
					ch = true;
					out.push(c);
					sup = cx().union(sup, support(c));
				}
			}
			if !ch {
				break;
			}
		}
		out
	}
	/// PC ∧ q satisfiable? On sat returns a full model.
	fn sat(&mut self, st: &State, q: T) -> R<Option<Rc<Model>>> {
		if let Some(c) = as_const(q) {
			return Ok(if c == 1 {
				Some(st.model.clone())
			} else {
				None
			});
		}
		if st.model.eval(q) == 1 {
			return Ok(Some(st.model.clone()));
		}
		let mut conj = vec![];
		split(q, &mut conj);
		let sl = self.slice(st, &conj);
		match self.smt.check(&sl) {
			Res::Unsat => Ok(None),
			Res::Unknown => inc("solver answered unknown"),
			Res::Sat(vals) => {
				let mut v = st.model.vals.clone();
				for (i, x) in vals {
					if v.len() <= i as usize {
						v.resize(i as usize + 1, 0);
					}
					v[i as usize] = x;
				}
				let m = Model::new(v);
				for &c in &sl {
					if m.eval(c) != 1 {
						return inc("solver model rejected by the evaluator");
					}
				}
				Ok(Some(Rc::new(m)))
			}
		}
	}
	fn assume(&self, st: &mut State, c: T) {
		if as_const(c).is_some() {
			return;
		}
		let mut conj = vec![];
		split(c, &mut conj);
		let k = Rc::make_mut(&mut st.known);
		k.insert(c, 1);
		k.insert(not(c), 0);
		for t in conj {
			k.insert(t, 1);
			k.insert(not(t), 0);
			if !st.pc.contains(&t) {
				st.pc.push(t);
			}
			let n = node(t);
			// variable fixed by the constraint
			let fv = match n.k {
				K::Eq if as_const(n.b).is_some() => match node(n.a).k {
					K::Var(i) => Some(i),
					_ => None,
				},
				K::Var(i) => Some(i),
				K::Not => match node(n.a).k {
					K::Var(i) if width(n.a) == 1 => Some(i),
					_ => None,
				},
				_ => None,
			};
			if let Some(i) = fv {
				let w = (i / 64) as usize;
				if st.fixed.len() <= w {
					st.fixed.resize(w + 1, 0);
				}
				st.fixed[w] |= 1 << (i % 64);
			}
		}
	}
	fn simp(&self, st: &State, t: T) -> T {
		if as_const(t).is_some() {
			return t;
		}
		let sup = &cx().sets[support(t) as usize];
		if bits_contains(&st.fixed, sup) {
			return mk_const(st.model.eval(t), width(t));
		}
		t
	}
	fn known(&self, st: &State, t: T) -> Option<u128> {
		let t = self.simp(st, t);
		if let Some(c) = as_const(t) {
			return Some(c);
		}
		st.known.get(&t).copied()
	}
	/// Decide a Boolean; forks when both outcomes are feasible.
	fn branch(&mut self, st: &mut State, c: T) -> R<bool> {
		if let Some(v) = self.known(st, c) {
			return Ok(v == 1);
		}
		let mv = st.model.eval(c) == 1;
		let other = if mv {
			not(c)
		} else {
			c
		};
		match self.sat(st, other)? {
			None => {
				let k = Rc::make_mut(&mut st.known);
				k.insert(c, mv as u128);
				Ok(mv)
			}
			Some(m) => {
				let mut o = st.clone();
				o.model = m;
				self.assume(&mut o, other);
				self.work.push(o);
				self.st.forks += 1;
				self.assume(st, not(other));
				Ok(mv)
			}
		}
	}
	/// Make a term concrete; forks over every feasible value.
	fn concrete(&mut self, st: &mut State, t: T, limit: usize) -> R<u128> {
		if let Some(v) = self.known(st, t) {
			return Ok(v);
		}
		let w = width(t);
		let v0 = st.model.eval(t);
		let mut excl = not(eq(t, mk_const(v0, w)));
		let mut others = vec![];
		let mut probe = st.clone();
		while let Some(m) = self.sat(&probe, excl)? {
			let v = m.eval(t);
			others.push((v, m.clone()));
			if others.len() > limit {
				return inc(format!("more than {limit} values to concretise"));
			}
			excl = and(excl, not(eq(t, mk_const(v, w))));
			probe.model = m;
			if Instant::now() > self.deadline {
				return inc("time limit");
			}
		}
		for (v, m) in others {
			let mut o = st.clone();
			o.model = m;
			self.assume(&mut o, eq(t, mk_const(v, w)));
			Rc::make_mut(&mut o.known).insert(t, v);
			self.work.push(o);
			self.st.forks += 1;
		}
		self.assume(st, eq(t, mk_const(v0, w)));
		Rc::make_mut(&mut st.known).insert(t, v0);
		Ok(v0)
	}

	// ---------------------------------------------------------------- values
	fn val(&self, st: &State, o: &Opd) -> Val {
		match o {
			Opd::R(r) => match &st.frames.last().unwrap().regs[*r as usize] {
				Val::S(t) => Val::S(self.simp(st, *t)),
				v => v.clone(),
			},
			Opd::V(v) => v.clone(),
		}
	}
	fn scal(&mut self, st: &State, o: &Opd, w: u16) -> T {
		match self.val(st, o) {
			Val::S(t) => t,
			_ => {
				self.st.uninit_reads += 1;
				fresh(w)
			}
		}
	}
	fn scalv(&mut self, v: &Val, w: u16) -> T {
		match v {
			Val::S(t) => *t,
			_ => {
				self.st.uninit_reads += 1;
				fresh(w)
			}
		}
	}
	fn ptr(&mut self, st: &mut State, o: &Opd) -> R<u64> {
		let t = self.scal(st, o, 64);
		Ok(self.concrete(st, t, 300)? as u64)
	}
	fn set(&self, st: &mut State, r: u32, v: Val) {
		if r != u32::MAX {
			st.frames.last_mut().unwrap().regs[r as usize] = v;
		}
	}

	// ---------------------------------------------------------------- memory
	fn global_obj(&mut self, gi: usize) -> Rc<Obj> {
		if let Some(o) = self.gobj.get(&gi) {
			return o.clone();
		}
		let (addr, size, ro) = {
			let g = &self.m.globals[gi];
			(g.addr, g.size, g.constant)
		};
		let v = self.m.global_init(&self.m.globals[gi]);
		let mut o = Obj {
			base: addr,
			size,
			ssize: None,
			fill: B::C(0),
			pages: BTreeMap::new(),
			ro,
			heap: false,
		};
		let ty = self.m.globals[gi].ty.clone();
		let mut out = vec![];
		self.bytes_of(&ty, &v, 0, &mut out);
		for (off, b) in out {
			o.set(off, b);
		}
		let o = Rc::new(o);
		self.gobj.insert(gi, o.clone());
		o
	}
	fn bytes_of(&self, ty: &Ty, v: &Val, off: u64, out: &mut Vec<(u64, B)>) {
		match v {
			Val::U => {
				for i in 0..self.m.size(ty) {
					out.push((off + i, B::Uninit));
				}
			}
			Val::S(t) => {
				let w = width(*t);
				let n = (w as u64).div_ceil(8);
				let t = if w % 8 != 0 {
					zext(*t, (n * 8) as u16)
				} else {
					*t
				};
				for i in 0..n {
					out.push((off + i, byte_of(t, i as u8)));
				}
			}
			Val::A(vs) => match ty {
				Ty::Arr(_, e) => {
					let sz = self.m.size(e);
					for (i, x) in vs.iter().enumerate() {
						self.bytes_of(e, x, off + i as u64 * sz, out);
					}
				}
				Ty::Vec(_, e) => {
					let sz = self.m.size(e);
					for (i, x) in vs.iter().enumerate() {
						self.bytes_of(e, x, off + i as u64 * sz, out);
					}
				}
				Ty::Struct(f, p) => {
					for (i, x) in vs.iter().enumerate() {
						self.bytes_of(&f[i], x, off + self.m.field_off(f, *p, i), out);
					}
				}
				_ => {}
			},
		}
	}
	fn find(&mut self, st: &State, addr: u64) -> Option<Rc<Obj>> {
		if let Some((_, o)) = st.mem.range(..=addr).next_back() {
			if addr - o.base <= o.size {
				return Some(o.clone());
			}
		}
		let i = self.gaddrs.partition_point(|&(a, _)| a <= addr);
		if i > 0 {
			let (a, gi) = self.gaddrs[i - 1];
			if addr - a <= self.m.globals[gi].size {
				return Some(self.global_obj(gi));
			}
		}
		None
	}
	fn access(&mut self, st: &mut State, addr: u64, n: u64, write: bool) -> R<Rc<Obj>> {
		let what = if write {
			"write"
		} else {
			"read"
		};
		let Some(o) = self.find(st, addr) else {
			return Err(End::Violation("memory".into(), format!("{what} of {n} bytes through a dangling or null pointer")));
		};
		let off = addr - o.base;
		if off + n > o.size {
			return Err(End::Violation("memory".into(), format!("{what} of {n} bytes at offset {off} of a {}-byte object", o.size)));
		}
		if let Some(sz) = o.ssize {
			let c = ule(mk_const((off + n) as u128, 64), self.simp(st, sz));
			if !self.branch(st, c)? {
				return Err(End::Violation("memory".into(), format!("{what} of {n} bytes at offset {off} past the end of an allocation")));
			}
		}
		if write && o.ro {
			return Err(End::Violation("memory".into(), "write to constant memory".into()));
		}
		Ok(o)
	}
	fn update(&mut self, st: &mut State, o: Rc<Obj>, f: impl FnOnce(&mut Obj)) {
		let base = o.base;
		drop(o);
		let mem = Rc::make_mut(&mut st.mem);
		if !mem.contains_key(&base) {
			let i = self.gaddrs.partition_point(|&(a, _)| a <= base);
			let g = self.global_obj(self.gaddrs[i - 1].1);
			mem.insert(base, g);
		}
		f(Rc::make_mut(mem.get_mut(&base).unwrap()));
	}
	fn byte_term(&mut self, b: B) -> T {
		match b {
			B::C(v) => mk_const(v as u128, 8),
			B::P(t, i) => extract(t, i as u16 * 8, 8),
			B::Uninit => {
				self.st.uninit_reads += 1;
				fresh(8)
			}
		}
	}
	fn load_scalar(&mut self, st: &mut State, addr: u64, w: u16) -> R<Val> {
		if w > 128 {
			return inc(format!("load of i{w}"));
		}
		let n = (w as u64).div_ceil(8);
		let o = self.access(st, addr, n, false)?;
		let off = addr - o.base;
		let first = o.get(off);
		// whole-term fast path
		if let B::P(t, 0) = first {
			if width(t) as u64 == n * 8 && (1..n).all(|i| o.get(off + i) == B::P(t, i as u8)) {
				return Ok(s(self.simp(st, extract(t, 0, w))));
			}
		}
		let bs: Vec<B> = (0..n).map(|i| o.get(off + i)).collect();
		if bs.iter().all(|b| *b == B::Uninit) {
			return Ok(Val::U);
		}
		let mut fix = vec![];
		let mut r: Option<T> = None;
		for (i, b) in bs.iter().enumerate() {
			let t = self.byte_term(*b);
			if *b == B::Uninit {
				fix.push((off + i as u64, B::P(t, 0)));
			}
			r = Some(match r {
				None => t,
				Some(x) => concat(t, x),
			});
		}
		if !fix.is_empty() && !o.ro {
			self.update(st, o, |o| {
				for (k, b) in fix {
					o.set(k, b);
				}
			});
		}
		Ok(s(self.simp(st, extract(r.unwrap(), 0, w))))
	}
	fn load(&mut self, st: &mut State, ty: &Ty, addr: u64) -> R<Val> {
		match ty {
			Ty::Int(w) => self.load_scalar(st, addr, *w),
			Ty::Ptr => self.load_scalar(st, addr, 64),
			Ty::Vec(n, e) if matches!(&**e, Ty::Int(w) if w % 8 != 0) => {
				let Ty::Int(w) = &**e else {
					unreachable!()
				};
				let packed = Ty::Int((*n * *w as u64).min(u16::MAX as u64) as u16);
				let v = self.load(st, &packed, addr)?;
				match v {
					Val::U => Ok(Val::A(Rc::new(vec![Val::U; *n as usize]))),
					v => self.bitcast(v, &packed, ty),
				}
			}
			Ty::Float(w) => self.load_scalar(st, addr, *w),
			Ty::Arr(n, e) | Ty::Vec(n, e) => {
				let sz = self.m.size(e);
				let mut v = vec![];
				for i in 0..*n {
					v.push(self.load(st, e, addr + i * sz)?);
				}
				Ok(Val::A(Rc::new(v)))
			}
			Ty::Struct(f, p) => {
				let mut v = vec![];
				for i in 0..f.len() {
					let off = self.m.field_off(f, *p, i);
					v.push(self.load(st, &f[i], addr + off)?);
				}
				Ok(Val::A(Rc::new(v)))
			}
			_ => inc("load type"),
		}
	}
	fn store(&mut self, st: &mut State, ty: &Ty, addr: u64, v: &Val) -> R<()> {
		// vectors of sub-byte elements are bit-packed in memory
		if let Ty::Vec(n, e) = ty {
			if let Ty::Int(w) = &**e {
				if w % 8 != 0 {
					let bits = *n * *w as u64;
					if bits > 128 {
						return inc("store of a wide vector of sub-byte elements");
					}
					let packed = Ty::Int(bits as u16);
					let v = self.bitcast(v.clone(), ty, &packed)?;
					return self.store(st, &packed, addr, &v);
				}
			}
		}
		let n = match ty {
			Ty::Int(w) => (*w as u64).div_ceil(8),
			_ => self.m.size(ty),
		};
		let o = self.access(st, addr, n, true)?;
		let off = addr - o.base;
		let mut out = vec![];
		match (ty, v) {
			(Ty::Int(_), Val::U) => {
				for i in 0..n {
					out.push((off + i, B::Uninit));
				}
			}
			_ => self.bytes_of(ty, v, off, &mut out),
		}
		self.update(st, o, |o| {
			for (k, b) in out {
				o.set(k, b);
			}
		});
		Ok(())
	}
	fn new_obj(&mut self, st: &mut State, size: u64, align: u64, fill: B, heap: bool) -> u64 {
		let a = st.next.next_multiple_of(align.max(16));
		st.next = a + size + 32;
		Rc::make_mut(&mut st.mem).insert(
			a,
			Rc::new(Obj {
				base: a,
				size,
				ssize: None,
				fill,
				pages: BTreeMap::new(),
				ro: false,
				heap,
			}),
		);
		a
	}
	const HUGE: u64 = 1 << 40;
	fn alloc(&mut self, st: &mut State, size: T, align: u64, fill: B) -> R<u64> {
		if let Some(n) = self.known(st, size) {
			let n = n as u64;
			if n > Self::HUGE {
				return self.huge(st);
			}
			if n > (1 << 24) {
				return Ok(self.big(st, n, None, fill));
			}
			return Ok(self.new_obj(st, n, align, fill, true));
		}
		if !self.branch(st, ule(size, mk_const(Self::HUGE as u128, 64)))? {
			return self.huge(st);
		}
		Ok(self.big(st, Self::HUGE, Some(size), fill))
	}
	fn big(&mut self, st: &mut State, size: u64, ssize: Option<T>, fill: B) -> u64 {
		let a = st.next_big;
		st.bigs.push(ssize.unwrap_or_else(|| mk_const(size as u128, 64)));
		st.next_big += 1 << 41;
		Rc::make_mut(&mut st.mem).insert(
			a,
			Rc::new(Obj {
				base: a,
				size,
				ssize,
				fill,
				pages: BTreeMap::new(),
				ro: false,
				heap: true,
			}),
		);
		a
	}
	fn huge<X>(&mut self, st: &State) -> R<X> {
		if st.allow_huge {
			Err(End::Huge)
		} else {
			Err(End::Violation("allocation".into(), "allocation request no host can satisfy".into()))
		}
	}
	fn free(&mut self, st: &mut State, p: u64) -> R<()> {
		if p == 0 {
			return Ok(());
		}
		match st.mem.get(&p) {
			Some(o) if o.heap => {
				Rc::make_mut(&mut st.mem).remove(&p);
				Ok(())
			}
			_ => Err(End::Violation("memory".into(), "free of a pointer that is not a live allocation".into())),
		}
	}
	fn copy(&mut self, st: &mut State, d: u64, sp: u64, n: u64) -> R<()> {
		if n == 0 {
			return Ok(());
		}
		if n > 1 << 20 {
			if self.copy_tail(st, d, sp, mk_const(n as u128, 64))? {
				return Ok(());
			}
			return inc("copy larger than 1 MiB");
		}
		let so = self.access(st, sp, n, false)?;
		let dof = self.access(st, d, n, true)?;
		let (a, b) = (sp - so.base, d - dof.base);
		let bytes: Vec<B> = (0..n).map(|i| so.get(a + i)).collect();
		drop(so);
		self.update(st, dof, |o| {
			for (i, x) in bytes.into_iter().enumerate() {
				o.set(b + i as u64, x);
			}
		});
		Ok(())
	}

	/// Copy of a very long (or symbolically long) range into the untouched tail of a heap buffer,
	/// without visiting the bytes: the destination takes over the source's contents from there on.
	fn copy_tail(&mut self, st: &mut State, d: u64, sp: u64, n: T) -> R<bool> {
		let (Some(so), Some(o)) = (self.find(st, sp), self.find(st, d)) else {
			return Ok(false);
		};
		let (a, b) = (sp - so.base, d - o.base);
		let p = PAGE as u64;
		let pg = b / p;
		let untouched = o.heap
			&& o.base != so.base
			&& o.fill == B::Uninit
			&& b < (1 << 16)
			&& o.pages.range(pg..).all(|(k, q)| (0..p).all(|i| k * p + i < b || q[i as usize] == B::Uninit));
		if !so.heap || so.size <= 1 << 20 || !untouched || so.pages.range(a / p..).count() > 1024 {
			return Ok(false);
		}
		for (x, off, write) in [(&so, a, false), (&o, b, true)] {
			self.access(st, x.base + off, 0, write)?;
			let size = x.ssize.unwrap_or_else(|| mk_const(x.size as u128, 64));
			let room = sub(self.simp(st, size), mk_const(off as u128, 64));
			if !self.branch(st, ule(n, room))? {
				return Err(End::Violation("memory".into(), "copy past the end of an allocation".into()));
			}
		}
		self.update(st, o, |o| {
			for k in 0..=pg {
				o.pages.entry(k).or_insert_with(|| Rc::new([B::Uninit; PAGE]));
			}
			o.pages.retain(|k, _| *k <= pg);
			for i in b..(pg + 1) * p {
				o.set(i, so.get(a + i - b));
			}
			o.fill = so.fill;
			for (k, q) in so.pages.range(a / p..) {
				for i in 0..p {
					if k * p + i >= a {
						o.set(b + k * p + i - a, q[i as usize]);
					}
				}
			}
		});
		Ok(true)
	}

	// ---------------------------------------------------------------- running
	pub fn run(&mut self, harness: &str) -> Result<(), String> {
		if !self.m.fn_text.contains_key(harness) {
			return Err(format!("no function {harness} in the module"));
		}
		let f = match self.classify(harness) {
			Fk::Def(f) => f,
			_ => return Err("harness is not a plain function".into()),
		};
		let st = State {
			frames: vec![Frame {
				block: 0,
				ip: 0,
				regs: vec![Val::U; f.nregs as usize],
				allocas: vec![],
				dst: None,
				normal: None,
				f,
			}],
			mem: Rc::new(BTreeMap::new()),
			next: 0x7000_0000_0000,
			next_big: 0x0100_0000_0000_0000,
			pc: vec![],
			known: Rc::new(HashMap::new()),
			fixed: vec![],
			model: Rc::new(Model::default()),
			inputs: vec![],
			obs: vec![],
			steps: 0,
			allow_huge: false,
			bigs: vec![],
			allow_panic: false,
			fresh: 0,
			visits: Rc::new(HashMap::new()),
		};
		self.work.push(st);
		while let Some(mut st) = self.work.pop() {
			let end = loop {
				FRESH.with(|c| c.set(st.fresh));
				let r = self.step(&mut st);
				st.fresh = FRESH.with(|c| c.get());
				if let Err(e) = r {
					break e;
				}
			};
			self.st.steps += 0;
			self.finish(st, end);
			if self.viols.len() >= self.max_viol {
				break;
			}
			if Instant::now() > self.deadline {
				*self.inconcl.entry("time limit".into()).or_default() += self.work.len() as u64;
				break;
			}
		}
		Ok(())
	}
	fn stack(&self, st: &State) -> Vec<String> {
		st.frames.iter().rev().map(|f| f.f.name.clone()).collect()
	}
	fn input_bytes(&self, st: &State) -> Vec<u8> {
		st.inputs.iter().map(|&t| st.model.eval(t) as u8).collect()
	}
	fn finish(&mut self, st: State, end: End) {
		self.st.max_inputs = self.st.max_inputs.max(st.inputs.len());
		match end {
			End::Ok => {
				self.st.paths += 1;
				// a path that allocates gigabytes is not replayed
				if self.st.paths % self.stride == 0 && !st.bigs.iter().any(|&t| st.model.eval(t) > 1 << 30) {
					let o = st.obs.iter().map(|&t| st.model.eval(t) as u64).collect();
					// a path whose result depends on uninitialised memory is no reference
					self.samples.push((self.input_bytes(&st), o));
					if self.samples.len() >= 256 {
						let mut i = 0;
						self.samples.retain(|_| {
							i += 1;
							i % 2 == 0
						});
						self.stride *= 2;
					}
				}
			}
			End::Assumed => self.st.assumed += 1,
			End::Huge => self.st.huge += 1,
			End::Infeasible => self.st.infeasible += 1,
			End::Violation(kind, msg) => {
				if kind == "panic" && st.allow_panic {
					self.st.panics_allowed += 1;
					return;
				}
				let inputs = self.input_bytes(&st);
				let stack = self.stack(&st);
				// report one per (kind, message, innermost function)
				if !self.viols.iter().any(|v| v.kind == kind && v.msg == msg && v.stack.first() == stack.first()) {
					let obs = st.obs.iter().map(|&t| st.model.eval(t) as u64).collect();
					self.viols.push(Viol {
						kind,
						msg,
						inputs,
						stack,
						obs,
					});
				}
			}
			End::Inconclusive(m) => {
				if self.trace || self.inconcl.is_empty() {
					eprintln!("inconclusive: {m}");
					for f in self.stack(&st).iter().take(12) {
						eprintln!("    {f}");
					}
				}
				*self.inconcl.entry(m).or_default() += 1
			}
		}
	}

	fn goto(&mut self, st: &mut State, b: u32) -> R<()> {
		let (phis, fname) = {
			let fr = st.frames.last().unwrap();
			let f = fr.f.clone();
			let from = fr.block;
			let blk = &f.blocks[b as usize];
			let mut vals = Vec::with_capacity(blk.phis.len());
			for (d, inc_) in &blk.phis {
				let o = &inc_.iter().find(|(p, _)| *p == from).expect("phi edge").1;
				vals.push((*d, self.val(st, o)));
			}
			(vals, Rc::as_ptr(&f) as usize)
		};
		let depth = st.frames.len();
		let fr = st.frames.last_mut().unwrap();
		for (d, v) in phis {
			fr.regs[d as usize] = v;
		}
		if b <= fr.block {
			// possible back edge
			let e = Rc::make_mut(&mut st.visits).entry((fname ^ depth << 48, b)).or_insert(0);
			*e += 1;
			self.st.max_visits = self.st.max_visits.max(*e);
			if *e > self.loop_cap {
				return Err(End::Violation("hang".into(), "does not terminate".into()));
			}
		}
		let fr = st.frames.last_mut().unwrap();
		fr.block = b;
		fr.ip = 0;
		Ok(())
	}

	fn step(&mut self, st: &mut State) -> R<()> {
		st.steps += 1;
		self.st.steps += 1;
		if st.steps > self.max_steps {
			// confirmed (or not) by the native replay, which gets a time limit
			return Err(End::Violation("hang".into(), "does not terminate".into()));
		}
		if self.st.steps & 0xfff == 0 && Instant::now() > self.deadline {
			return inc("time limit");
		}
		let (f, b, ip) = {
			let fr = st.frames.last().unwrap();
			(fr.f.clone(), fr.block, fr.ip)
		};
		let ins = &f.blocks[b as usize].ins[ip];
		if self.trace {
			eprintln!("[{}] {}:{}:{} {:?}", st.frames.len(), &f.name[f.name.len().saturating_sub(60)..], b, ip, ins);
		}
		match ins {
			I::Br(t) => return self.goto(st, *t),
			I::CondBr(c, x, y) => {
				let c = self.scal(st, c, 1);
				let t = if self.branch(st, c)? {
					*x
				} else {
					*y
				};
				return self.goto(st, t);
			}
			I::Switch(v, def, cs) => {
				let v = match self.val(st, v) {
					Val::S(t) => t,
					_ => return inc("switch on undefined value"),
				};
				let w = width(v);
				if let Some(c) = self.known(st, v) {
					let t = cs.iter().find(|x| x.0 == c).map(|x| x.1).unwrap_or(*def);
					return self.goto(st, t);
				}
				// group the cases by target
				let mut targets: Vec<(u32, T)> = vec![];
				let mut none = tru();
				for (c, t) in cs {
					let e = eq(v, mk_const(*c, w));
					none = and(none, not(e));
					match targets.iter_mut().find(|x| x.0 == *t) {
						Some(x) => x.1 = or(x.1, e),
						None => targets.push((*t, e)),
					}
				}
				match targets.iter_mut().find(|x| x.0 == *def) {
					Some(x) => x.1 = or(x.1, none),
					None => targets.push((*def, none)),
				}
				let n = targets.len();
				for (i, (t, c)) in targets.into_iter().enumerate() {
					if i + 1 == n || self.branch(st, c)? {
						return self.goto(st, t);
					}
				}
				unreachable!()
			}
			I::Ret(v) => {
				let v = v.as_ref().map(|o| self.val(st, o));
				let fr = st.frames.pop().unwrap();
				if !fr.allocas.is_empty() {
					let m = Rc::make_mut(&mut st.mem);
					for a in &fr.allocas {
						m.remove(a);
					}
				}
				if st.frames.is_empty() {
					return Err(End::Ok);
				}
				if let (Some(d), Some(v)) = (fr.dst, v) {
					self.set(st, d, v);
				}
				return self.after_call(st, fr.normal);
			}
			I::Unreachable => return Err(End::Violation("unreachable".into(), "control reached code the compiler was told is unreachable".into())),
			I::Call {
				dst,
				callee,
				name,
				args,
				ret,
				normal,
			} => {
				let n: Rc<str> = match name {
					Some(n) => n.clone(),
					None => {
						let p = self.ptr(st, callee)?;
						match self.m.addr_fn.get(&p) {
							Some(n) => Rc::from(n.as_str()),
							None => return Err(End::Violation("memory".into(), "call through an invalid function pointer".into())),
						}
					}
				};
				match self.classify(&n) {
					Fk::Panic if st.allow_huge && st.frames.iter().rev().take(3).any(|f| f.f.name.contains("9hashbrown") && ["with_capacity", "reserve", "resize", "new_uninit"].iter().any(|k| f.f.name.contains(k))) => return self.huge(st),
					Fk::Panic => {
						let msg = self.panic_msg(st, args);
						if st.allow_huge && msg.ends_with("capacity overflow") {
							return self.huge(st);
						}
						return Err(End::Violation("panic".into(), msg));
					}
					Fk::AllocFail => return self.huge(st),
					Fk::Format => {
						let p = self.ptr(st, &args[0].1)?;
						for (i, x) in [0u128, 1, 0].iter().enumerate() {
							self.store(st, &Ty::Ptr, p + 8 * i as u64, &s(mk_const(*x, 64)))?;
						}
						return self.after_call(st, *normal);
					}
					Fk::FmtWrite => {
						if let Some(d) = dst {
							self.set(st, *d, s(fls()));
						}
						return self.after_call(st, *normal);
					}
					Fk::Def(g) => {
						if st.frames.len() > 200 {
							return inc("call depth");
						}
						let mut regs = vec![Val::U; g.nregs as usize];
						for (i, (_, o)) in args.iter().enumerate() {
							if i < g.params.len() {
								regs[g.params[i] as usize] = self.val(st, o);
							}
						}
						if !self.funcs_run.contains(&g.name) {
							self.funcs_run.insert(g.name.clone());
						}
						st.frames.push(Frame {
							block: 0,
							ip: 0,
							regs,
							allocas: vec![],
							dst: *dst,
							normal: *normal,
							f: g,
						});
						self.st.max_depth = self.st.max_depth.max(st.frames.len());
						return Ok(());
					}
					Fk::Builtin(n) => {
						let v = self.builtin(st, &n, args, ret)?;
						if let Some(d) = dst {
							self.set(st, *d, v);
						}
						return self.after_call(st, *normal);
					}
				}
			}
			_ => {
				self.simple(st, ins)?;
				st.frames.last_mut().unwrap().ip += 1;
			}
		}
		Ok(())
	}
	fn after_call(&mut self, st: &mut State, normal: Option<u32>) -> R<()> {
		match normal {
			Some(b) => self.goto(st, b),
			None => {
				st.frames.last_mut().unwrap().ip += 1;
				Ok(())
			}
		}
	}
	fn panic_msg(&mut self, st: &mut State, args: &[(Ty, Opd)]) -> String {
		// panic(&str) style calls: (ptr, len, location)
		if args.len() >= 2 && args[0].0 == Ty::Ptr {
			if let (Val::S(p), Val::S(n)) = (self.val(st, &args[0].1), self.val(st, &args[1].1)) {
				if let (Some(p), Some(mut n)) = (as_const(p), as_const(n)) {
					// panic_fmt of a literal: the length is tagged (2n + 1) and typed as a pointer
					if args[1].0 == Ty::Ptr && n & 1 == 1 {
						n >>= 1;
					}
					if n < 300 {
						if let Some(o) = self.find(st, p as u64) {
							let off = p as u64 - o.base;
							if off + n as u64 <= o.size {
								let b: Vec<u8> = (0..n as u64)
									.map(|i| match o.get(off + i) {
										B::C(c) => c,
										_ => b'?',
									})
									.collect();
								let s = String::from_utf8_lossy(&b).into_owned();
								if s.chars().all(|c| !c.is_control()) {
									return s;
								}
							}
						}
					}
				}
			}
		}
		String::new()
	}

	fn flat(&mut self, v: &Val, ty: &Ty, out: &mut Vec<T>) {
		match ty {
			Ty::Vec(n, e) => match v {
				Val::A(vs) => {
					for x in vs.iter() {
						self.flat(x, e, out)
					}
				}
				_ => {
					for _ in 0..*n {
						self.flat(&Val::U, e, out)
					}
				}
			},
			Ty::Int(w) | Ty::Float(w) => {
				let t = self.scalv(v, *w);
				out.push(t)
			}
			_ => {
				let t = self.scalv(v, 64);
				out.push(t)
			}
		}
	}
	fn bitcast(&mut self, v: Val, from: &Ty, to: &Ty) -> R<Val> {
		if let (Val::U, _) = (&v, from) {
			return Ok(Val::U);
		}
		if !matches!(from, Ty::Vec(..)) && !matches!(to, Ty::Vec(..)) {
			return Ok(v);
		}
		let mut parts = vec![];
		self.flat(&v, from, &mut parts);
		// regroup, little endian
		let (n, ew) = match to {
			Ty::Vec(n, e) => (
				*n as usize,
				match &**e {
					Ty::Int(w) | Ty::Float(w) => *w,
					_ => 64,
				},
			),
			Ty::Int(w) | Ty::Float(w) => (1, *w),
			_ => (1, 64),
		};
		if ew > 128 {
			return inc("bitcast to a wide integer");
		}
		let mut out = vec![];
		let (mut pi, mut po) = (0usize, 0u16);
		for _ in 0..n {
			let mut acc: Option<T> = None;
			let mut have = 0;
			while have < ew {
				let w = (width(parts[pi]) - po).min(ew - have);
				let x = extract(parts[pi], po, w);
				acc = Some(match acc {
					None => x,
					Some(a) => concat(x, a),
				});
				have += w;
				po += w;
				if po == width(parts[pi]) {
					pi += 1;
					po = 0;
				}
			}
			out.push(s(acc.unwrap()));
		}
		Ok(match to {
			Ty::Vec(..) => Val::A(Rc::new(out)),
			_ => out.pop().unwrap(),
		})
	}
	fn elems(&self, v: &Val, n: u64) -> Vec<Val> {
		match v {
			Val::A(x) => x.as_ref().clone(),
			_ => vec![Val::U; n as usize],
		}
	}

	fn binop(&mut self, op: Bin, a: T, b: T) -> R<T> {
		Ok(match op {
			Bin::Add => add(a, b),
			Bin::Sub => sub(a, b),
			Bin::Mul => mul(a, b),
			Bin::UDiv => udiv(a, b),
			Bin::URem => urem(a, b),
			Bin::SDiv => sdiv(a, b),
			Bin::SRem => srem(a, b),
			Bin::Shl => shl(a, b),
			Bin::LShr => lshr(a, b),
			Bin::AShr => ashr(a, b),
			Bin::And => and(a, b),
			Bin::Or => or(a, b),
			Bin::Xor => xor(a, b),
			_ => {
				let w = width(a);
				match (as_const(a), as_const(b)) {
					(Some(x), Some(y)) if w == 64 => {
						let (x, y) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
						let r = match op {
							Bin::FAdd => x + y,
							Bin::FSub => x - y,
							Bin::FMul => x * y,
							Bin::FDiv => x / y,
							_ => x % y,
						};
						mk_const(r.to_bits() as u128, 64)
					}
					(Some(x), Some(y)) if w == 32 => {
						let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
						let r = match op {
							Bin::FAdd => x + y,
							Bin::FSub => x - y,
							Bin::FMul => x * y,
							Bin::FDiv => x / y,
							_ => x % y,
						};
						mk_const(r.to_bits() as u128, 32)
					}
					_ => return inc("symbolic floating-point arithmetic"),
				}
			}
		})
	}
	fn pred(&self, p: Pred, a: T, b: T) -> T {
		match p {
			Pred::Eq => eq(a, b),
			Pred::Ne => not(eq(a, b)),
			Pred::Ult => ult(a, b),
			Pred::Ule => ule(a, b),
			Pred::Ugt => ult(b, a),
			Pred::Uge => ule(b, a),
			Pred::Slt => slt(a, b),
			Pred::Sle => sle(a, b),
			Pred::Sgt => slt(b, a),
			Pred::Sge => sle(b, a),
		}
	}

	fn simple(&mut self, st: &mut State, ins: &I) -> R<()> {
		match ins {
			I::Bin(d, op, ty, x, y) => {
				if let Ty::Vec(n, e) = ty {
					let w = ew(e);
					let (a, b) = (self.val(st, x), self.val(st, y));
					let (a, b) = (self.elems(&a, *n), self.elems(&b, *n));
					let mut v = vec![];
					for i in 0..*n as usize {
						let (p, q) = (self.scalv(&a[i], w), self.scalv(&b[i], w));
						v.push(s(self.binop(*op, p, q)?));
					}
					self.set(st, *d, Val::A(Rc::new(v)));
					return Ok(());
				}
				let w = ew(ty);
				if w > 128 {
					return inc(format!("i{w} arithmetic"));
				}
				let (a, b) = (self.scal(st, x, w), self.scal(st, y, w));
				let r = self.binop(*op, a, b)?;
				self.set(st, *d, s(r));
			}
			I::ICmp(d, p, x, y) => {
				let (a, b) = (self.val(st, x), self.val(st, y));
				if let (Val::A(a), Val::A(b)) = (&a, &b) {
					let mut v = vec![];
					for (p1, q1) in a.iter().zip(b.iter()) {
						match (p1, q1) {
							(Val::S(p1), Val::S(q1)) => v.push(s(self.pred(*p, *p1, *q1))),
							_ => v.push(Val::U),
						}
					}
					self.set(st, *d, Val::A(Rc::new(v)));
					return Ok(());
				}
				let r = match (&a, &b) {
					(Val::S(a), Val::S(b)) => s(self.pred(*p, *a, *b)),
					_ => Val::U,
				};
				self.set(st, *d, r);
			}
			I::FCmp(d, p, ty, x, y) => {
				if matches!(ty, Ty::Vec(..)) {
					return inc("vector fcmp");
				}
				let w = ew(ty);
				let (a, b) = (self.scal(st, x, w), self.scal(st, y, w));
				let r = fcmp(p, a, b)?;
				self.set(st, *d, s(r));
			}
			I::FNeg(d, ty, x) => {
				let w = ew(ty);
				let a = self.scal(st, x, w);
				self.set(st, *d, s(xor(a, mk_const(1 << (w - 1), w))));
			}
			I::Cast(d, c, from, x, to) => {
				let v = self.val(st, x);
				let r = match c {
					Cast::Bit => self.bitcast(v, from, to)?,
					_ => {
						if let (Ty::Vec(n, fe), Ty::Vec(_, te)) = (from, to) {
							let vs = self.elems(&v, *n);
							let mut out = vec![];
							for x in vs {
								out.push(self.cast(*c, &x, ew(fe), ew(te))?);
							}
							Val::A(Rc::new(out))
						} else {
							self.cast(*c, &v, ew(from), ew(to))?
						}
					}
				};
				self.set(st, *d, r);
			}
			I::Load(d, ty, p) => {
				let t = self.scal(st, p, 64);
				if self.known(st, t).is_none() {
					if let Some(v) = self.table_load(st, ty, t)? {
						self.set(st, *d, v);
						return Ok(());
					}
				}
				let a = self.concrete(st, t, 300)? as u64;
				let v = self.load(st, ty, a)?;
				self.set(st, *d, v);
			}
			I::Store(ty, v, p) => {
				let a = self.ptr(st, p)?;
				let v = self.val(st, v);
				self.store(st, ty, a, &v)?;
			}
			I::Gep(d, base, idx, off) => {
				let mut a = self.scal(st, base, 64);
				for (o, stride) in idx {
					let i = match self.val(st, o) {
						Val::S(t) => t,
						// an address computed ahead of the test that makes it meaningful
						_ => {
							self.set(st, *d, Val::U);
							return Ok(());
						}
					};
					let i = if width(i) < 64 {
						sext(i, 64)
					} else {
						extract(i, 0, 64)
					};
					a = add(a, mul(i, mk_const(*stride as u128, 64)));
				}
				a = add(a, mk_const(*off as u128, 64));
				self.set(st, *d, s(a));
			}
			I::Alloca(d, sz, n, al) => {
				let nt = self.scal(st, n, 64);
				let n = self.concrete(st, nt, 16)? as u64;
				let a = self.new_obj(st, sz * n, *al, B::Uninit, false);
				let fr = st.frames.last_mut().unwrap();
				fr.allocas.push(a);
				self.set(st, *d, s(mk_const(a as u128, 64)));
			}
			I::Select(d, c, ty, x, y) => {
				let cv = self.val(st, c);
				let (a, b) = (self.val(st, x), self.val(st, y));
				if let Val::A(cs) = &cv {
					let n = cs.len() as u64;
					let (a, b) = (self.elems(&a, n), self.elems(&b, n));
					let mut out = vec![];
					for i in 0..n as usize {
						out.push(match (&cs[i], &a[i], &b[i]) {
							(Val::S(c), Val::S(a), Val::S(b)) => s(ite(*c, *a, *b)),
							_ => Val::U,
						});
					}
					self.set(st, *d, Val::A(Rc::new(out)));
					return Ok(());
				}
				let c = self.scalv(&cv, 1);
				if let Some(k) = self.known(st, c) {
					self.set(
						st,
						*d,
						if k == 1 {
							a
						} else {
							b
						},
					);
					return Ok(());
				}
				match (&a, &b) {
					(Val::S(p), Val::S(q)) if *ty != Ty::Ptr => self.set(st, *d, s(ite(c, *p, *q))),
					_ => {
						let r = if self.branch(st, c)? {
							a
						} else {
							b
						};
						self.set(st, *d, r);
					}
				}
			}
			I::ExtractValue(d, v, ix) => {
				let mut v = self.val(st, v);
				for i in ix {
					v = match &v {
						Val::A(x) => x[*i as usize].clone(),
						_ => Val::U,
					};
				}
				if let Val::S(t) = v {
					v = s(self.simp(st, t));
				}
				self.set(st, *d, v);
			}
			I::InsertValue(d, ty, v, x, ix) => {
				let v = self.val(st, v);
				let x = self.val(st, x);
				let r = insert(ty, v, x, ix);
				self.set(st, *d, r);
			}
			I::ExtractElem(d, ty, v, i) => {
				let n = match ty {
					Ty::Vec(n, _) => *n,
					_ => 0,
				};
				let it = self.scal(st, i, 64);
				let i = self.concrete(st, it, 64)? as usize;
				let v = self.val(st, v);
				let v = self.elems(&v, n)[i].clone();
				self.set(st, *d, v);
			}
			I::InsertElem(d, ty, v, x, i) => {
				let n = match ty {
					Ty::Vec(n, _) => *n,
					_ => 0,
				};
				let it = self.scal(st, i, 64);
				let i = self.concrete(st, it, 64)? as usize;
				let v = self.val(st, v);
				let mut e = self.elems(&v, n);
				e[i] = self.val(st, x);
				self.set(st, *d, Val::A(Rc::new(e)));
			}
			I::Shuffle(d, ty, a, b, m) => {
				let n = match ty {
					Ty::Vec(n, _) => *n,
					_ => 0,
				};
				let (a, b, m) = (self.val(st, a), self.val(st, b), self.val(st, m));
				let mut e = self.elems(&a, n);
				e.extend(self.elems(&b, n));
				let ml = match &m {
					Val::A(x) => x.as_ref().clone(),
					_ => return inc("shuffle mask"),
				};
				let out = ml
					.iter()
					.map(|x| match x {
						Val::S(t) => e[as_const(*t).unwrap() as usize].clone(),
						_ => Val::U,
					})
					.collect();
				self.set(st, *d, Val::A(Rc::new(out)));
			}
			I::Freeze(d, ty, v) => {
				let v = match (self.val(st, v), ty) {
					(Val::U, Ty::Int(w)) => s(fresh(*w)),
					(Val::U, Ty::Ptr) => s(fresh(64)),
					(v, _) => v,
				};
				self.set(st, *d, v);
			}
			I::AtomicRmw(d, op, ty, p, v) => {
				let a = self.ptr(st, p)?;
				let w = ew(ty);
				let x = self.scal(st, v, w);
				let old = self.load(st, ty, a)?;
				let o = self.scalv(&old, w);
				let n = match op.as_str() {
					"add" => add(o, x),
					"sub" => sub(o, x),
					"and" => and(o, x),
					"or" => or(o, x),
					"xor" => xor(o, x),
					"xchg" => x,
					"umax" => ite(ult(o, x), x, o),
					"umin" => ite(ult(o, x), o, x),
					_ => return inc(format!("atomicrmw {op}")),
				};
				self.store(st, ty, a, &s(n))?;
				self.set(st, *d, s(o));
			}
			I::CmpXchg(d, ty, p, c, n) => {
				let a = self.ptr(st, p)?;
				let w = ew(ty);
				let (c, n) = (self.scal(st, c, w), self.scal(st, n, w));
				let old = self.load(st, ty, a)?;
				let o = self.scalv(&old, w);
				let e = eq(o, c);
				self.store(st, ty, a, &s(ite(e, n, o)))?;
				self.set(st, *d, Val::A(Rc::new(vec![s(o), s(e)])));
			}
			I::Nop => {}
			I::Unsupported(x) => return inc(format!("unsupported instruction {x}")),
			_ => unreachable!(),
		}
		Ok(())
	}
	/// Symbolic index into a constant table: build a value, do not fork.
	fn table_load(&mut self, st: &mut State, ty: &Ty, t: T) -> R<Option<Val>> {
		let w = match ty {
			Ty::Int(w) if w % 8 == 0 && *w <= 64 => *w,
			_ => return Ok(None),
		};
		let n = (w / 8) as u64;
		let a0 = st.model.eval(t) as u64;
		let Some(o) = self.find(st, a0) else {
			return Ok(None);
		};
		if !o.ro || o.size > 1024 || o.size < n {
			return Ok(None);
		}
		let inb = ule(sub(t, mk_const(o.base as u128, 64)), mk_const((o.size - n) as u128, 64));
		if !self.branch(st, inb)? {
			return Err(End::Violation("memory".into(), "table index out of bounds".into()));
		}
		// value at every offset, runs merged
		let mut runs: Vec<(u64, u128)> = vec![];
		for off in 0..=(o.size - n) {
			let mut v = 0u128;
			for i in 0..n {
				match o.get(off + i) {
					B::C(c) => v |= (c as u128) << (8 * i),
					_ => return Ok(None),
				}
			}
			if n > 1 && (off % n != 0) {
				continue;
			}
			if runs.last().map(|r| r.1) != Some(v) {
				runs.push((off, v));
			}
		}
		if n > 1 {
			let al = sub(t, mk_const(o.base as u128, 64));
			let rem = and(al, mk_const((n - 1) as u128, 64));
			if !(n as u64).is_power_of_two() || as_const(rem) != Some(0) {
				return Ok(None);
			}
		}
		let off = sub(t, mk_const(o.base as u128, 64));
		fn tree(r: &[(u64, u128)], off: T, w: u16) -> T {
			if r.len() == 1 {
				return mk_const(r[0].1, w);
			}
			let m = r.len() / 2;
			let (lo, hi) = (tree(&r[..m], off, w), tree(&r[m..], off, w));
			ite(ult(off, mk_const(r[m].0 as u128, 64)), lo, hi)
		}
		Ok(Some(s(tree(&runs, off, w))))
	}
	fn cast(&mut self, c: Cast, v: &Val, fw: u16, tw: u16) -> R<Val> {
		if fw > 128 || tw > 128 {
			return inc("wide cast");
		}
		let t = match v {
			Val::S(t) => *t,
			_ => {
				if c == Cast::Trunc {
					return Ok(Val::U);
				}
				self.scalv(v, fw)
			}
		};
		Ok(s(match c {
			Cast::Trunc => extract(t, 0, tw),
			Cast::ZExt => {
				if tw < fw {
					extract(t, 0, tw)
				} else {
					zext(t, tw)
				}
			}
			Cast::SExt => sext(t, tw),
			_ => {
				let Some(x) = as_const(t) else {
					return inc("symbolic floating-point conversion");
				};
				let f = |x: u128| -> f64 {
					if fw == 32 {
						f32::from_bits(x as u32) as f64
					} else {
						f64::from_bits(x as u64)
					}
				};
				let out = |r: f64, r32: f32| -> T {
					if tw == 32 {
						mk_const(r32.to_bits() as u128, 32)
					} else {
						mk_const(r.to_bits() as u128, 64)
					}
				};
				match c {
					Cast::UiToFp => out(x as f64, x as f32),
					Cast::SiToFp => out(sx(x, fw) as f64, sx(x, fw) as f32),
					Cast::FpToUi => mk_const(f(x) as u128, tw),
					Cast::FpToSi => mk_const(f(x) as i128 as u128, tw),
					Cast::FpExt | Cast::FpTrunc => out(f(x), f(x) as f32),
					_ => unreachable!(),
				}
			}
		}))
	}

	fn builtin(&mut self, st: &mut State, n: &str, args: &[(Ty, Opd)], ret: &Ty) -> R<Val> {
		macro_rules! a {
			($i:expr) => {{
				let w = ew(&args[$i].0);
				self.scal(st, &args[$i].1, w)
			}};
		}
		macro_rules! c {
			($i:expr, $l:expr) => {{
				let t = a!($i);
				self.concrete(st, t, $l)? as u64
			}};
		}
		if let Some(i) = n.strip_prefix("llvm.") {
			return self.intrinsic(st, i, args, ret);
		}
		Ok(match n {
			"sx_bytes" => {
				let p = c!(0, 1);
				let k = c!(1, 64);
				let o = if k > 0 {
					Some(self.access(st, p, k, true)?)
				} else {
					None
				};
				// deterministic variable reuse along sibling paths keeps the term pool small
				let mut vs = vec![];
				for i in 0..k {
					let idx = st.inputs.len() + i as usize;
					vs.push(self.input_var(idx));
				}
				if let Some(o) = o {
					let off = p - o.base;
					let vs2 = vs.clone();
					self.update(st, o, |o| {
						for (i, v) in vs2.into_iter().enumerate() {
							o.set(off + i as u64, B::P(v, 0));
						}
					});
				}
				st.inputs.extend(vs);
				Val::U
			}
			"sx_pick" => {
				// 0..n, every value explored
				let k = c!(0, 64);
				let mut o = st.clone();
				let idx = st.inputs.len();
				let v = self.input_var(idx);
				if self.known(&o, v).is_none() {
					let cond = ult(v, mk_const(k as u128, 8));
					match self.sat(&o, cond)? {
						None => return Err(End::Infeasible),
						Some(m) => {
							o.model = m;
							self.assume(&mut o, cond);
							*st = o;
						}
					}
				}
				let x = self.concrete(st, v, 256)?;
				st.inputs.push(v);
				s(mk_const(x, 64))
			}
			"sx_concrete" => {
				let t = a!(0);
				s(mk_const(self.concrete(st, t, 300)?, 64))
			}
			"sx_assume" => {
				let t = a!(0);
				match self.known(st, t) {
					Some(1) => {}
					Some(_) => return Err(End::Assumed),
					None => match self.sat(st, t)? {
						None => return Err(End::Assumed),
						Some(m) => {
							st.model = m;
							self.assume(st, t);
						}
					},
				}
				Val::U
			}
			"sx_assert" => {
				let t = a!(0);
				self.st.asserts += 1;
				let msg = self.text(st, &args[1].1, &args[2].1);
				if !self.branch(st, t)? {
					return Err(End::Violation("assert".into(), msg));
				}
				Val::U
			}
			"sx_cover" => {
				let msg = self.text(st, &args[0].1, &args[1].1);
				*self.covers.entry(msg).or_default() += 1;
				Val::U
			}
			"sx_expect" => {
				let msg = self.text(st, &args[0].1, &args[1].1);
				self.covers.entry(msg).or_default();
				Val::U
			}
			"sx_allow_huge" => {
				let t = a!(0);
				st.allow_huge = as_const(t) == Some(1);
				Val::U
			}
			"sx_allow_panic" => {
				let t = a!(0);
				st.allow_panic = as_const(t) == Some(1);
				Val::U
			}
			"sx_observe" => {
				let t = a!(0);
				st.obs.push(t);
				Val::U
			}
			// destructors of thread-local values are never run
			"pthread_key_create" => {
				let p = c!(0, 1);
				self.store(st, &Ty::Int(32), p, &s(mk_const(1, 32)))?;
				s(mk_const(0, 32))
			}
			"pthread_key_delete" | "pthread_setspecific" => s(mk_const(0, 32)),
			// the seed of a randomised hasher: one fixed value stands for all
			"getrandom" => {
				let (p, n) = (c!(0, 1), c!(1, 64));
				for k in 0..n {
					self.store(st, &Ty::Int(8), p + k, &s(mk_const(0x5a, 8)))?;
				}
				s(mk_const(n as u128, 64))
			}
			"malloc" => {
				let t = a!(0);
				s(mk_const(self.alloc(st, t, 16, B::Uninit)? as u128, 64))
			}
			"calloc" => {
				let t = mul(a!(0), a!(1));
				s(mk_const(self.alloc(st, t, 16, B::C(0))? as u128, 64))
			}
			"posix_memalign" => {
				let p = c!(0, 1);
				let al = c!(1, 1);
				let t = a!(2);
				let r = self.alloc(st, t, al, B::Uninit)?;
				self.store(st, &Ty::Ptr, p, &s(mk_const(r as u128, 64)))?;
				s(mk_const(0, 32))
			}
			"aligned_alloc" => {
				let al = c!(0, 1);
				let t = a!(1);
				s(mk_const(self.alloc(st, t, al, B::Uninit)? as u128, 64))
			}
			"realloc" => {
				let p = c!(0, 1);
				let t = a!(1);
				let r = self.alloc(st, t, 16, B::Uninit)?;
				let old = match st.mem.get(&p) {
					Some(o) if o.heap => o.clone(),
					_ => return Err(End::Violation("memory".into(), "realloc of an invalid pointer".into())),
				};
				let mem = Rc::make_mut(&mut st.mem);
				mem.remove(&p);
				let o = Rc::make_mut(mem.get_mut(&r).unwrap());
				if old.fill == B::Uninit {
					o.pages = old.pages.clone();
				} else {
					o.fill = old.fill;
					o.pages = old.pages.clone();
				}
				s(mk_const(r as u128, 64))
			}
			"free" => {
				let p = c!(0, 1);
				self.free(st, p)?;
				Val::U
			}
			"memcmp" | "bcmp" => {
				let k = c!(2, 300);
				if k == 0 {
					return Ok(s(mk_const(0, 32)));
				}
				let (p, q) = (c!(0, 300), c!(1, 300));
				let (x, y) = (self.access(st, p, k, false)?, self.access(st, q, k, false)?);
				let (po, qo) = (p - x.base, q - y.base);
				let mut r = mk_const(0, 32);
				for i in (0..k).rev() {
					let (u, v) = (x.get(po + i), y.get(qo + i));
					let (u, v) = (self.byte_term(u), self.byte_term(v));
					let (u, v) = (self.simp(st, u), self.simp(st, v));
					let ne = if n == "bcmp" {
						mk_const(1, 32)
					} else {
						ite(ult(u, v), mk_const(u32::MAX as u128, 32), mk_const(1, 32))
					};
					r = ite(eq(u, v), r, ne);
				}
				s(r)
			}
			"memcpy" | "memmove" => {
				let k = c!(2, 300);
				if k > 0 {
					let (d, sp) = (c!(0, 300), c!(1, 300));
					self.copy(st, d, sp, k)?;
				}
				self.val(st, &args[0].1)
			}
			_ => return inc(format!("call to external function {n}")),
		})
	}
	fn input_var(&mut self, idx: usize) -> T {
		thread_local! { static V: std::cell::RefCell<Vec<T>> = const { std::cell::RefCell::new(vec![]) } }
		V.with(|v| {
			let mut v = v.borrow_mut();
			while v.len() <= idx {
				v.push(mk_var(8, true));
			}
			v[idx]
		})
	}
	fn text(&mut self, st: &mut State, p: &Opd, n: &Opd) -> String {
		let a = [(Ty::Ptr, p.clone()), (Ty::Int(64), n.clone())];
		self.panic_msg(st, &a)
	}

	fn intrinsic(&mut self, st: &mut State, i: &str, args: &[(Ty, Opd)], ret: &Ty) -> R<Val> {
		let base = i.split('.').collect::<Vec<_>>();
		match base[0] {
			"memcpy" | "memmove" => {
				let t = self.scal(st, &args[2].1, 64);
				let t = if width(t) < 64 {
					zext(t, 64)
				} else {
					t
				};
				if self.known(st, t).is_none() {
					let (pd, ps) = (self.scal(st, &args[0].1, 64), self.scal(st, &args[1].1, 64));
					if let (Some(d), Some(sp)) = (self.known(st, pd), self.known(st, ps)) {
						if self.copy_tail(st, d as u64, sp as u64, t)? {
							return Ok(Val::U);
						}
					}
				}
				let k = self.concrete(st, t, 300)? as u64;
				if k > 0 {
					let d = self.ptr(st, &args[0].1)?;
					let sp = self.ptr(st, &args[1].1)?;
					self.copy(st, d, sp, k)?;
				}
				return Ok(Val::U);
			}
			"memset" => {
				let t = self.scal(st, &args[2].1, 64);
				// clearing a fresh buffer of symbolic length: everything behind it is indeterminate as well
				if self.known(st, t).is_none() {
					let d = self.ptr(st, &args[0].1)?;
					if let (Some(o), Val::S(bt)) = (self.find(st, d), self.val(st, &args[1].1)) {
						let off = d - o.base;
						let pg = off / PAGE as u64;
						let fresh_tail = o.heap && o.ssize.is_some() && o.fill == B::Uninit && off < (1 << 16)
							&& o.pages.range(pg..).all(|(k, p)| (0..PAGE as u64).all(|i| k * (PAGE as u64) + i < off || p[i as usize] == B::Uninit));
						if fresh_tail {
							let room = sub(self.simp(st, o.ssize.unwrap()), mk_const(off as u128, 64));
							self.access(st, d, 0, true)?;
							if !self.branch(st, ule(t, room))? {
								return Err(End::Violation("memory".into(), "memset past the end of an allocation".into()));
							}
							let b = byte_of(bt, 0);
							self.update(st, o, |o| {
								for k in 0..=pg {
									let p = o.pages.entry(k).or_insert_with(|| Rc::new([B::Uninit; PAGE]));
									let p = Rc::make_mut(p);
									for i in 0..PAGE as u64 {
										if k * (PAGE as u64) + i >= off {
											p[i as usize] = b;
										}
									}
								}
								for (k, p) in o.pages.iter_mut() {
									if *k > pg {
										*Rc::make_mut(p) = [b; PAGE];
									}
								}
								o.fill = b;
							});
							return Ok(Val::U);
						}
					}
				}
				let k = self.concrete(st, t, 300)? as u64;
				if k > 0 {
					// anywhere in a buffer that holds nothing but this byte
					let pt = self.scal(st, &args[0].1, 64);
					if self.known(st, pt).is_none() {
						let d = st.model.eval(pt) as u64;
						if let (Some(o), Val::S(bt)) = (self.find(st, d), self.val(st, &args[1].1)) {
							let b = byte_of(bt, 0);
							if o.heap && o.ssize.is_some() && o.fill == b && o.pages.values().all(|p| p.iter().all(|x| *x == b)) {
								let sz = self.simp(st, o.ssize.unwrap());
								let end = add(sub(pt, mk_const(o.base as u128, 64)), mk_const(k as u128, 64));
								let inside = and(and(ule(mk_const(o.base as u128, 64), pt), ule(pt, mk_const((o.base + o.size) as u128, 64))), ule(end, sz));
								if self.branch(st, inside)? {
									return Ok(Val::U);
								}
							}
						}
					}
					let d = self.ptr(st, &args[0].1)?;
					let o = self.access(st, d, k, true)?;
					if k > 1 << 22 {
						// filling a table that large: same treatment as a request for it
						if st.allow_huge {
							return Err(End::Huge);
						}
						return inc("memset larger than 4 MiB");
					}
					let b = match self.val(st, &args[1].1) {
						Val::S(t) => byte_of(t, 0),
						_ => B::Uninit,
					};
					let off = d - o.base;
					self.update(st, o, |o| {
						let full = Rc::new([b; PAGE]);
						let mut i = 0;
						while i < k {
							let p = off + i;
							if p % PAGE as u64 == 0 && k - i >= PAGE as u64 && b != o.fill {
								o.pages.insert(p / PAGE as u64, full.clone());
								i += PAGE as u64;
							} else {
								o.set(p, b);
								i += 1;
							}
						}
					});
				}
				return Ok(Val::U);
			}
			"trap" | "debugtrap" | "ubsantrap" => return Err(End::Violation("panic".into(), "trap".into())),
			"threadlocal" => return Ok(self.val(st, &args[0].1)),
			"is" if i.starts_with("is.constant") => return Ok(s(fls())),
			"x86" => return Ok(Val::U),
			"load" => {
				let p = self.ptr(st, &args[0].1)?;
				let o = self.scal(st, &args[1].1, 64);
				let o = self.concrete(st, o, 300)? as u64;
				let v = self.load(st, &Ty::Int(32), p.wrapping_add(o))?;
				let t = self.scalv(&v, 32);
				return Ok(s(add(mk_const(p as u128, 64), sext(t, 64))));
			}
			"vector" => {
				// vector.reduce.<op>
				let (n, e) = match &args[0].0 {
					Ty::Vec(n, e) => (*n, e.clone()),
					_ => return inc(format!("intrinsic {i}")),
				};
				let v = self.val(st, &args[0].1);
				let vs = self.elems(&v, n);
				let w = ew(&e);
				let mut acc = self.scalv(&vs[0], w);
				for x in &vs[1..] {
					let x = self.scalv(x, w);
					acc = match base[2] {
						"or" => or(acc, x),
						"and" => and(acc, x),
						"xor" => xor(acc, x),
						"add" => add(acc, x),
						"mul" => mul(acc, x),
						"umax" => ite(ult(acc, x), x, acc),
						"umin" => ite(ult(acc, x), acc, x),
						"smax" => ite(slt(acc, x), x, acc),
						"smin" => ite(slt(acc, x), acc, x),
						_ => return inc(format!("intrinsic {i}")),
					};
				}
				return Ok(s(acc));
			}
			_ => {}
		}
		// element-wise over vectors
		if let Some(Ty::Vec(n, e)) = args.first().map(|x| x.0.clone()) {
			let mut cols: Vec<Vec<Val>> = vec![];
			for (t, o) in args {
				let v = self.val(st, o);
				match t {
					Ty::Vec(..) => cols.push(self.elems(&v, n)),
					_ => cols.push(vec![v; n as usize]),
				}
			}
			let rt = match ret {
				Ty::Vec(_, e) => (**e).clone(),
				_ => return inc(format!("intrinsic {i}")),
			};
			let w = ew(&e);
			let mut out = vec![];
			for k in 0..n as usize {
				let mut xs = vec![];
				for c in &cols {
					xs.push(self.scalv(&c[k], w));
				}
				out.push(self.intr_scalar(i, &xs, &rt)?);
			}
			return Ok(Val::A(Rc::new(out)));
		}
		let mut xs = vec![];
		for (t, o) in args {
			let w = ew(t);
			xs.push(self.scal(st, o, w));
		}
		self.intr_scalar(i, &xs, ret)
	}
	fn intr_scalar(&mut self, i: &str, x: &[T], ret: &Ty) -> R<Val> {
		let w = x.first().map(|t| width(*t)).unwrap_or(1);
		let k = |v: u128| mk_const(v, w);
		let pair = |v: T, o: T| Ok(Val::A(Rc::new(vec![s(v), s(o)])));
		if i.contains("with.overflow") {
			let (a, b) = (x[0], x[1]);
			return match &i[..4] {
				"uadd" => {
					let r = add(a, b);
					pair(r, ult(r, a))
				}
				"usub" => pair(sub(a, b), ult(a, b)),
				"umul" => {
					let r = mul(a, b);
					let (c, v) = if as_const(b).is_some() {
						(as_const(b), a)
					} else {
						(as_const(a), b)
					};
					let o = match c {
						Some(0) => fls(),
						Some(c) => ult(mk_const(mask(w) / c, w), v),
						None if w <= 64 => {
							let p = mul(zext(a, 2 * w), zext(b, 2 * w));
							not(eq(extract(p, w, w), mk_const(0, w)))
						}
						None => return inc("128-bit symbolic multiplication"),
					};
					pair(r, o)
				}
				"sadd" => {
					let r = add(a, b);
					let (sa, sb, sr) = (extract(a, w - 1, 1), extract(b, w - 1, 1), extract(r, w - 1, 1));
					pair(r, and(eq(sa, sb), not(eq(sa, sr))))
				}
				"ssub" => {
					let r = sub(a, b);
					let (sa, sb, sr) = (extract(a, w - 1, 1), extract(b, w - 1, 1), extract(r, w - 1, 1));
					pair(r, and(not(eq(sa, sb)), not(eq(sa, sr))))
				}
				"smul" if w <= 64 => {
					let p = mul(sext(a, 2 * w), sext(b, 2 * w));
					let r = extract(p, 0, w);
					pair(r, not(eq(sext(r, 2 * w), p)))
				}
				_ => inc(format!("intrinsic {i}")),
			};
		}
		let f = |p: &str| i.starts_with(p);
		let r = if f("umax") {
			ite(ult(x[0], x[1]), x[1], x[0])
		} else if f("umin") {
			ite(ult(x[0], x[1]), x[0], x[1])
		} else if f("smax") {
			ite(slt(x[0], x[1]), x[1], x[0])
		} else if f("smin") {
			ite(slt(x[0], x[1]), x[0], x[1])
		} else if f("abs") {
			ite(slt(x[0], k(0)), sub(k(0), x[0]), x[0])
		} else if f("usub.sat") {
			ite(ult(x[0], x[1]), k(0), sub(x[0], x[1]))
		} else if f("uadd.sat") {
			let r = add(x[0], x[1]);
			ite(ult(r, x[0]), k(mask(w)), r)
		} else if f("fshl") || f("fshr") {
			let (a, b) = (x[0], x[1]);
			match as_const(x[2]) {
				Some(c) => {
					let c = (c % w as u128) as u16;
					let c = if f("fshr") {
						if c == 0 {
							return Ok(s(b));
						}
						w - c
					} else {
						c
					};
					if c == 0 {
						a
					} else {
						concat(extract(a, 0, w - c), extract(b, w - c, c))
					}
				}
				None => {
					let sh = urem(x[2], k(w as u128));
					let inv = sub(k(w as u128), sh);
					if f("fshl") {
						or(shl(a, sh), lshr(b, inv))
					} else {
						ite(eq(sh, k(0)), b, or(shl(a, inv), lshr(b, sh)))
					}
				}
			}
		} else if f("bswap") {
			let mut r = extract(x[0], 0, 8);
			for b in 1..w / 8 {
				r = concat(r, extract(x[0], b * 8, 8));
			}
			r
		} else if f("bitreverse") {
			let mut r = extract(x[0], 0, 1);
			for b in 1..w {
				r = concat(r, extract(x[0], b, 1));
			}
			r
		} else if f("ctpop") {
			let mut r = k(0);
			for b in 0..w {
				r = add(r, zext(extract(x[0], b, 1), w));
			}
			r
		} else if f("ctlz") {
			let mut r = k(w as u128);
			for b in 0..w {
				r = ite(extract(x[0], b, 1), k((w - 1 - b) as u128), r);
			}
			r
		} else if f("cttz") {
			let mut r = k(w as u128);
			for b in (0..w).rev() {
				r = ite(extract(x[0], b, 1), k(b as u128), r);
			}
			r
		} else if f("ucmp") || f("scmp") {
			let rw = ew(ret);
			let lt = if f("ucmp") {
				ult(x[0], x[1])
			} else {
				slt(x[0], x[1])
			};
			ite(lt, mk_const(mask(rw), rw), ite(eq(x[0], x[1]), mk_const(0, rw), mk_const(1, rw)))
		} else if f("expect") || f("ssa.copy") || f("ptrmask") && false {
			x[0]
		} else if f("ptrmask") {
			and(x[0], x[1])
		} else if f("fabs") {
			and(x[0], k(mask(w) >> 1))
		} else if f("copysign") {
			or(and(x[0], k(mask(w) >> 1)), and(x[1], k(1 << (w - 1))))
		} else if f("stacksave") {
			mk_const(0, 64)
		} else if f("stackrestore") {
			return Ok(Val::U);
		} else {
			return inc(format!("intrinsic llvm.{i}"));
		};
		Ok(s(r))
	}
}

fn split(c: T, out: &mut Vec<T>) {
	let n = node(c);
	match n.k {
		K::And => {
			split(n.a, out);
			split(n.b, out);
		}
		K::Not if node(n.a).k == K::Or => {
			let m = node(n.a);
			split(not(m.a), out);
			split(not(m.b), out);
		}
		_ => out.push(c),
	}
}
fn byte_of(t: T, i: u8) -> B {
	if let Some(c) = as_const(t) {
		return B::C((c >> (8 * i as u32)) as u8);
	}
	let e = extract(t, i as u16 * 8, 8);
	if let Some(c) = as_const(e) {
		return B::C(c as u8);
	}
	B::P(t, i)
}
fn ew(t: &Ty) -> u16 {
	match t {
		Ty::Int(w) | Ty::Float(w) => *w,
		_ => 64,
	}
}
fn insert(ty: &Ty, v: Val, x: Val, ix: &[u32]) -> Val {
	if ix.is_empty() {
		return x;
	}
	let (n, et) = match ty {
		Ty::Struct(f, _) => (f.len(), f[ix[0] as usize].clone()),
		Ty::Arr(n, e) => (*n as usize, (**e).clone()),
		_ => (0, Ty::Other),
	};
	let mut vs = match &v {
		Val::A(a) => a.as_ref().clone(),
		_ => vec![Val::U; n],
	};
	let old = vs[ix[0] as usize].clone();
	vs[ix[0] as usize] = insert(&et, old, x, &ix[1..]);
	Val::A(Rc::new(vs))
}
fn fcmp(p: &str, a: T, b: T) -> R<T> {
	let w = width(a);
	let m = match w {
		32 => 23,
		64 => 52,
		_ => return inc("fcmp width"),
	};
	let nan = |x: T| {
		let e = extract(x, m, w - 1 - m);
		and(eq(e, mk_const(mask(w - 1 - m), w - 1 - m)), not(eq(extract(x, 0, m), mk_const(0, m))))
	};
	let uno = or(nan(a), nan(b));
	let (ma, mb) = (extract(a, 0, w - 1), extract(b, 0, w - 1));
	let z = mk_const(0, w - 1);
	let zeros = and(eq(ma, z), eq(mb, z));
	let feq = or(eq(a, b), zeros);
	let (sa, sb) = (extract(a, w - 1, 1), extract(b, w - 1, 1));
	// a < b on the ordered values
	let lt = and(not(zeros), ite(sa, ite(sb, ult(mb, ma), tru()), ite(sb, fls(), ult(ma, mb))));
	let gt = and(not(zeros), ite(sb, ite(sa, ult(ma, mb), tru()), ite(sa, fls(), ult(mb, ma))));
	let ord = not(uno);
	Ok(match p {
		"oeq" => and(ord, feq),
		"one" => and(ord, not(feq)),
		"olt" => and(ord, lt),
		"ogt" => and(ord, gt),
		"ole" => and(ord, or(lt, feq)),
		"oge" => and(ord, or(gt, feq)),
		"ord" => ord,
		"uno" => uno,
		"ueq" => or(uno, feq),
		"une" => or(uno, not(feq)),
		"ult" => or(uno, lt),
		"ugt" => or(uno, gt),
		"ule" => or(uno, or(lt, feq)),
		"uge" => or(uno, or(gt, feq)),
		"true" => tru(),
		"false" => fls(),
		_ => return inc("fcmp predicate"),
	})
}
