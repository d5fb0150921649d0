//! Parser for the textual LLVM IR that rustc emits (whole program, after fat LTO).
use crate::term::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
	Void,
	Int(u16),
	Ptr,
	Float(u16),
	Arr(u64, Rc<Ty>),
	Struct(Rc<Vec<Ty>>, bool),
	Vec(u64, Rc<Ty>),
	Other,
}

#[derive(Clone, Debug)]
pub enum Val {
	/// undef / poison / padding
	U,
	S(T),
	A(Rc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum Opd {
	R(u32),
	V(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin {
	Add,
	Sub,
	Mul,
	UDiv,
	URem,
	SDiv,
	SRem,
	Shl,
	LShr,
	AShr,
	And,
	Or,
	Xor,
	FAdd,
	FSub,
	FMul,
	FDiv,
	FRem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
	Eq,
	Ne,
	Ult,
	Ule,
	Ugt,
	Uge,
	Slt,
	Sle,
	Sgt,
	Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
	Trunc,
	ZExt,
	SExt,
	Bit,
	UiToFp,
	SiToFp,
	FpToUi,
	FpToSi,
	FpExt,
	FpTrunc,
}

#[derive(Clone, Debug)]
pub enum I {
	Bin(u32, Bin, Ty, Opd, Opd),
	ICmp(u32, Pred, Opd, Opd),
	FCmp(u32, String, Ty, Opd, Opd),
	FNeg(u32, Ty, Opd),
	Cast(u32, Cast, Ty, Opd, Ty),
	Load(u32, Ty, Opd),
	Store(Ty, Opd, Opd),
	Gep(u32, Opd, Vec<(Opd, u64)>, u64),
	Alloca(u32, u64, Opd, u64),
	Br(u32),
	CondBr(Opd, u32, u32),
	Switch(Opd, u32, Vec<(u128, u32)>),
	Select(u32, Opd, Ty, Opd, Opd),
	ExtractValue(u32, Opd, Vec<u32>),
	InsertValue(u32, Ty, Opd, Opd, Vec<u32>),
	ExtractElem(u32, Ty, Opd, Opd),
	InsertElem(u32, Ty, Opd, Opd, Opd),
	Shuffle(u32, Ty, Opd, Opd, Opd),
	Call {
		dst: Option<u32>,
		callee: Opd,
		name: Option<Rc<str>>,
		args: Vec<(Ty, Opd)>,
		ret: Ty,
		normal: Option<u32>,
	},
	Ret(Option<Opd>),
	Unreachable,
	Freeze(u32, Ty, Opd),
	AtomicRmw(u32, String, Ty, Opd, Opd),
	CmpXchg(u32, Ty, Opd, Opd, Opd),
	Nop,
	Unsupported(String),
}

pub struct Block {
	pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
	pub ins: Vec<I>,
}
pub struct Func {
	pub name: String,
	pub params: Vec<u32>,
	pub blocks: Vec<Block>,
	pub nregs: u32,
	pub reg_names: Vec<String>,
}

pub struct Global {
	pub name: String,
	pub addr: u64,
	pub size: u64,
	pub ty: Ty,
	pub constant: bool,
	pub init: Option<(usize, usize)>,
}

pub struct Module {
	pub text: &'static str,
	pub named: HashMap<String, Ty>,
	pub fn_text: HashMap<String, (usize, usize)>,
	pub fn_addr: HashMap<String, u64>,
	pub addr_fn: HashMap<u64, String>,
	pub globals: Vec<Global>,
	pub gindex: HashMap<String, usize>,
	pub alias: HashMap<String, String>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok<'a> {
	Id(&'a str),
	Loc(&'a str),
	Glob(&'a str),
	Num(&'a str),
	Str(Vec<u8>),
	QStr(&'a str),
	P(u8),
	Meta(&'a str),
	Attr,
	Eof,
}

pub struct Lex<'a> {
	s: &'a [u8],
	src: &'a str,
	pub i: usize,
	end: usize,
}

fn idc(c: u8) -> bool {
	c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lex<'a> {
	pub fn new(src: &'a str, i: usize, end: usize) -> Self {
		Lex {
			s: src.as_bytes(),
			src,
			i,
			end,
		}
	}
	fn ws(&mut self) {
		while self.i < self.end {
			let c = self.s[self.i];
			if c == b';' {
				while self.i < self.end && self.s[self.i] != b'\n' {
					self.i += 1;
				}
			} else if c == b' ' || c == b'\t' || c == b'\n' || c == b'\r' {
				self.i += 1;
			} else {
				break;
			}
		}
	}
	pub fn peek(&mut self) -> Tok<'a> {
		let k = self.i;
		let t = self.next();
		self.i = k;
		t
	}
	fn quoted(&mut self) -> &'a str {
		// at opening quote
		self.i += 1;
		let st = self.i;
		while self.s[self.i] != b'"' {
			self.i += 1;
		}
		let r = &self.src[st..self.i];
		self.i += 1;
		r
	}
	pub fn next(&mut self) -> Tok<'a> {
		self.ws();
		if self.i >= self.end {
			return Tok::Eof;
		}
		let c = self.s[self.i];
		match c {
			b'%' | b'@' => {
				self.i += 1;
				let n = if self.s[self.i] == b'"' {
					self.quoted()
				} else {
					let st = self.i;
					while self.i < self.end && idc(self.s[self.i]) {
						self.i += 1;
					}
					&self.src[st..self.i]
				};
				if c == b'%' {
					Tok::Loc(n)
				} else {
					Tok::Glob(n)
				}
			}
			b'!' => {
				self.i += 1;
				let st = self.i;
				while self.i < self.end && idc(self.s[self.i]) {
					self.i += 1;
				}
				Tok::Meta(&self.src[st..self.i])
			}
			b'#' => {
				self.i += 1;
				while self.i < self.end && self.s[self.i].is_ascii_digit() {
					self.i += 1;
				}
				Tok::Attr
			}
			b'"' => Tok::QStr(self.quoted()),
			b'c' if self.s.get(self.i + 1) == Some(&b'"') => {
				self.i += 1;
				let q = self.quoted().as_bytes();
				let mut v = vec![];
				let mut k = 0;
				while k < q.len() {
					if q[k] == b'\\' {
						if q[k + 1] == b'\\' {
							v.push(b'\\');
							k += 2;
						} else {
							let h = std::str::from_utf8(&q[k + 1..k + 3]).unwrap();
							v.push(u8::from_str_radix(h, 16).unwrap());
							k += 3;
						}
					} else {
						v.push(q[k]);
						k += 1;
					}
				}
				Tok::Str(v)
			}
			b'0'..=b'9' | b'-' => {
				let st = self.i;
				self.i += 1;
				while self.i < self.end && (idc(self.s[self.i]) || self.s[self.i] == b'+') {
					self.i += 1;
				}
				Tok::Num(&self.src[st..self.i])
			}
			c if idc(c) => {
				let st = self.i;
				while self.i < self.end && idc(self.s[self.i]) {
					self.i += 1;
				}
				Tok::Id(&self.src[st..self.i])
			}
			_ => {
				self.i += 1;
				Tok::P(c)
			}
		}
	}
	pub fn eat(&mut self, c: u8) -> bool {
		if self.peek() == Tok::P(c) {
			self.next();
			true
		} else {
			false
		}
	}
	pub fn expect(&mut self, c: u8) {
		let t = self.next();
		if t != Tok::P(c) {
			panic!("expected {:?} got {:?} near {:?}", c as char, t, &self.src[self.i.saturating_sub(80)..(self.i + 80).min(self.end)]);
		}
	}
	pub fn eat_id(&mut self, s: &str) -> bool {
		if self.peek() == Tok::Id(s) {
			self.next();
			true
		} else {
			false
		}
	}
	fn skip_parens(&mut self) {
		self.expect(b'(');
		let mut d = 1;
		while d > 0 {
			match self.next() {
				Tok::P(b'(') => d += 1,
				Tok::P(b')') => d -= 1,
				Tok::Eof => panic!("eof in parens"),
				_ => {}
			}
		}
	}
}

fn int_ty(s: &str) -> Option<u16> {
	let r = s.strip_prefix('i')?;
	if r.is_empty() || !r.bytes().all(|c| c.is_ascii_digit()) {
		return None;
	}
	r.parse::<u32>().ok().map(|v| v.min(60000) as u16)
}

fn is_ty(t: &Tok) -> bool {
	match t {
		Tok::Id(s) => matches!(*s, "ptr" | "void" | "float" | "double" | "half" | "fp128" | "x86_fp80" | "bfloat" | "metadata" | "label" | "token") || int_ty(s).is_some(),
		Tok::P(b'{') | Tok::P(b'[') | Tok::P(b'<') => true,
		Tok::Loc(_) => true,
		_ => false,
	}
}

impl Module {
	pub fn size(&self, t: &Ty) -> u64 {
		match t {
			Ty::Void | Ty::Other => 0,
			Ty::Int(w) => {
				let b = (*w as u64).div_ceil(8);
				let p = b.next_power_of_two();
				if p > 16 {
					b.div_ceil(16) * 16
				} else {
					p
				}
			}
			Ty::Ptr => 8,
			Ty::Float(w) => *w as u64 / 8,
			Ty::Arr(n, e) => n * self.size(e),
			Ty::Vec(n, e) => {
				let bits = match &**e {
					Ty::Int(w) => *w as u64,
					x => self.size(x) * 8,
				};
				(n * bits).div_ceil(8).next_power_of_two()
			}
			Ty::Struct(f, packed) => {
				let mut o = 0u64;
				for x in f.iter() {
					if !packed {
						o = o.next_multiple_of(self.align(x));
					}
					o += self.size(x);
				}
				if !packed {
					o = o.next_multiple_of(self.align(t));
				}
				o
			}
		}
	}
	pub fn align(&self, t: &Ty) -> u64 {
		match t {
			Ty::Void | Ty::Other => 1,
			Ty::Int(_) => self.size(t).min(16),
			Ty::Ptr => 8,
			Ty::Float(w) => *w as u64 / 8,
			Ty::Arr(_, e) => self.align(e),
			Ty::Vec(..) => self.size(t).min(32).max(1),
			Ty::Struct(f, packed) => {
				if *packed {
					1
				} else {
					f.iter().map(|x| self.align(x)).max().unwrap_or(1)
				}
			}
		}
	}
	pub fn field_off(&self, f: &[Ty], packed: bool, n: usize) -> u64 {
		let mut o = 0u64;
		for (i, x) in f.iter().enumerate() {
			if !packed {
				o = o.next_multiple_of(self.align(x));
			}
			if i == n {
				return o;
			}
			o += self.size(x);
		}
		panic!("field index")
	}

	pub fn parse_ty(&self, l: &mut Lex) -> Ty {
		let t = match l.next() {
			Tok::Id("void") => Ty::Void,
			Tok::Id("ptr") => {
				if l.eat_id("addrspace") {
					l.skip_parens();
				}
				Ty::Ptr
			}
			Tok::Id("half") => Ty::Float(16),
			Tok::Id("float") => Ty::Float(32),
			Tok::Id("double") => Ty::Float(64),
			Tok::Id("fp128") => Ty::Float(128),
			Tok::Id("metadata") | Tok::Id("label") | Tok::Id("token") | Tok::Id("x86_fp80") | Tok::Id("bfloat") => Ty::Other,
			Tok::Id("opaque") => Ty::Other,
			Tok::Id(s) => match int_ty(s) {
				Some(w) => Ty::Int(w),
				None => panic!("type? {s} near {:?}", &l.src[l.i.saturating_sub(100)..(l.i + 60).min(l.end)]),
			},
			Tok::Loc(n) => self.named.get(n).cloned().unwrap_or(Ty::Other),
			Tok::P(b'[') => {
				let n = match l.next() {
					Tok::Num(n) => n.parse().unwrap(),
					t => panic!("array len {t:?}"),
				};
				l.next(); // x
				let e = self.parse_ty(l);
				l.expect(b']');
				Ty::Arr(n, Rc::new(e))
			}
			Tok::P(b'{') => self.struct_body(l, false),
			Tok::P(b'<') => {
				if l.eat(b'{') {
					let t = self.struct_body(l, true);
					l.expect(b'>');
					t
				} else {
					let n = match l.next() {
						Tok::Num(n) => n.parse().unwrap(),
						t => panic!("vec len {t:?}"),
					};
					l.next();
					let e = self.parse_ty(l);
					l.expect(b'>');
					Ty::Vec(n, Rc::new(e))
				}
			}
			t => panic!("type? {t:?} near {:?}", &l.src[l.i.saturating_sub(100)..(l.i + 60).min(l.end)]),
		};
		t
	}
	fn struct_body(&self, l: &mut Lex, packed: bool) -> Ty {
		let mut v = vec![];
		if !l.eat(b'}') {
			loop {
				v.push(self.parse_ty(l));
				if l.eat(b'}') {
					break;
				}
				l.expect(b',');
			}
		}
		Ty::Struct(Rc::new(v), packed)
	}
	fn skip_attrs(&self, l: &mut Lex) {
		loop {
			match l.peek() {
				Tok::Id(w) => {
					let t = Tok::Id(w);
					if is_ty(&t) {
						return;
					}
					if matches!(
						w,
						"true" | "false" | "null" | "undef" | "poison" | "none" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "sext" | "sub" | "add" | "mul" | "xor" | "splat" | "asm" | "addrspacecast" | "dso_local_equivalent" | "no_cfi" | "blockaddress"
					) {
						return;
					}
					l.next();
					if w == "align" {
						if let Tok::Num(_) = l.peek() {
							l.next();
							continue;
						}
					}
					if l.peek() == Tok::P(b'(') {
						l.skip_parens();
					}
				}
				Tok::Attr => {
					l.next();
				}
				Tok::QStr(_) => {
					l.next();
					if l.eat(b'=') {
						l.next();
					}
				}
				_ => return,
			}
		}
	}

	pub fn load(text: &'static str) -> Module {
		let mut m = Module {
			text,
			named: HashMap::new(),
			fn_text: HashMap::new(),
			fn_addr: HashMap::new(),
			addr_fn: HashMap::new(),
			globals: vec![],
			gindex: HashMap::new(),
			alias: HashMap::new(),
		};
		mk_const(0, 1);
		// pass 1: named types, function extents
		let mut pos = 0;
		let mut gl: Vec<(usize, usize)> = vec![];
		let mut types = vec![];
		let mut nfn = 0u64;
		let b = text.as_bytes();
		while pos < b.len() {
			let e = text[pos..].find('\n').map(|x| pos + x).unwrap_or(b.len());
			let line = &text[pos..e];
			let mut next = e + 1;
			if line.starts_with('%') {
				types.push((pos, e));
			} else if line.starts_with('@') {
				gl.push((pos, e));
			} else if line.starts_with("define ") || line.starts_with("declare ") {
				let at = line.find('@').unwrap();
				let mut l = Lex::new(text, pos + at, e);
				let name = match l.next() {
					Tok::Glob(n) => n.to_string(),
					t => panic!("{t:?}"),
				};
				let addr = 0x1000_0000 + nfn * 16;
				nfn += 1;
				m.fn_addr.insert(name.clone(), addr);
				m.addr_fn.insert(addr, name.clone());
				if line.starts_with("define") {
					let fe = text[pos..].find("\n}\n").map(|x| pos + x + 2).unwrap();
					m.fn_text.insert(name, (pos, fe));
					next = fe + 1;
				}
			}
			pos = next;
		}
		// named types may refer to each other: iterate to a fixpoint
		for _ in 0..4 {
			for &(s, e) in &types {
				let mut l = Lex::new(text, s, e);
				let n = match l.next() {
					Tok::Loc(n) => n.to_string(),
					_ => continue,
				};
				l.next();
				if !l.eat_id("type") {
					continue;
				}
				let t = m.parse_ty(&mut l);
				m.named.insert(n, t);
			}
		}
		let mut addr = 0x1_0000_0000u64;
		for (s, e) in gl {
			let mut l = Lex::new(text, s, e);
			let name = match l.next() {
				Tok::Glob(n) => n.to_string(),
				_ => continue,
			};
			l.expect(b'=');
			let mut constant = false;
			let mut external = false;
			let mut alias = false;
			loop {
				match l.next() {
					Tok::Id("constant") => {
						constant = true;
						break;
					}
					Tok::Id("global") => break,
					Tok::Id("external") | Tok::Id("extern_weak") => external = true,
					Tok::Id("alias") | Tok::Id("ifunc") => {
						alias = true;
						break;
					}
					Tok::Id(_) => {
						if l.peek() == Tok::P(b'(') {
							l.skip_parens();
						}
					}
					Tok::Eof => break,
					_ => {}
				}
			}
			if alias {
				m.parse_ty(&mut l);
				if l.peek() == Tok::P(b'(') {
					l.skip_parens();
				}
				l.expect(b',');
				l.next();
				if let Tok::Glob(t) = l.next() {
					m.alias.insert(name, t.to_string());
				}
				continue;
			}
			let ty = m.parse_ty(&mut l);
			let size = m.size(&ty);
			addr = addr.next_multiple_of(64);
			let init = if external {
				None
			} else {
				Some((l.i, e))
			};
			m.gindex.insert(name.clone(), m.globals.len());
			m.globals.push(Global {
				name,
				addr,
				size,
				ty,
				constant,
				init,
			});
			addr += size + 64;
		}
		m
	}

	fn glob_addr(&self, n: &str) -> u64 {
		if let Some(&i) = self.gindex.get(n) {
			return self.globals[i].addr;
		}
		if let Some(&a) = self.fn_addr.get(n) {
			return a;
		}
		if let Some(t) = self.alias.get(n) {
			return self.glob_addr(t);
		}
		panic!("unknown global {n}")
	}

	fn zero(&self, t: &Ty) -> Val {
		match t {
			Ty::Int(w) if *w <= 128 => Val::S(mk_const(0, *w)),
			Ty::Int(_) => Val::U,
			Ty::Ptr => Val::S(mk_const(0, 64)),
			Ty::Float(w) => Val::S(mk_const(0, *w)),
			Ty::Arr(n, e) | Ty::Vec(n, e) => {
				let z = self.zero(e);
				Val::A(Rc::new(vec![z; *n as usize]))
			}
			Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(|x| self.zero(x)).collect())),
			_ => Val::U,
		}
	}

	fn fconst(s: &str, w: u16) -> Val {
		let bits = if let Some(h) = s.strip_prefix("0x") {
			if let Some(h) = h.strip_prefix('H') {
				u64::from_str_radix(h, 16).unwrap() as u128
			} else {
				let d = u64::from_str_radix(h, 16).unwrap();
				if w == 32 {
					(f64::from_bits(d) as f32).to_bits() as u128
				} else {
					d as u128
				}
			}
		} else {
			let f: f64 = s.parse().unwrap();
			if w == 32 {
				(f as f32).to_bits() as u128
			} else {
				f.to_bits() as u128
			}
		};
		Val::S(mk_const(bits, w))
	}

	fn cval(&self, v: &Val) -> u128 {
		match v {
			Val::S(t) => as_const(*t).expect("constant expression"),
			_ => 0,
		}
	}

	pub fn value(&self, l: &mut Lex, ty: &Ty, regs: &mut dyn FnMut(&str) -> u32) -> Opd {
		let t = l.next();
		let v = match t {
			Tok::Loc(n) => return Opd::R(regs(n)),
			Tok::Glob(n) => Val::S(mk_const(self.glob_addr(n) as u128, 64)),
			Tok::Num(s) => match ty {
				Ty::Int(w) if *w > 128 => Val::U,
				Ty::Int(w) => {
					let v = if let Some(n) = s.strip_prefix('-') {
						(n.parse::<u128>().unwrap()).wrapping_neg()
					} else {
						s.parse::<u128>().unwrap()
					};
					Val::S(mk_const(v, *w))
				}
				Ty::Float(w) => Self::fconst(s, *w),
				_ => panic!("number of type {ty:?}"),
			},
			Tok::Id("true") => Val::S(tru()),
			Tok::Id("false") => Val::S(fls()),
			Tok::Id("null") => Val::S(mk_const(0, 64)),
			Tok::Id("undef") | Tok::Id("poison") | Tok::Id("none") => Val::U,
			Tok::Id("zeroinitializer") => self.zero(ty),
			Tok::Id("splat") => {
				l.expect(b'(');
				let et = self.parse_ty(l);
				let e = match self.value(l, &et, regs) {
					Opd::V(v) => v,
					_ => panic!("splat"),
				};
				l.expect(b')');
				let n = match ty {
					Ty::Vec(n, _) => *n,
					_ => panic!("splat type"),
				};
				Val::A(Rc::new(vec![e; n as usize]))
			}
			Tok::Id("asm") => Val::U,
			Tok::Id(op @ ("inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "addrspacecast")) => {
				l.expect(b'(');
				let ft = self.parse_ty(l);
				let x = self.value(l, &ft, regs);
				l.eat_id("to");
				let tt = self.parse_ty(l);
				l.expect(b')');
				let x = match x {
					Opd::V(v) => v,
					_ => panic!("const expr"),
				};
				match (op, &tt) {
					("bitcast", _) => x,
					(_, Ty::Ptr) => Val::S(mk_const(self.cval(&x), 64)),
					(_, Ty::Int(w)) => Val::S(mk_const(self.cval(&x), *w)),
					_ => panic!("const cast"),
				}
			}
			Tok::Id(op @ ("add" | "sub" | "mul" | "xor")) => {
				while let Tok::Id(_) = l.peek() {
					l.next();
				}
				l.expect(b'(');
				let ft = self.parse_ty(l);
				let x = self.value(l, &ft, regs);
				l.expect(b',');
				let ft2 = self.parse_ty(l);
				let y = self.value(l, &ft2, regs);
				l.expect(b')');
				let (x, y) = match (x, y) {
					(Opd::V(x), Opd::V(y)) => (self.cval(&x), self.cval(&y)),
					_ => panic!("const expr"),
				};
				let w = match ft {
					Ty::Int(w) => w,
					_ => 64,
				};
				Val::S(mk_const(
					match op {
						"add" => x.wrapping_add(y),
						"sub" => x.wrapping_sub(y),
						"mul" => x.wrapping_mul(y),
						_ => x ^ y,
					},
					w,
				))
			}
			Tok::Id("getelementptr") => {
				while let Tok::Id(w) = l.peek() {
					l.next();
					if w == "inrange" {
						l.skip_parens();
					}
				}
				l.expect(b'(');
				let et = self.parse_ty(l);
				l.expect(b',');
				let bt = self.parse_ty(l);
				let base = self.value(l, &bt, regs);
				let (base, idx, off) = self.gep_indices(l, et, base, regs);
				l.expect(b')');
				let mut a = match base {
					Opd::V(v) => self.cval(&v) as u64,
					_ => panic!("const gep"),
				};
				for (o, s) in idx {
					match o {
						Opd::V(v) => a = a.wrapping_add((self.cval(&v) as u64).wrapping_mul(s)),
						_ => panic!("const gep"),
					}
				}
				Val::S(mk_const(a.wrapping_add(off) as u128, 64))
			}
			Tok::Str(s) => Val::A(Rc::new(s.iter().map(|&b| Val::S(mk_const(b as u128, 8))).collect())),
			Tok::P(b'{') => {
				let v = self.agg(l, b'}', regs);
				Val::A(Rc::new(v))
			}
			Tok::P(b'[') => {
				let v = self.agg(l, b']', regs);
				Val::A(Rc::new(v))
			}
			Tok::P(b'<') => {
				if l.eat(b'{') {
					let v = self.agg(l, b'}', regs);
					l.expect(b'>');
					Val::A(Rc::new(v))
				} else {
					let v = self.agg(l, b'>', regs);
					Val::A(Rc::new(v))
				}
			}
			Tok::Meta(_) => {
				// metadata operand: skip a trailing (…) if any
				if l.peek() == Tok::P(b'(') {
					l.skip_parens();
				}
				Val::U
			}
			t => panic!("value? {t:?} type {ty:?} near {:?}", &l.src[l.i.saturating_sub(200)..(l.i + 60).min(l.end)]),
		};
		Opd::V(v)
	}
	fn agg(&self, l: &mut Lex, close: u8, regs: &mut dyn FnMut(&str) -> u32) -> Vec<Val> {
		let mut v = vec![];
		if l.eat(close) {
			return v;
		}
		loop {
			let t = self.parse_ty(l);
			match self.value(l, &t, regs) {
				Opd::V(x) => v.push(x),
				_ => panic!("register in constant"),
			}
			if l.eat(close) {
				return v;
			}
			l.expect(b',');
		}
	}
	/// parses `, ity idx` repetitions
	fn gep_indices(&self, l: &mut Lex, et: Ty, base: Opd, regs: &mut dyn FnMut(&str) -> u32) -> (Opd, Vec<(Opd, u64)>, u64) {
		let mut idx = vec![];
		let mut off = 0u64;
		let mut cur = et;
		let mut first = true;
		loop {
			let k = l.i;
			if !l.eat(b',') {
				break;
			}
			if !is_ty(&l.peek()) {
				l.i = k;
				break;
			}
			let it = self.parse_ty(l);
			let v = self.value(l, &it, regs);
			let stride;
			if first {
				stride = self.size(&cur);
				first = false;
			} else {
				match cur.clone() {
					Ty::Arr(_, e) | Ty::Vec(_, e) => {
						stride = self.size(&e);
						cur = (*e).clone();
					}
					Ty::Struct(f, p) => {
						let n = match &v {
							Opd::V(x) => self.cval(x) as usize,
							_ => panic!("struct gep"),
						};
						off = off.wrapping_add(self.field_off(&f, p, n));
						cur = f[n].clone();
						continue;
					}
					t => panic!("gep into {t:?}"),
				}
			}
			match &v {
				Opd::V(Val::S(t)) if as_const(*t).is_some() => {
					let c = sx(as_const(*t).unwrap(), width(*t)) as i64 as u64;
					off = off.wrapping_add(c.wrapping_mul(stride));
				}
				_ => idx.push((v, stride)),
			}
		}
		(base, idx, off)
	}

	pub fn global_init(&self, g: &Global) -> Val {
		match g.init {
			None => Val::U,
			Some((s, e)) => {
				let mut l = Lex::new(self.text, s, e);
				match self.value(&mut l, &g.ty, &mut |n| panic!("register {n} in global")) {
					Opd::V(v) => v,
					_ => unreachable!(),
				}
			}
		}
	}

	pub fn parse_fn(&self, name: &str) -> Func {
		let (s, e) = self.fn_text[name];
		let text = self.text;
		let mut regs: HashMap<String, u32> = HashMap::new();
		let mut reg_names: Vec<String> = vec![];
		let mut getr = |n: &str| -> u32 {
			if let Some(&r) = regs.get(n) {
				return r;
			}
			let r = reg_names.len() as u32;
			regs.insert(n.to_string(), r);
			reg_names.push(n.to_string());
			r
		};
		// header
		let hl = text[s..e].find(" {\n").map(|x| s + x).unwrap();
		let at = text[s..hl].find('@').unwrap() + s;
		let mut l = Lex::new(text, at, hl);
		l.next();
		l.expect(b'(');
		let mut params = vec![];
		let mut unnamed = 0;
		if !l.eat(b')') {
			loop {
				if l.peek() == Tok::Id("...") {
					l.next();
				} else {
					self.parse_ty(&mut l);
					self.skip_attrs(&mut l);
					match l.next() {
						Tok::Loc(n) => {
							if n.bytes().all(|c| c.is_ascii_digit()) {
								unnamed += 1;
							}
							params.push(getr(n))
						}
						t => panic!("param {t:?}"),
					}
				}
				if l.eat(b')') {
					break;
				}
				l.expect(b',');
			}
		}
		// logical lines
		let body_start = hl + 3;
		let mut lines: Vec<(usize, usize)> = vec![];
		let mut pos = body_start;
		while pos < e {
			let le = text[pos..e].find('\n').map(|x| pos + x).unwrap_or(e);
			let line = &text[pos..le];
			let tr = line.trim_start();
			if tr.is_empty() || tr.starts_with(';') || tr == "}" || tr.starts_with("#dbg") {
				pos = le + 1;
				continue;
			}
			let cont = tr.starts_with("to label") || tr.starts_with("cleanup") || tr.starts_with("catch ") || tr.starts_with("filter ");
			if cont {
				lines.last_mut().unwrap().1 = le;
			} else if line.starts_with("    ") && lines.last().map(|&(a, b)| {
				let t = &text[a..b];
				t.trim_start().starts_with("switch ") && !t.contains(']')
			}) == Some(true)
				|| (tr == "]" || tr.starts_with("],"))
			{
				lines.last_mut().unwrap().1 = le;
			} else {
				lines.push((pos, le));
			}
			pos = le + 1;
		}
		// block labels
		let mut labels: HashMap<String, u32> = HashMap::new();
		let mut chunks: Vec<Vec<(usize, usize)>> = vec![];
		for &(a, b) in &lines {
			let t = &text[a..b];
			if !t.starts_with(' ') {
				let lab = if let Some(r) = t.strip_prefix('"') {
					r[..r.find('"').unwrap()].to_string()
				} else {
					t[..t.find(':').unwrap()].to_string()
				};
				labels.insert(lab, chunks.len() as u32);
				chunks.push(vec![]);
			} else {
				if chunks.is_empty() {
					labels.insert(unnamed.to_string(), 0);
					chunks.push(vec![]);
				}
				chunks.last_mut().unwrap().push((a, b));
			}
		}
		let mut blocks = vec![];
		for ch in chunks {
			let mut blk = Block {
				phis: vec![],
				ins: vec![],
			};
			for (a, b) in ch {
				self.parse_ins(text, a, b, &labels, &mut getr, &mut blk);
			}
			blocks.push(blk);
		}
		Func {
			name: name.to_string(),
			params,
			blocks,
			nregs: reg_names.len() as u32,
			reg_names,
		}
	}

	fn label(&self, l: &mut Lex, labels: &HashMap<String, u32>) -> u32 {
		assert!(l.eat_id("label"));
		match l.next() {
			Tok::Loc(n) => labels[n],
			t => panic!("label {t:?}"),
		}
	}

	fn parse_ins(&self, text: &str, a: usize, b: usize, labels: &HashMap<String, u32>, getr: &mut dyn FnMut(&str) -> u32, blk: &mut Block) {
		let mut l = Lex::new(text, a, b);
		let mut dst = None;
		if let Tok::Loc(n) = l.peek() {
			l.next();
			l.expect(b'=');
			dst = Some(getr(n));
		}
		let op = match l.next() {
			Tok::Id(s) => s,
			t => panic!("op {t:?} in {}", &text[a..b]),
		};
		let d = dst.unwrap_or(u32::MAX);
		let ins = match op {
			"add" | "sub" | "mul" | "udiv" | "urem" | "sdiv" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
				let o = match op {
					"add" => Bin::Add,
					"sub" => Bin::Sub,
					"mul" => Bin::Mul,
					"udiv" => Bin::UDiv,
					"urem" => Bin::URem,
					"sdiv" => Bin::SDiv,
					"srem" => Bin::SRem,
					"shl" => Bin::Shl,
					"lshr" => Bin::LShr,
					"ashr" => Bin::AShr,
					"and" => Bin::And,
					"or" => Bin::Or,
					"xor" => Bin::Xor,
					"fadd" => Bin::FAdd,
					"fsub" => Bin::FSub,
					"fmul" => Bin::FMul,
					"fdiv" => Bin::FDiv,
					_ => Bin::FRem,
				};
				self.skip_attrs(&mut l);
				let t = self.parse_ty(&mut l);
				let x = self.value(&mut l, &t, getr);
				l.expect(b',');
				let y = self.value(&mut l, &t, getr);
				I::Bin(d, o, t, x, y)
			}
			"icmp" => {
				l.eat_id("samesign");
				let p = match l.next() {
					Tok::Id(s) => match s {
						"eq" => Pred::Eq,
						"ne" => Pred::Ne,
						"ult" => Pred::Ult,
						"ule" => Pred::Ule,
						"ugt" => Pred::Ugt,
						"uge" => Pred::Uge,
						"slt" => Pred::Slt,
						"sle" => Pred::Sle,
						"sgt" => Pred::Sgt,
						"sge" => Pred::Sge,
						_ => panic!("pred {s}"),
					},
					t => panic!("pred {t:?}"),
				};
				let t = self.parse_ty(&mut l);
				let x = self.value(&mut l, &t, getr);
				l.expect(b',');
				let y = self.value(&mut l, &t, getr);
				I::ICmp(d, p, x, y)
			}
			"fcmp" => {
				let mut p = "";
				while let Tok::Id(s) = l.peek() {
					if is_ty(&Tok::Id(s)) {
						break;
					}
					p = s;
					l.next();
				}
				let t = self.parse_ty(&mut l);
				let x = self.value(&mut l, &t, getr);
				l.expect(b',');
				let y = self.value(&mut l, &t, getr);
				I::FCmp(d, p.to_string(), t, x, y)
			}
			"fneg" => {
				self.skip_attrs(&mut l);
				let t = self.parse_ty(&mut l);
				let x = self.value(&mut l, &t, getr);
				I::FNeg(d, t, x)
			}
			"trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" | "ptrtoaddr" => {
				while let Tok::Id(s) = l.peek() {
					if is_ty(&Tok::Id(s)) {
						break;
					}
					l.next();
				}
				let t = self.parse_ty(&mut l);
				let x = self.value(&mut l, &t, getr);
				l.eat_id("to");
				let t2 = self.parse_ty(&mut l);
				let c = match op {
					"trunc" => Cast::Trunc,
					"zext" => Cast::ZExt,
					"sext" => Cast::SExt,
					"ptrtoint" | "ptrtoaddr" => match t2 {
						Ty::Int(w) if w < 64 => Cast::Trunc,
						_ => Cast::ZExt,
					},
					"inttoptr" => match t {
						Ty::Int(w) if w > 64 => Cast::Trunc,
						_ => Cast::ZExt,
					},
					"bitcast" => Cast::Bit,
					"uitofp" => Cast::UiToFp,
					"sitofp" => Cast::SiToFp,
					"fptoui" => Cast::FpToUi,
					"fptosi" => Cast::FpToSi,
					"fpext" => Cast::FpExt,
					_ => Cast::FpTrunc,
				};
				I::Cast(d, c, t, x, t2)
			}
			"load" => {
				l.eat_id("atomic");
				l.eat_id("volatile");
				let t = self.parse_ty(&mut l);
				l.expect(b',');
				let pt = self.parse_ty(&mut l);
				let p = self.value(&mut l, &pt, getr);
				I::Load(d, t, p)
			}
			"store" => {
				l.eat_id("atomic");
				l.eat_id("volatile");
				let t = self.parse_ty(&mut l);
				let v = self.value(&mut l, &t, getr);
				l.expect(b',');
				let pt = self.parse_ty(&mut l);
				let p = self.value(&mut l, &pt, getr);
				I::Store(t, v, p)
			}
			"getelementptr" => {
				while let Tok::Id(s) = l.peek() {
					if is_ty(&Tok::Id(s)) {
						break;
					}
					l.next();
					if l.peek() == Tok::P(b'(') {
						l.skip_parens();
					}
				}
				let et = self.parse_ty(&mut l);
				l.expect(b',');
				let bt = self.parse_ty(&mut l);
				let base = self.value(&mut l, &bt, getr);
				let (base, idx, off) = self.gep_indices(&mut l, et, base, getr);
				I::Gep(d, base, idx, off)
			}
			"alloca" => {
				l.eat_id("inalloca");
				let t = self.parse_ty(&mut l);
				let mut n = Opd::V(Val::S(mk_const(1, 64)));
				let mut al = 16;
				while l.eat(b',') {
					if l.eat_id("align") {
						if let Tok::Num(x) = l.next() {
							al = x.parse().unwrap();
						}
					} else if is_ty(&l.peek()) {
						let it = self.parse_ty(&mut l);
						n = self.value(&mut l, &it, getr);
					} else {
						break;
					}
				}
				I::Alloca(d, self.size(&t), n, al)
			}
			"br" => {
				if l.peek() == Tok::Id("label") {
					I::Br(self.label(&mut l, labels))
				} else {
					self.parse_ty(&mut l);
					let c = self.value(&mut l, &Ty::Int(1), getr);
					l.expect(b',');
					let x = self.label(&mut l, labels);
					l.expect(b',');
					let y = self.label(&mut l, labels);
					I::CondBr(c, x, y)
				}
			}
			"switch" => {
				let t = self.parse_ty(&mut l);
				let v = self.value(&mut l, &t, getr);
				l.expect(b',');
				let def = self.label(&mut l, labels);
				l.expect(b'[');
				let mut cs = vec![];
				while !l.eat(b']') {
					let ct = self.parse_ty(&mut l);
					let c = match self.value(&mut l, &ct, getr) {
						Opd::V(v) => self.cval(&v),
						_ => panic!(),
					};
					l.expect(b',');
					cs.push((c, self.label(&mut l, labels)));
				}
				I::Switch(v, def, cs)
			}
			"select" => {
				while let Tok::Id(s) = l.peek() {
					if is_ty(&Tok::Id(s)) {
						break;
					}
					l.next();
				}
				let ct = self.parse_ty(&mut l);
				let c = self.value(&mut l, &ct, getr);
				l.expect(b',');
				let t = self.parse_ty(&mut l);
				let x = self.value(&mut l, &t, getr);
				l.expect(b',');
				let t2 = self.parse_ty(&mut l);
				let y = self.value(&mut l, &t2, getr);
				I::Select(d, c, t, x, y)
			}
			"phi" => {
				while let Tok::Id(s) = l.peek() {
					if is_ty(&Tok::Id(s)) {
						break;
					}
					l.next();
				}
				let t = self.parse_ty(&mut l);
				let mut inc = vec![];
				loop {
					l.expect(b'[');
					let v = self.value(&mut l, &t, getr);
					l.expect(b',');
					let bb = match l.next() {
						Tok::Loc(n) => *labels.get(n).unwrap_or_else(|| panic!("no label {n}")),
						t => panic!("{t:?}"),
					};
					l.expect(b']');
					inc.push((bb, v));
					let k = l.i;
					if !l.eat(b',') {
						break;
					}
					if l.peek() != Tok::P(b'[') {
						l.i = k;
						break;
					}
				}
				blk.phis.push((d, inc));
				return;
			}
			"extractvalue" => {
				let t = self.parse_ty(&mut l);
				let v = self.value(&mut l, &t, getr);
				I::ExtractValue(d, v, idx_list(&mut l))
			}
			"insertvalue" => {
				let t = self.parse_ty(&mut l);
				let v = self.value(&mut l, &t, getr);
				l.expect(b',');
				let t2 = self.parse_ty(&mut l);
				let x = self.value(&mut l, &t2, getr);
				I::InsertValue(d, t, v, x, idx_list(&mut l))
			}
			"extractelement" => {
				let t = self.parse_ty(&mut l);
				let v = self.value(&mut l, &t, getr);
				l.expect(b',');
				let it = self.parse_ty(&mut l);
				let i = self.value(&mut l, &it, getr);
				I::ExtractElem(d, t, v, i)
			}
			"insertelement" => {
				let t = self.parse_ty(&mut l);
				let v = self.value(&mut l, &t, getr);
				l.expect(b',');
				let et = self.parse_ty(&mut l);
				let x = self.value(&mut l, &et, getr);
				l.expect(b',');
				let it = self.parse_ty(&mut l);
				let i = self.value(&mut l, &it, getr);
				I::InsertElem(d, t, v, x, i)
			}
			"shufflevector" => {
				let t = self.parse_ty(&mut l);
				let v = self.value(&mut l, &t, getr);
				l.expect(b',');
				let t2 = self.parse_ty(&mut l);
				let x = self.value(&mut l, &t2, getr);
				l.expect(b',');
				let mt = self.parse_ty(&mut l);
				let m = self.value(&mut l, &mt, getr);
				I::Shuffle(d, t, v, x, m)
			}
			"tail" | "musttail" | "notail" | "call" | "invoke" => {
				if op != "call" && op != "invoke" {
					assert!(l.eat_id("call"));
				}
				self.skip_attrs(&mut l);
				// skip_attrs stops at the return type
				let ret = self.parse_ty(&mut l);
				// a function type?
				if l.peek() == Tok::P(b'(') {
					l.skip_parens();
				}
				self.skip_attrs(&mut l);
				let mut name = None;
				if l.peek() == Tok::Id("asm") {
					blk.ins.push(I::Unsupported("inline asm".into()));
					return;
				}
				let callee = match l.peek() {
					Tok::Glob(n) => {
						l.next();
						let n = self.alias.get(n).map(|s| s.as_str()).unwrap_or(n);
						name = Some(Rc::from(n));
						Opd::V(Val::U)
					}
					_ => self.value(&mut l, &Ty::Ptr, getr),
				};
				if let Some(n) = &name {
					let n: &str = n;
					if n.starts_with("llvm.lifetime") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg") || n.starts_with("llvm.assume") || n.starts_with("llvm.invariant") || n.starts_with("llvm.prefetch") {
						return;
					}
				}
				l.expect(b'(');
				let mut args = vec![];
				if !l.eat(b')') {
					loop {
						let t = self.parse_ty(&mut l);
						self.skip_attrs(&mut l);
						let v = self.value(&mut l, &t, getr);
						args.push((t, v));
						if l.eat(b')') {
							break;
						}
						l.expect(b',');
					}
				}
				let mut normal = None;
				if op == "invoke" {
					loop {
						match l.next() {
							Tok::Id("to") => {
								normal = Some(self.label(&mut l, labels));
								break;
							}
							Tok::Eof => panic!("invoke"),
							_ => {}
						}
					}
				}
				I::Call {
					dst,
					callee,
					name,
					args,
					ret,
					normal,
				}
			}
			"ret" => {
				let t = self.parse_ty(&mut l);
				if t == Ty::Void {
					I::Ret(None)
				} else {
					I::Ret(Some(self.value(&mut l, &t, getr)))
				}
			}
			"unreachable" => I::Unreachable,
			"freeze" => {
				let t = self.parse_ty(&mut l);
				let v = self.value(&mut l, &t, getr);
				I::Freeze(d, t, v)
			}
			"atomicrmw" => {
				l.eat_id("volatile");
				let o = match l.next() {
					Tok::Id(s) => s.to_string(),
					t => panic!("{t:?}"),
				};
				let pt = self.parse_ty(&mut l);
				let p = self.value(&mut l, &pt, getr);
				l.expect(b',');
				let t = self.parse_ty(&mut l);
				let v = self.value(&mut l, &t, getr);
				I::AtomicRmw(d, o, t, p, v)
			}
			"cmpxchg" => {
				l.eat_id("weak");
				l.eat_id("volatile");
				let pt = self.parse_ty(&mut l);
				let p = self.value(&mut l, &pt, getr);
				l.expect(b',');
				let t = self.parse_ty(&mut l);
				let c = self.value(&mut l, &t, getr);
				l.expect(b',');
				let t2 = self.parse_ty(&mut l);
				let n = self.value(&mut l, &t2, getr);
				I::CmpXchg(d, t, p, c, n)
			}
			"fence" => I::Nop,
			_ => I::Unsupported(op.to_string()),
		};
		blk.ins.push(ins);
	}
}

fn idx_list(l: &mut Lex) -> Vec<u32> {
	let mut v = vec![];
	loop {
		let k = l.i;
		if !l.eat(b',') {
			break;
		}
		match l.next() {
			Tok::Num(n) => v.push(n.parse().unwrap()),
			_ => {
				l.i = k;
				break;
			}
		}
	}
	v
}
