//! Hash-consed bit-vector terms (width 1..=128; width 1 doubles as Boolean).
use std::collections::HashMap;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum K {
	Const(u128),
	Var(u32),
	Not,
	And,
	Or,
	Xor,
	Add,
	Sub,
	Mul,
	UDiv,
	URem,
	SDiv,
	SRem,
	Shl,
	LShr,
	AShr,
	Concat,
	Extract(u16),
	SExt,
	Ite,
	Eq,
	Ult,
	Slt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
	pub k: K,
	pub w: u16,
	pub a: T,
	pub b: T,
	pub c: T,
}

pub struct Ctx {
	pub nodes: Vec<Node>,
	pub sup: Vec<u32>,
	map: HashMap<Node, T>,
	/// interned support sets, as bit masks over variables
	pub sets: Vec<Vec<u64>>,
	set_map: HashMap<Vec<u64>, u32>,
	union_memo: HashMap<(u32, u32), u32>,
	pub nvars: u32,
	pub var_term: Vec<T>,
	pub var_input: Vec<bool>,
}

static mut CTX: Option<Ctx> = None;

#[allow(static_mut_refs)]
pub fn cx() -> &'static mut Ctx {
	// single-threaded engine
	unsafe {
		if CTX.is_none() {
			CTX = Some(Ctx {
				nodes: vec![],
				sup: vec![],
				map: HashMap::new(),
				sets: vec![vec![]],
				set_map: HashMap::from([(vec![], 0)]),
				union_memo: HashMap::new(),
				nvars: 0,
				var_term: vec![],
				var_input: vec![],
			});
		}
		CTX.as_mut().unwrap()
	}
}

#[inline]
pub fn mask(w: u16) -> u128 {
	if w >= 128 {
		u128::MAX
	} else {
		(1u128 << w) - 1
	}
}
#[inline]
pub fn node(t: T) -> Node {
	cx().nodes[t as usize]
}
#[inline]
pub fn width(t: T) -> u16 {
	cx().nodes[t as usize].w
}
#[inline]
pub fn as_const(t: T) -> Option<u128> {
	match cx().nodes[t as usize].k {
		K::Const(v) => Some(v),
		_ => None,
	}
}

impl Ctx {
	fn intern_set(&mut self, v: Vec<u64>) -> u32 {
		if let Some(&i) = self.set_map.get(&v) {
			return i;
		}
		let i = self.sets.len() as u32;
		self.sets.push(v.clone());
		self.set_map.insert(v, i);
		i
	}
	pub fn union(&mut self, a: u32, b: u32) -> u32 {
		if a == b || b == 0 {
			return a;
		}
		if a == 0 {
			return b;
		}
		let key = (a.min(b), a.max(b));
		if let Some(&r) = self.union_memo.get(&key) {
			return r;
		}
		let (x, y) = (&self.sets[a as usize], &self.sets[b as usize]);
		let n = x.len().max(y.len());
		let mut v = vec![0u64; n];
		for (i, o) in v.iter_mut().enumerate() {
			*o = x.get(i).copied().unwrap_or(0) | y.get(i).copied().unwrap_or(0);
		}
		let r = self.intern_set(v);
		self.union_memo.insert(key, r);
		r
	}
	fn raw(&mut self, n: Node) -> T {
		if let Some(&t) = self.map.get(&n) {
			return t;
		}
		let t = self.nodes.len() as T;
		let s = match n.k {
			K::Const(_) => 0,
			K::Var(i) => {
				let mut v = vec![0u64; (i / 64 + 1) as usize];
				v[(i / 64) as usize] |= 1 << (i % 64);
				self.intern_set(v)
			}
			_ => {
				let mut s = self.sup[n.a as usize];
				let sb = self.sup[n.b as usize];
				s = self.union(s, sb);
				let sc = self.sup[n.c as usize];
				self.union(s, sc)
			}
		};
		self.nodes.push(n);
		self.sup.push(s);
		self.map.insert(n, t);
		t
	}
}

pub fn intersects(a: u32, b: u32) -> bool {
	let c = cx();
	c.sets[a as usize].iter().zip(c.sets[b as usize].iter()).any(|(x, y)| x & y != 0)
}
pub fn support(t: T) -> u32 {
	cx().sup[t as usize]
}

pub fn mk_const(v: u128, w: u16) -> T {
	assert!(w >= 1 && w <= 128, "unsupported width {w}");
	cx().raw(Node {
		k: K::Const(v & mask(w)),
		w,
		a: 0,
		b: 0,
		c: 0,
	})
}
pub fn mk_var(w: u16, input: bool) -> T {
	let c = cx();
	if c.nodes.is_empty() {
		mk_const(0, 1);
	}
	let i = c.nvars;
	c.nvars += 1;
	let t = c.raw(Node {
		k: K::Var(i),
		w,
		a: 0,
		b: 0,
		c: 0,
	});
	c.var_term.push(t);
	c.var_input.push(input);
	t
}
fn un(k: K, w: u16, a: T) -> T {
	cx().raw(Node {
		k,
		w,
		a,
		b: a,
		c: a,
	})
}
fn bi(k: K, w: u16, a: T, b: T) -> T {
	cx().raw(Node {
		k,
		w,
		a,
		b,
		c: a,
	})
}

pub fn tru() -> T {
	mk_const(1, 1)
}
pub fn fls() -> T {
	mk_const(0, 1)
}
pub fn mk_bool(b: bool) -> T {
	mk_const(b as u128, 1)
}

pub fn sx(v: u128, w: u16) -> i128 {
	if w >= 128 {
		v as i128
	} else {
		((v << (128 - w)) as i128) >> (128 - w)
	}
}

pub fn not(a: T) -> T {
	let n = node(a);
	match n.k {
		K::Const(v) => mk_const(!v, n.w),
		K::Not => n.a,
		K::Ite if as_const(n.b).is_some() && as_const(n.c).is_some() => ite(n.a, not(n.b), not(n.c)),
		_ => un(K::Not, n.w, a),
	}
}
/// pieces of a concat, least significant first, when the term is a concat tree
fn pieces(t: T, out: &mut Vec<T>) {
	let n = node(t);
	if n.k == K::Concat {
		pieces(n.b, out);
		pieces(n.a, out);
	} else {
		out.push(t);
	}
}
/// Try to merge two terms whose non-zero pieces never overlap (or/add/xor of disjoint fields).
fn disjoint_merge(a: T, b: T) -> Option<T> {
	let (na, nb) = (node(a), node(b));
	if na.k != K::Concat && nb.k != K::Concat {
		return None;
	}
	let mut pa = vec![];
	let mut pb = vec![];
	pieces(a, &mut pa);
	pieces(b, &mut pb);
	// cut both at the union of their boundaries
	let (mut i, mut j) = (0, 0);
	let (mut oi, mut oj) = (0u16, 0u16);
	let mut out: Option<T> = None;
	while i < pa.len() {
		let (wa, wb) = (width(pa[i]) - oi, width(pb[j]) - oj);
		let w = wa.min(wb);
		let za = as_const(pa[i]).map(|v| (v >> oi) & mask(w) == 0).unwrap_or(false);
		let zb = as_const(pb[j]).map(|v| (v >> oj) & mask(w) == 0).unwrap_or(false);
		let p = if za {
			extract(pb[j], oj, w)
		} else if zb {
			extract(pa[i], oi, w)
		} else {
			return None;
		};
		out = Some(match out {
			None => p,
			Some(o) => concat(p, o),
		});
		oi += w;
		oj += w;
		if oi == width(pa[i]) {
			i += 1;
			oi = 0;
		}
		if oj == width(pb[j]) {
			j += 1;
			oj = 0;
		}
	}
	out
}

pub fn and(a: T, b: T) -> T {
	let (a, b) = if as_const(a).is_some() || (as_const(b).is_none() && a > b) {
		(b, a)
	} else {
		(a, b)
	};
	let w = width(a);
	if a == b {
		return a;
	}
	if let Some(c) = as_const(b) {
		if c == 0 {
			return b;
		}
		if c == mask(w) {
			return a;
		}
		if let Some(x) = as_const(a) {
			return mk_const(x & c, w);
		}
		// contiguous mask: cut out the field
		let lo = c.trailing_zeros() as u16;
		let field = c >> lo;
		if field & (field.wrapping_add(1)) == 0 {
			let fw = (128 - field.leading_zeros()) as u16;
			let mut r = extract(a, lo, fw);
			if lo > 0 {
				r = concat(r, mk_const(0, lo));
			}
			return zext(r, w);
		}
		if node(a).k == K::Ite {
			let n = node(a);
			if as_const(n.b).is_some() && as_const(n.c).is_some() {
				return ite(n.a, and(n.b, b), and(n.c, b));
			}
		}
	}
	if w == 1 && (not(a) == b) {
		return fls();
	}
	let na = node(a);
	let nb = node(b);
	if na.k == K::Concat && nb.k == K::Concat && width(na.b) == width(nb.b) {
		return concat(and(na.a, nb.a), and(na.b, nb.b));
	}
	bi(K::And, w, a, b)
}
pub fn or(a: T, b: T) -> T {
	let (a, b) = if as_const(a).is_some() || (as_const(b).is_none() && a > b) {
		(b, a)
	} else {
		(a, b)
	};
	let w = width(a);
	if a == b {
		return a;
	}
	if let Some(c) = as_const(b) {
		if c == 0 {
			return a;
		}
		if c == mask(w) {
			return b;
		}
		if let Some(x) = as_const(a) {
			return mk_const(x | c, w);
		}
	}
	if w == 1 {
		if not(a) == b {
			return tru();
		}
	} else if let Some(m) = disjoint_merge(a, b) {
		return m;
	}
	let na = node(a);
	let nb = node(b);
	if na.k == K::Concat && nb.k == K::Concat && width(na.b) == width(nb.b) {
		return concat(or(na.a, nb.a), or(na.b, nb.b));
	}
	bi(K::Or, w, a, b)
}
pub fn xor(a: T, b: T) -> T {
	let (a, b) = if as_const(a).is_some() || (as_const(b).is_none() && a > b) {
		(b, a)
	} else {
		(a, b)
	};
	let w = width(a);
	if a == b {
		return mk_const(0, w);
	}
	if let Some(c) = as_const(b) {
		if c == 0 {
			return a;
		}
		if c == mask(w) {
			return not(a);
		}
		if let Some(x) = as_const(a) {
			return mk_const(x ^ c, w);
		}
	}
	if w > 1 {
		if let Some(m) = disjoint_merge(a, b) {
			return m;
		}
	}
	bi(K::Xor, w, a, b)
}
pub fn add(a: T, b: T) -> T {
	let (a, b) = if as_const(a).is_some() || (as_const(b).is_none() && a > b) {
		(b, a)
	} else {
		(a, b)
	};
	let w = width(a);
	if w == 1 {
		return xor(a, b);
	}
	if let Some(c) = as_const(b) {
		if c == 0 {
			return a;
		}
		if let Some(x) = as_const(a) {
			return mk_const(x.wrapping_add(c), w);
		}
		let n = node(a);
		if n.k == K::Add {
			if let Some(c2) = as_const(n.b) {
				return add(n.a, mk_const(c.wrapping_add(c2), w));
			}
		}
		if n.k == K::Ite && as_const(n.b).is_some() && as_const(n.c).is_some() {
			return ite(n.a, add(n.b, b), add(n.c, b));
		}
	}
	if let Some(m) = disjoint_merge(a, b) {
		return m;
	}
	let (na, nb) = (node(a), node(b));
	if na.k == K::Add && as_const(na.b).is_some() {
		return add(add(na.a, b), na.b);
	}
	if nb.k == K::Add && as_const(nb.b).is_some() {
		return add(add(a, nb.a), nb.b);
	}
	// x + (y - x) = y
	if nb.k == K::Sub && nb.b == a {
		return nb.a;
	}
	if na.k == K::Sub && na.b == b {
		return na.a;
	}
	bi(K::Add, w, a, b)
}
pub fn sub(a: T, b: T) -> T {
	let w = width(a);
	if a == b {
		return mk_const(0, w);
	}
	if w == 1 {
		return xor(a, b);
	}
	if let Some(c) = as_const(b) {
		return add(a, mk_const((!c).wrapping_add(1), w));
	}
	let (na, nb) = (node(a), node(b));
	if na.k == K::Add && as_const(na.b).is_some() {
		if nb.k == K::Add && as_const(nb.b).is_some() {
			return add(sub(na.a, nb.a), sub(na.b, nb.b));
		}
		return add(sub(na.a, b), na.b);
	}
	if nb.k == K::Add && as_const(nb.b).is_some() {
		return add(sub(a, nb.a), sub(mk_const(0, w), nb.b));
	}
	if na.k == K::Add {
		if na.a == b {
			return na.b;
		}
		if na.b == b {
			return na.a;
		}
	}
	bi(K::Sub, w, a, b)
}
pub fn mul(a: T, b: T) -> T {
	let (a, b) = if as_const(a).is_some() {
		(b, a)
	} else {
		(a, b)
	};
	let w = width(a);
	if let Some(c) = as_const(b) {
		if c == 0 {
			return b;
		}
		if c == 1 {
			return a;
		}
		if let Some(x) = as_const(a) {
			return mk_const(x.wrapping_mul(c), w);
		}
		if c.is_power_of_two() {
			return shl(a, mk_const(c.trailing_zeros() as u128, w));
		}
	}
	bi(K::Mul, w, a, b)
}
pub fn udiv(a: T, b: T) -> T {
	let w = width(a);
	if let Some(c) = as_const(b) {
		if let Some(x) = as_const(a) {
			if c != 0 {
				return mk_const(x / c, w);
			}
		}
		if c.is_power_of_two() {
			return lshr(a, mk_const(c.trailing_zeros() as u128, w));
		}
		// narrow the division when the high part is known zero
		let z = zero_prefix(a);
		if c != 0 && z > 0 && z < w {
			let nw = (w - z).max(128 - c.leading_zeros() as u16);
			if nw < w {
				return zext(udiv(extract(a, 0, nw), mk_const(c, nw)), w);
			}
		}
	}
	bi(K::UDiv, w, a, b)
}
pub fn urem(a: T, b: T) -> T {
	let w = width(a);
	if let Some(c) = as_const(b) {
		if let Some(x) = as_const(a) {
			if c != 0 {
				return mk_const(x % c, w);
			}
		}
		if c.is_power_of_two() {
			return and(a, mk_const(c - 1, w));
		}
		let z = zero_prefix(a);
		if c != 0 && z > 0 && z < w {
			let nw = (w - z).max(128 - c.leading_zeros() as u16);
			if nw < w {
				return zext(urem(extract(a, 0, nw), mk_const(c, nw)), w);
			}
		}
	}
	bi(K::URem, w, a, b)
}
pub fn sdiv(a: T, b: T) -> T {
	let w = width(a);
	if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
		if y != 0 {
			return mk_const(sx(x, w).wrapping_div(sx(y, w)) as u128, w);
		}
	}
	bi(K::SDiv, w, a, b)
}
pub fn srem(a: T, b: T) -> T {
	let w = width(a);
	if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
		if y != 0 {
			return mk_const(sx(x, w).wrapping_rem(sx(y, w)) as u128, w);
		}
	}
	bi(K::SRem, w, a, b)
}
pub fn zero_prefix(a: T) -> u16 {
	let n = node(a);
	match n.k {
		K::Const(v) => n.w - (128 - v.leading_zeros() as u16).min(n.w),
		K::Concat => {
			let z = zero_prefix(n.a);
			if z == width(n.a) {
				z + zero_prefix(n.b)
			} else {
				z
			}
		}
		K::And => zero_prefix(n.a).max(zero_prefix(n.b)),
		K::Ite => zero_prefix(n.b).min(zero_prefix(n.c)),
		_ => 0,
	}
}
pub fn shl(a: T, b: T) -> T {
	let w = width(a);
	if let Some(c) = as_const(b) {
		if c == 0 {
			return a;
		}
		if c >= w as u128 {
			return mk_const(0, w);
		}
		return concat(extract(a, 0, w - c as u16), mk_const(0, c as u16));
	}
	bi(K::Shl, w, a, b)
}
pub fn lshr(a: T, b: T) -> T {
	let w = width(a);
	if let Some(c) = as_const(b) {
		if c == 0 {
			return a;
		}
		if c >= w as u128 {
			return mk_const(0, w);
		}
		return zext(extract(a, c as u16, w - c as u16), w);
	}
	bi(K::LShr, w, a, b)
}
pub fn ashr(a: T, b: T) -> T {
	let w = width(a);
	if let Some(c) = as_const(b) {
		if c == 0 {
			return a;
		}
		let c = c.min(w as u128 - 1) as u16;
		if let Some(x) = as_const(a) {
			return mk_const((sx(x, w) >> c) as u128, w);
		}
		return sext(extract(a, c, w - c), w);
	}
	bi(K::AShr, w, a, b)
}
/// a is the most significant part
pub fn concat(a: T, b: T) -> T {
	let (na, nb) = (node(a), node(b));
	let w = na.w + nb.w;
	if let (K::Const(x), K::Const(y)) = (na.k, nb.k) {
		return mk_const((x << nb.w) | y, w);
	}
	// adjacent extracts of the same term
	if let (K::Extract(la), K::Extract(lb)) = (na.k, nb.k) {
		if na.a == nb.a && la == lb + nb.w {
			return extract(na.a, lb, w);
		}
	}
	// merge into right neighbour: concat(a, concat(b1, b2)) with a,b1 mergeable
	if nb.k == K::Concat {
		let n1 = node(nb.a);
		let m = match (na.k, n1.k) {
			(K::Const(_), K::Const(_)) => true,
			(K::Extract(la), K::Extract(lb)) => na.a == n1.a && la == lb + n1.w,
			_ => false,
		};
		if m {
			return concat(concat(a, nb.a), nb.b);
		}
	}
	// keep right-associated: concat(concat(x,y),b) = concat(x,concat(y,b))
	if na.k == K::Concat {
		return concat(na.a, concat(na.b, b));
	}
	assert!(w <= 128, "concat too wide");
	bi(K::Concat, w, a, b)
}
pub fn extract(a: T, lo: u16, w: u16) -> T {
	let n = node(a);
	debug_assert!(lo + w <= n.w);
	if lo == 0 && w == n.w {
		return a;
	}
	match n.k {
		K::Const(v) => return mk_const(v >> lo, w),
		K::Extract(l2) => return extract(n.a, l2 + lo, w),
		K::Concat => {
			let wb = width(n.b);
			if lo >= wb {
				return extract(n.a, lo - wb, w);
			}
			if lo + w <= wb {
				return extract(n.b, lo, w);
			}
			return concat(extract(n.a, 0, lo + w - wb), extract(n.b, lo, wb - lo));
		}
		K::SExt => {
			let wi = width(n.a);
			if lo + w <= wi {
				return extract(n.a, lo, w);
			}
			if lo < wi {
				return sext(extract(n.a, lo, wi - lo), w);
			}
			return sext(extract(n.a, wi - 1, 1), w);
		}
		K::Ite => {
			if as_const(n.b).is_some() || as_const(n.c).is_some() {
				return ite(n.a, extract(n.b, lo, w), extract(n.c, lo, w));
			}
		}
		K::And => return and(extract(n.a, lo, w), extract(n.b, lo, w)),
		K::Or => return or(extract(n.a, lo, w), extract(n.b, lo, w)),
		K::Xor => return xor(extract(n.a, lo, w), extract(n.b, lo, w)),
		K::Not => return not(extract(n.a, lo, w)),
		K::Add if lo == 0 => return add(extract(n.a, 0, w), extract(n.b, 0, w)),
		K::Sub if lo == 0 => return sub(extract(n.a, 0, w), extract(n.b, 0, w)),
		K::Mul if lo == 0 => return mul(extract(n.a, 0, w), extract(n.b, 0, w)),
		_ => {}
	}
	un(K::Extract(lo), w, a)
}
pub fn zext(a: T, w: u16) -> T {
	let wa = width(a);
	if wa == w {
		return a;
	}
	concat(mk_const(0, w - wa), a)
}
pub fn sext(a: T, w: u16) -> T {
	let n = node(a);
	if n.w == w {
		return a;
	}
	if let K::Const(v) = n.k {
		return mk_const(sx(v, n.w) as u128, w);
	}
	if n.k == K::SExt {
		return sext(n.a, w);
	}
	if zero_prefix(a) > 0 {
		return zext(a, w);
	}
	un(K::SExt, w, a)
}
pub fn ite(c: T, a: T, b: T) -> T {
	if let Some(v) = as_const(c) {
		return if v == 1 {
			a
		} else {
			b
		};
	}
	if a == b {
		return a;
	}
	let n = node(c);
	if n.k == K::Not {
		return ite(n.a, b, a);
	}
	let w = width(a);
	if w == 1 {
		match (as_const(a), as_const(b)) {
			(Some(1), Some(_)) => return c,
			(Some(_), Some(_)) => return not(c),
			(Some(1), None) => return or(c, b),
			(Some(_), None) => return and(not(c), b),
			(None, Some(1)) => return or(not(c), a),
			(None, Some(_)) => return and(c, a),
			_ => {}
		}
	}
	let (na, nb) = (node(a), node(b));
	if nb.k == K::Ite && nb.a == c {
		return ite(c, a, nb.c);
	}
	if na.k == K::Ite && na.a == c {
		return ite(c, na.b, b);
	}
	// common high/low concat parts
	if na.k == K::Concat && nb.k == K::Concat && width(na.b) == width(nb.b) && (na.a == nb.a || na.b == nb.b) {
		return concat(ite(c, na.a, nb.a), ite(c, na.b, nb.b));
	}
	// zero-prefix narrowing
	if w > 1 {
		let z = zero_prefix(a).min(zero_prefix(b));
		if z > 0 && z < w {
			let r = ite(c, extract(a, 0, w - z), extract(b, 0, w - z));
			return zext(r, w);
		}
	}
	cx().raw(Node {
		k: K::Ite,
		w,
		a: c,
		b: a,
		c: b,
	})
}
pub fn eq(a: T, b: T) -> T {
	if a == b {
		return tru();
	}
	let (a, b) = if as_const(a).is_some() || (as_const(b).is_none() && a > b) {
		(b, a)
	} else {
		(a, b)
	};
	let (na, nb) = (node(a), node(b));
	if let K::Const(c) = nb.k {
		match na.k {
			K::Const(x) => return mk_bool(x == c),
			K::Concat => {
				let wl = width(na.b);
				let hi = eq(na.a, mk_const(c >> wl, na.w - wl));
				if as_const(hi) == Some(0) {
					return hi;
				}
				return and(hi, eq(na.b, mk_const(c, wl)));
			}
			K::Not => return eq(na.a, mk_const(!c, na.w)),
			K::Add => {
				if let Some(c2) = as_const(na.b) {
					return eq(na.a, mk_const(c.wrapping_sub(c2), na.w));
				}
			}
			K::Xor => {
				if let Some(c2) = as_const(na.b) {
					return eq(na.a, mk_const(c ^ c2, na.w));
				}
			}
			K::Sub if c == 0 => return eq(na.a, na.b),
			K::Ite => {
				let (x, y) = (as_const(na.b), as_const(na.c));
				if x.is_some() || y.is_some() {
					return ite(na.a, eq(na.b, b), eq(na.c, b));
				}
			}
			K::SExt => {
				let wi = width(na.a);
				let s = sx(c, na.w);
				if sx(c & mask(wi), wi) != s {
					return fls();
				}
				return eq(na.a, mk_const(c, wi));
			}
			_ => {}
		}
		if na.w == 1 {
			return if c == 1 {
				a
			} else {
				not(a)
			};
		}
	}
	if na.k == K::Concat && nb.k == K::Concat {
		let (wa, wb) = (width(na.b), width(nb.b));
		let w = wa.min(wb);
		let lo = eq(extract(a, 0, w), extract(b, 0, w));
		if as_const(lo) == Some(0) {
			return lo;
		}
		return and(eq(extract(a, w, na.w - w), extract(b, w, na.w - w)), lo);
	}
	if na.w == 1 {
		return not(xor(a, b));
	}
	if na.k == K::Add && nb.k == K::Add && na.b == nb.b {
		return eq(na.a, nb.a);
	}
	bi(K::Eq, 1, a, b)
}
pub fn ult(a: T, b: T) -> T {
	let w = width(a);
	if a == b {
		return fls();
	}
	let (ca, cb) = (as_const(a), as_const(b));
	if let (Some(x), Some(y)) = (ca, cb) {
		return mk_bool(x < y);
	}
	if cb == Some(0) || ca == Some(mask(w)) {
		return fls();
	}
	if cb == Some(1) {
		return eq(a, mk_const(0, w));
	}
	if ca == Some(0) {
		return not(eq(b, a));
	}
	let z = zero_prefix(a).min(zero_prefix(b));
	if z > 0 {
		return ult(extract(a, 0, w - z), extract(b, 0, w - z));
	}
	// a has z zero high bits, b const above the range
	if let Some(y) = cb {
		let za = zero_prefix(a);
		if za > 0 && y > mask(w - za) {
			return tru();
		}
	}
	if let Some(x) = ca {
		let zb = zero_prefix(b);
		if zb > 0 && x >= mask(w - zb) {
			return fls();
		}
	}
	let n = node(a);
	if n.k == K::Ite && cb.is_some() && (as_const(n.b).is_some() || as_const(n.c).is_some()) {
		return ite(n.a, ult(n.b, b), ult(n.c, b));
	}
	let n = node(b);
	if n.k == K::Ite && ca.is_some() && (as_const(n.b).is_some() || as_const(n.c).is_some()) {
		return ite(n.a, ult(a, n.b), ult(a, n.c));
	}
	if w == 1 {
		return and(not(a), b);
	}
	bi(K::Ult, 1, a, b)
}
pub fn ule(a: T, b: T) -> T {
	not(ult(b, a))
}
pub fn slt(a: T, b: T) -> T {
	let w = width(a);
	if a == b {
		return fls();
	}
	if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
		return mk_bool(sx(x, w) < sx(y, w));
	}
	if zero_prefix(a) > 0 && zero_prefix(b) > 0 {
		return ult(a, b);
	}
	if as_const(b) == Some(0) {
		return extract(a, w - 1, 1);
	}
	if as_const(a) == Some(mask(w)) {
		return not(extract(b, w - 1, 1));
	}
	let n = node(a);
	if n.k == K::Ite && as_const(b).is_some() && as_const(n.b).is_some() && as_const(n.c).is_some() {
		return ite(n.a, slt(n.b, b), slt(n.c, b));
	}
	bi(K::Slt, 1, a, b)
}
pub fn sle(a: T, b: T) -> T {
	not(slt(b, a))
}

/// A (partial) assignment of variables; absent variables are zero.
#[derive(Default)]
pub struct Model {
	pub vals: Vec<u128>,
	memo: std::cell::RefCell<HashMap<T, u128>>,
}
impl Model {
	pub fn new(vals: Vec<u128>) -> Self {
		Model {
			vals,
			memo: Default::default(),
		}
	}
	pub fn eval(&self, t: T) -> u128 {
		let n = node(t);
		match n.k {
			K::Const(v) => return v,
			K::Var(i) => return self.vals.get(i as usize).copied().unwrap_or(0) & mask(n.w),
			_ => {}
		}
		if let Some(&v) = self.memo.borrow().get(&t) {
			return v;
		}
		let v = {
			let w = n.w;
			let a = self.eval(n.a);
			let wa = width(n.a);
			match n.k {
				K::Not => !a,
				K::Extract(lo) => a >> lo,
				K::SExt => sx(a, wa) as u128,
				K::Ite => {
					if a == 1 {
						self.eval(n.b)
					} else {
						self.eval(n.c)
					}
				}
				_ => {
					let b = self.eval(n.b);
					match n.k {
						K::And => a & b,
						K::Or => a | b,
						K::Xor => a ^ b,
						K::Add => a.wrapping_add(b),
						K::Sub => a.wrapping_sub(b),
						K::Mul => a.wrapping_mul(b),
						K::UDiv => {
							if b == 0 {
								u128::MAX
							} else {
								a / b
							}
						}
						K::URem => {
							if b == 0 {
								a
							} else {
								a % b
							}
						}
						K::SDiv => {
							let (x, y) = (sx(a, wa), sx(b, wa));
							if y == 0 {
								if x < 0 {
									1
								} else {
									u128::MAX
								}
							} else {
								x.wrapping_div(y) as u128
							}
						}
						K::SRem => {
							let (x, y) = (sx(a, wa), sx(b, wa));
							if y == 0 {
								a
							} else {
								x.wrapping_rem(y) as u128
							}
						}
						K::Shl => {
							if b >= w as u128 {
								0
							} else {
								a << b
							}
						}
						K::LShr => {
							if b >= w as u128 {
								0
							} else {
								a >> b
							}
						}
						K::AShr => (sx(a, wa) >> b.min(w as u128 - 1)) as u128,
						K::Concat => (a << width(n.b)) | b,
						K::Eq => (a == b) as u128,
						K::Ult => (a < b) as u128,
						K::Slt => (sx(a, wa) < sx(b, wa)) as u128,
						_ => unreachable!(),
					}
				}
			}
		} & mask(n.w);
		self.memo.borrow_mut().insert(t, v);
		v
	}
}
