//! Generators: types, values, hostile bytes, near misses.

use crate::dict::{a_num, a_str, new_count, new_num, new_str};
use crate::model::*;
use crate::rng::Rng;

pub const SIZES: &[usize] = &[
	0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 20, 31, 32, 33, 47, 63, 64, 65, 95, 96, 97, 127, 128, 129, 159, 160, 161, 191, 192, 193, 223,
	224, 225, 255, 256, 257, 287, 288, 289, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097,
];

/// Heavy-tailed size up to `max`, favouring boundaries.
pub fn size(r: &mut Rng, max: usize) -> usize {
	if let Some(n) = new_count(r, max, 1, 12) {
		return n;
	}
	let n = match r.below(10) {
		0..=3 => r.below(5),
		4 | 5 => *r.pick(SIZES),
		6 => {
			let n = a_num(r);
			let d = r.below(3) as u64;
			(n.wrapping_add(d).wrapping_sub(1)).min(max as u64 + 1) as usize
		}
		7 => r.below(40),
		8 => r.below(300),
		_ => {
			let bits = r.below(14);
			r.below(1 << bits)
		}
	};
	if n > max {
		r.below(max + 1)
	} else {
		n
	}
}

pub fn int_width(r: &mut Rng) -> usize {
	if let Some(n) = new_count(r, 256, 1, 6).filter(|n| *n >= 8 && n % 8 == 0) {
		return n;
	}
	match r.below(6) {
		0 | 1 => 256,
		2 => *r.pick(&[8, 16, 32, 64, 128, 160, 248]),
		_ => 8 * r.range(1, 32),
	}
}

pub fn leaf(r: &mut Rng) -> Ty {
	if let Some(n) = new_count(r, 32, 1, 24).filter(|n| *n >= 1) {
		return Ty::FBytes(n);
	}
	match r.below(14) {
		0 | 1 => Ty::Address,
		2 | 3 => Ty::Bytes,
		4 | 5 => Ty::Str,
		6 | 7 => Ty::Bool,
		8 => Ty::Int(int_width(r)),
		9 | 10 => Ty::Uint(int_width(r)),
		11 | 12 => Ty::FBytes(*r.pick(&[1, 2, 3, 4, 8, 16, 20, 31, 32, 32])),
		_ => Ty::FBytes(r.range(1, 32)),
	}
}

pub fn static_leaf(r: &mut Rng) -> Ty {
	loop {
		let t = leaf(r);
		if !t.is_dynamic() {
			return t;
		}
	}
}

#[derive(Clone, Copy)]
pub struct TyOpt {
	/// `bytesN` with N above 32 (the crate documents bytes64, bytes1024)
	pub big_fbytes: bool,
	/// fixed arrays of length zero over static types
	pub zero_farr: bool,
	pub tuples: bool,
	/// tuples without members, and fixed arrays of length zero over dynamic types
	pub empty: bool,
}

pub const SOLIDITY: TyOpt = TyOpt { big_fbytes: false, zero_farr: false, tuples: true, empty: false };
pub const ALL: TyOpt = TyOpt { big_fbytes: true, zero_farr: true, tuples: true, empty: false };
/// For what does not encode.
pub const ANY: TyOpt = TyOpt { empty: true, ..ALL };

pub fn ty(r: &mut Rng, depth: usize, o: TyOpt) -> Ty {
	let t = a_ty(r, depth, o);
	// keep values affordable
	if t.weight() > 60_000 {
		return leaf(r);
	}
	t
}

fn a_ty(r: &mut Rng, depth: usize, o: TyOpt) -> Ty {
	if depth == 0 || r.chance(2, 5) {
		if o.big_fbytes && r.chance(1, 16) {
			if let Some(n) = new_count(r, 2000, 1, 2).filter(|n| *n > 32) {
				return Ty::FBytes(n);
			}
			return Ty::FBytes(*r.pick(&[33, 40, 63, 64, 65, 96, 100, 128, 130, 1024]));
		}
		return leaf(r);
	}
	match r.below(if o.tuples { 8 } else { 5 }) {
		0..=2 => Ty::Arr(Box::new(ty(r, depth - 1, o))),
		3 | 4 => {
			let t = ty(r, depth - 1, o);
			if let Some(n) = new_count(r, 2000, 1, 8).filter(|n| *n >= 1) {
				return Ty::FArr(Box::new(if n < 40 { t } else { leaf(r) }), n);
			}
			if r.chance(1, 100) {
				let n = size(r, 600).max(1);
				return Ty::FArr(Box::new(leaf(r)), n);
			}
			let n = match r.below(8) {
				0 if o.zero_farr && (o.empty || !t.is_dynamic()) => 0,
				0 | 1 => 1,
				2 | 3 => 2,
				4 => 3,
				5 => r.range(4, 6),
				_ => r.range(1, 4),
			};
			Ty::FArr(Box::new(t), n)
		}
		_ => {
			if let Some(n) = new_count(r, 600, 1, 8).filter(|n| *n >= 1) {
				let d = if n < 20 { depth - 1 } else { 0 };
				return Ty::Tup((0..n).map(|_| ty(r, d, o)).collect());
			}
			let n = match r.below(8) {
				0 if o.empty && r.bool() => 0,
				0 => 1,
				1..=4 => r.range(2, 3),
				5 | 6 => r.range(2, 6),
				_ if r.chance(1, 40) => {
					// more than a byte can count
					let n = size(r, 300).max(1);
					return Ty::Tup((0..n).map(|_| leaf(r)).collect());
				}
				_ => r.range(4, 12),
			};
			Ty::Tup((0..n).map(|_| ty(r, depth - 1, o)).collect())
		}
	}
}

/// A list of types, sometimes empty, sometimes long.
pub fn tys(r: &mut Rng, o: TyOpt) -> Vec<Ty> {
	if let Some(n) = new_count(r, 300, 1, 16) {
		let d = if n < 20 { 2 } else { 0 };
		return (0..n).map(|_| ty(r, d, o)).collect();
	}
	if r.chance(1, 40) {
		let d = deep(r, 34);
		return vec![deep_ty(r, d, o)];
	}
	let n = match r.below(20) {
		0 if r.chance(1, 20) => size(r, 300),
		0 => 0,
		1..=6 => 1,
		7..=13 => r.range(2, 4),
		14..=18 => r.range(3, 8),
		_ => r.range(9, 24),
	};
	let depth = match r.below(10) {
		0..=2 => 1,
		3..=5 => 2,
		6..=7 => 3,
		8 => 4,
		_ => r.range(4, 6),
	};
	let depth = match n {
		0..=8 => depth,
		9..=24 => depth.min(2),
		_ => depth.min(1),
	};
	(0..n).map(|_| ty(r, depth, o)).collect()
}

/// A depth that few programs reach.
pub fn deep(r: &mut Rng, max: usize) -> usize {
	new_count(r, max, 1, 3).map(|n| n + r.below(3)).unwrap_or_else(|| r.range(5, max)).min(max)
}

/// Chain of single constructors, `depth` deep.
pub fn deep_ty(r: &mut Rng, depth: usize, o: TyOpt) -> Ty {
	let mut t = leaf(r);
	// at times one constructor all the way
	let kinds = if o.tuples { 3 } else { 2 };
	let only = if r.chance(2, 5) { Some(r.below(kinds)) } else { None };
	for _ in 0..depth {
		t = match only.unwrap_or_else(|| r.below(kinds)) {
			0 => Ty::Arr(Box::new(t)),
			1 => Ty::FArr(Box::new(t), 1),
			_ => {
				let mut m = vec![t];
				if r.chance(1, 3) {
					let at = r.below(2);
					m.insert(at, leaf(r));
				}
				Ty::Tup(m)
			}
		};
	}
	t
}

/// All types built from `leaves` with at most `k` constructors, by index: a systematic sweep.
pub fn enumerate(limit: usize) -> Vec<Ty> {
	let leaves =
		[Ty::Uint(256), Ty::Str, Ty::Bool, Ty::Bytes, Ty::FBytes(32), Ty::Address, Ty::Int(8), Ty::FBytes(1), Ty::Uint(8)];
	let mut levels: Vec<Vec<Ty>> = vec![leaves.to_vec()];
	let mut all: Vec<Ty> = leaves.to_vec();
	for d in 1..4 {
		let prev = levels[d - 1].clone();
		let mut next = vec![];
		for t in &prev {
			next.push(Ty::Arr(Box::new(t.clone())));
			next.push(Ty::FArr(Box::new(t.clone()), 1));
			next.push(Ty::FArr(Box::new(t.clone()), 2));
			next.push(Ty::FArr(Box::new(t.clone()), 3));
			next.push(Ty::Tup(vec![t.clone()]));
			for other in leaves.iter().take(if d == 1 { 9 } else { 2 }) {
				next.push(Ty::Tup(vec![t.clone(), other.clone()]));
				next.push(Ty::Tup(vec![other.clone(), t.clone()]));
			}
			if all.len() + next.len() > limit {
				break;
			}
		}
		all.extend(next.iter().cloned());
		levels.push(next);
		if all.len() >= limit {
			break;
		}
	}
	all.truncate(limit);
	all
}

// ---------------------------------------------------------------- values

pub fn word_value(r: &mut Rng) -> [u8; 32] {
	let mut w = [0u8; 32];
	if let Some(n) = new_num(r, 1, 10) {
		match r.below(6) {
			0 if n < 256 => w[31 - n as usize / 8] = 1 << (n % 8),
			1 => w[..8].copy_from_slice(&n.to_be_bytes()),
			2 => {
				// its bytes first, or anywhere
				let b = n.to_be_bytes();
				let b = &b[n.leading_zeros() as usize / 8..];
				let at = if r.bool() { 0 } else { r.below(33 - b.len()) };
				w[at..at + b.len()].copy_from_slice(b);
			}
			3 => {
				// minus
				w = [0xff; 32];
				w[24..].copy_from_slice(&n.wrapping_neg().to_be_bytes());
			}
			_ => w[24..].copy_from_slice(&n.to_be_bytes()),
		}
		return w;
	}
	match r.below(10) {
		0 => {}
		1 => w[31] = 1,
		2 => w = [0xff; 32],
		3 => {
			// 2^k - 1, 2^k, 2^k + 1
			let k = r.below(256);
			w[31 - k / 8] = 1 << (k % 8);
			match r.below(3) {
				0 => dec_word(&mut w),
				1 => inc_word(&mut w),
				_ => {}
			}
		}
		4 => {
			w[24..].copy_from_slice(&a_num(r).to_be_bytes());
			match r.below(3) {
				0 => dec_word(&mut w),
				1 => inc_word(&mut w),
				_ => {}
			}
		}
		5 => w[31] = r.below(256) as u8,
		6 => {
			// small negative
			w = [0xff; 32];
			w[31] = r.below(256) as u8;
		}
		7 => {
			let n = r.range(1, 32);
			let b = r.bytes(n);
			w[32 - n..].copy_from_slice(&b);
		}
		8 => {
			// sparse
			for _ in 0..r.range(1, 3) {
				w[r.below(32)] = r.next() as u8;
			}
		}
		_ => w.copy_from_slice(&r.bytes(32)),
	}
	w
}

pub fn inc_word(w: &mut [u8; 32]) {
	for b in w.iter_mut().rev() {
		*b = b.wrapping_add(1);
		if *b != 0 {
			break;
		}
	}
}
pub fn dec_word(w: &mut [u8; 32]) {
	for b in w.iter_mut().rev() {
		*b = b.wrapping_sub(1);
		if *b != 0xff {
			break;
		}
	}
}

pub fn byte_string(r: &mut Rng, n: usize) -> Vec<u8> {
	let piece: Option<Vec<u8>> = match new_num(r, 1, 12) {
		Some(x) => {
			let b = x.to_be_bytes();
			Some(b[(x.leading_zeros() as usize / 8).min(7)..].to_vec())
		}
		None => new_str(r, 1, 12).map(|s| s.as_bytes().to_vec()),
	};
	if let Some(p) = piece.filter(|p| p.len() <= n && !p.is_empty()) {
		let mut v = match r.below(3) {
			0 => vec![0; n],
			1 => p.iter().cycle().take(n).cloned().collect(),
			_ => r.bytes(n),
		};
		let at = match r.below(3) {
			0 => 0,
			1 => n - p.len(),
			_ => r.below(n - p.len() + 1),
		};
		v[at..at + p.len()].copy_from_slice(&p);
		return v;
	}
	match r.below(8) {
		0 => vec![0; n],
		1 => vec![0xff; n],
		2 => {
			// trailing zeros
			let mut v = r.bytes(n);
			let k = r.below(n + 1);
			v[k..].iter_mut().for_each(|b| *b = 0);
			v
		}
		3 => {
			// leading zeros
			let mut v = r.bytes(n);
			let k = r.below(n + 1);
			v[..k].iter_mut().for_each(|b| *b = 0);
			v
		}
		4 => (0..n).map(|i| i as u8).collect(),
		_ => r.bytes(n),
	}
}

const CHARS: &[&str] = &[
	"a", "Z", "0", " ", "_", ",", "\"", "[", "]", "(", ")", "\\", "\n", "\t", "\0", "é", "ß", "日", "本", "🦀", "\u{feff}", "\u{fffd}",
	"\u{10ffff}", "'", "{", "}", ":", "\r", "\u{7f}", "\u{80}", "\u{7ff}", "\u{800}", "\u{ffff}", "\u{10000}", "İ", "ﬀ", "\u{301}", "-",
	"+", "x", ".", "%", "$", "/",
];

pub fn text(r: &mut Rng, bytes: usize) -> String {
	let mut s = String::new();
	if let Some(p) = new_str(r, 1, 10) {
		// alone, first, last, in between, again and again
		let kind = r.below(5);
		if kind == 1 || kind == 4 {
			s.push_str(p);
		}
		while kind != 0 && s.len() + p.len() < bytes {
			if kind == 3 && r.chance(1, 4) || kind == 4 {
				s.push_str(p);
			}
			s.push(*r.pick(&['a', 'z', '0', ' ', 'F']));
		}
		if kind == 0 || kind == 2 {
			s.push_str(p);
		}
		return s;
	}
	match r.below(6) {
		0 => {
			while s.len() < bytes {
				s.push(*r.pick(&['a', 'b', 'z', '0', '9', 'A', 'F']));
			}
		}
		1 => {
			s.push_str(a_str(r));
		}
		2 => {
			let c = r.pick(CHARS);
			while s.len() < bytes {
				s.push_str(c);
			}
		}
		_ => {
			while s.len() < bytes {
				if r.chance(1, 2) {
					s.push_str(r.pick(CHARS))
				} else {
					s.push((b' ' + r.below(95) as u8) as char)
				}
			}
		}
	}
	s
}

/// Budget of leaves left for one case, so that nesting stays affordable.
pub struct Budget(pub isize);

pub fn val(r: &mut Rng, t: &Ty, max_len: usize, b: &mut Budget) -> Val {
	b.0 -= 1;
	match t {
		Ty::Address => Val::Address({
			let mut a = [0u8; 20];
			a.copy_from_slice(&byte_string(r, 20));
			a
		}),
		Ty::Bool => Val::Bool(r.bool()),
		Ty::Int(_) => Val::Int(word_value(r)),
		Ty::Uint(_) => Val::Uint(word_value(r)),
		Ty::FBytes(n) => Val::FBytes(byte_string(r, *n)),
		Ty::Bytes => {
			let n = size(r, max_len.saturating_mul(32));
			b.0 -= n as isize / 64;
			Val::Bytes(byte_string(r, n))
		}
		Ty::Str => {
			let n = size(r, max_len.saturating_mul(32));
			b.0 -= n as isize / 64;
			Val::Str(text(r, n))
		}
		Ty::Arr(t) => {
			let n = if b.0 <= 0 { r.below(2) } else { size(r, max_len) };
			let n = n.min(1 + 600_000 / t.weight().max(32));
			let n = match t.depth() {
				0..=3 => n,
				// down to the end, most of the time
				_ if r.chance(1, 20) => n.min(2),
				_ => 1,
			};
			let sub = if n == 0 { max_len } else { (max_len / n).max(2) };
			if n > 1 && r.chance(1, 8) {
				// equal elements
				let v = val(r, t, sub, b);
				b.0 -= n as isize;
				return Val::Arr(vec![v; n]);
			}
			Val::Arr((0..n).map(|_| val(r, t, if b.0 <= 0 { 1 } else { sub }, b)).collect())
		}
		Ty::FArr(t, n) => Val::FArr((0..*n).map(|_| val(r, t, (max_len / (*n).max(1)).max(2), b)).collect()),
		Ty::Tup(ts) => Val::Tup(ts.iter().map(|t| val(r, t, max_len, b)).collect()),
	}
}

/// Values for a list of types; arrays up to `max_len` elements, strings up to 32 times that.
pub fn vals(r: &mut Rng, ts: &[Ty], max_len: usize) -> Vec<Val> {
	let mut b = Budget(2500);
	ts.iter().map(|t| val(r, t, max_len, &mut b)).collect()
}

/// Replaces `bytesN` values by shorter ones that still conform, here and there.
pub fn shorten(r: &mut Rng, v: &mut Val) {
	match v {
		Val::FBytes(b) if !b.is_empty() => {
			let words = (b.len() + 31) / 32;
			let n = r.range(32 * (words - 1) + 1, b.len());
			b.truncate(n);
		}
		Val::Arr(vs) | Val::FArr(vs) | Val::Tup(vs) => vs.iter_mut().for_each(|v| shorten(r, v)),
		_ => {}
	}
}

// ---------------------------------------------------------------- near misses

/// Cheap to have many of.
pub fn is_small(v: &Val) -> bool {
	match v {
		Val::Arr(_) | Val::FArr(_) | Val::Tup(_) => false,
		Val::Bytes(b) | Val::FBytes(b) => b.len() <= 64,
		Val::Str(s) => s.len() <= 64,
		_ => true,
	}
}

/// Changes one place of the value, so that it may no longer conform. Callers ask the model.
pub fn break_val(r: &mut Rng, v: &mut Val) {
	if r.chance(1, 4) {
		break_inside(r, v)
	} else {
		break_here(r, v)
	}
}

fn break_inside(r: &mut Rng, v: &mut Val) {
	match v {
		Val::Arr(vs) | Val::FArr(vs) | Val::Tup(vs) if !vs.is_empty() => {
			let i = r.below(vs.len());
			break_inside(r, &mut vs[i])
		}
		v => break_here(r, v),
	}
}

fn break_here(r: &mut Rng, v: &mut Val) {
	let replace = r.chance(1, 4);
	if !replace {
		match v {
			Val::Arr(vs) | Val::FArr(vs) | Val::Tup(vs) if !vs.is_empty() && r.chance(3, 4) => {
				let i = match r.below(3) {
					0 => 0,
					1 => vs.len() - 1,
					_ => r.below(vs.len()),
				};
				return break_val(r, &mut vs[i]);
			}
			Val::Arr(vs) | Val::FArr(vs) | Val::Tup(vs) => {
				if r.chance(1, 12) {
					// as many again in a count of eight or sixteen bits
					let n = if r.chance(1, 24) { 1 << 16 } else { 256 };
					let x = vs.last().cloned().filter(is_small);
					let x = x.unwrap_or(Val::Bool(false));
					vs.extend(std::iter::repeat(x).take(n));
					return;
				}
				match r.below(5) {
					0 => {
						vs.pop();
					}
					1 => {
						if let Some(x) = vs.last().cloned() {
							vs.push(x)
						}
					}
					2 => vs.clear(),
					3 if vs.len() > 1 => {
						let n = vs.len();
						vs.swap(0, n - 1)
					}
					_ => {
						let inner = std::mem::take(vs);
						let k = r.below(3);
						*v = match k {
							0 => Val::Arr(inner),
							1 => Val::FArr(inner),
							_ => Val::Tup(inner),
						};
					}
				}
				return;
			}
			_ => {}
		}
	}
	*v = match (r.below(12), &*v) {
		(0, Val::Int(w)) => Val::Uint(*w),
		(0, Val::Uint(w)) => Val::Int(*w),
		(0, Val::Str(s)) => Val::Bytes(s.clone().into_bytes()),
		(0, Val::Bytes(b)) => Val::FBytes(b.clone()),
		(1, Val::Bytes(b)) => Val::Str(String::from_utf8_lossy(b).into_owned()),
		(0, Val::FBytes(b)) => Val::Bytes(b.clone()),
		(1..=5, Val::FBytes(b)) => {
			let mut b = b.clone();
			match r.below(5) {
				4 => b.resize(b.len() + *r.pick(&[32, 256, 256, 1024, 1 << 16]), 0),
				0 => b.push(r.next() as u8),
				1 => {
					b.pop();
				}
				2 => b.truncate(b.len() / 2),
				_ => {
					let n = r.range(1, 33);
					b.extend(r.bytes(n))
				}
			}
			Val::FBytes(b)
		}
		(0, Val::Address(a)) => Val::FBytes(a.to_vec()),
		(1, Val::Address(a)) => {
			let mut w = [0u8; 32];
			w[12..].copy_from_slice(a);
			Val::Uint(w)
		}
		(0, Val::Bool(b)) => Val::Uint(word(*b as usize)),
		(6, v) => Val::Arr(vec![v.clone()]),
		(7, v) => Val::Tup(vec![v.clone()]),
		(8, v) => Val::FArr(vec![v.clone()]),
		_ => {
			let t = ty(r, 1, SOLIDITY);
			val(r, &t, 3, &mut Budget(50))
		}
	};
}

/// Changes one place of the type.
pub fn break_ty(r: &mut Rng, t: &mut Ty) {
	if r.chance(3, 4) {
		match t {
			Ty::Arr(x) | Ty::FArr(x, _) if r.chance(2, 3) => return break_ty(r, x),
			Ty::Tup(ts) if !ts.is_empty() && r.chance(2, 3) => {
				let i = r.below(ts.len());
				return break_ty(r, &mut ts[i]);
			}
			Ty::FArr(_, n) => {
				*n = match r.below(5) {
					0 => n.saturating_sub(1),
					1 => 0,
					2 => usize::MAX,
					3 => n.saturating_add(*r.pick(&[256, 1 << 16, 1 << 32])),
					_ => n.saturating_add(1),
				};
				return;
			}
			Ty::Tup(ts) => {
				match r.below(4) {
					0 => {
						ts.pop();
					}
					1 => ts.push(leaf(r)),
					2 => {
						let n = ts.len();
						if n > 1 {
							ts.swap(0, n - 1)
						}
					}
					_ => ts.insert(0, Ty::Bool),
				}
				return;
			}
			Ty::FBytes(n) => {
				*n = match r.below(7) {
					6 => n.saturating_add(*r.pick(&[256, 1 << 16, 1 << 32])),
					0 => n.saturating_sub(1),
					1 => n.saturating_add(1),
					2 => 0,
					3 => usize::MAX,
					4 => n.saturating_add(32),
					_ => r.below(130),
				};
				return;
			}
			Ty::Int(n) => {
				*t = if r.bool() { Ty::Uint(*n) } else { Ty::Int(int_width(r)) };
				return;
			}
			Ty::Uint(n) => {
				*t = if r.bool() { Ty::Int(*n) } else { Ty::Uint(int_width(r)) };
				return;
			}
			_ => {}
		}
	}
	let old = t.clone();
	*t = match r.below(6) {
		0 => Ty::Arr(Box::new(old)),
		1 => Ty::FArr(Box::new(old), 1),
		2 => Ty::Tup(vec![old]),
		_ => ty(r, 1, SOLIDITY),
	};
}

// ---------------------------------------------------------------- hostile bytes

pub fn special_word(r: &mut Rng, len: usize) -> [u8; 32] {
	let mut w = word(0);
	if let Some(n) = new_num(r, 1, 10) {
		w[24..].copy_from_slice(&n.to_be_bytes());
		return w;
	}
	match r.below(16) {
		0 => {}
		1 => w = word(1),
		2 => w = word(len),
		3 => w = word(len.saturating_sub(32)),
		4 => w = word(len.saturating_sub(31)),
		5 => w = word(len + 1),
		6 => w = word(len / 32),
		7 => w = word(r.below(len + 64)),
		8 => w = word(32 * r.below(len / 32 + 3)),
		9 => w = word(0xffff_ffff),
		10 => w = word(0x1_0000_0000),
		11 => w = word((1usize << 32).wrapping_add(32 * r.below(16))),
		12 => w = [0xff; 32],
		13 => {
			// a valid low part below one high byte
			w = word(32 * r.below(len / 32 + 3));
			w[r.below(28)] = 1 << r.below(8);
		}
		14 => {
			w = word(*r.pick(&[0x7fff_ffff, 0x8000_0000, 0xffff_ffe0, 0xffff_ffdf, 0x0100_0000, 0x0001_0000, 0x8000, 255, 256, 33, 31]))
		}
		_ => w = word_value(r),
	}
	w
}

/// Mutates an encoding: words replaced, truncated, extended, bits flipped, offsets aliased.
pub fn mutate(r: &mut Rng, data: &mut Vec<u8>) {
	let rounds = match r.below(6) {
		0..=2 => 1,
		3 | 4 => 2,
		_ => r.range(3, 6),
	};
	for _ in 0..rounds {
		let words = data.len() / 32;
		match r.below(14) {
			0..=4 if words > 0 => {
				let i = if r.bool() { r.below(words.min(8)) } else { r.below(words) };
				let w = special_word(r, data.len());
				data[32 * i..32 * i + 32].copy_from_slice(&w);
			}
			5 if words > 1 => {
				let (i, j) = (r.below(words), r.below(words));
				let w: Vec<u8> = data[32 * j..32 * j + 32].to_vec();
				data[32 * i..32 * i + 32].copy_from_slice(&w);
			}
			6 => {
				let n = r.below(data.len() + 1);
				let n = new_count(r, data.len(), 1, 2).unwrap_or(n);
				data.truncate(n);
			}
			7 => {
				let n = data.len().saturating_sub(r.range(1, 64));
				data.truncate(n);
			}
			8 => {
				let n = r.range(1, 70);
				let n = new_count(r, 5000, 1, 2).unwrap_or(n);
				let more = byte_string(r, n);
				data.extend(more);
			}
			9 if !data.is_empty() => {
				let i = r.below(data.len());
				data[i] ^= 1 << r.below(8);
			}
			10 if words > 0 => {
				// small change of the low bytes of a word
				let i = r.below(words);
				let k = 32 * i + 31;
				data[k] = match r.below(4) {
					0 => data[k].wrapping_add(1),
					1 => data[k].wrapping_sub(1),
					2 => data[k].wrapping_add(32),
					_ => data[k].wrapping_sub(32),
				};
			}
			11 if words > 0 => {
				let i = r.below(words);
				data.drain(32 * i..32 * i + 32);
			}
			12 => {
				let i = 32 * r.below(words + 1);
				let w = special_word(r, data.len());
				data.splice(i..i, w);
			}
			_ if !data.is_empty() => {
				let i = r.below(data.len());
				data[i] = r.next() as u8;
			}
			_ => {}
		}
	}
}

/// Bytes made of plausible small words only: offsets and lengths everywhere.
pub fn wordy(r: &mut Rng, words: usize) -> Vec<u8> {
	let len = words * 32;
	let mut out = Vec::with_capacity(len + 31);
	for _ in 0..words {
		let w = match r.below(8) {
			0..=2 => word(32 * r.below(words + 1)),
			3 | 4 => word(r.below(4)),
			5 => word(r.below(len + 1)),
			_ => special_word(r, len),
		};
		out.extend_from_slice(&w);
	}
	if r.chance(1, 4) {
		let n = r.below(32);
		let more = r.bytes(n);
		out.extend(more);
	}
	out
}

// ---------------------------------------------------------------- names

pub fn ident(r: &mut Rng) -> String {
	const PARTS: &[&str] = &["foo", "bar", "baz", "transfer", "from", "to", "value", "x", "y", "data", "owner", "set", "get", "A", "B", "Log", "_", "$"];
	if let Some(s) = new_str(r, 1, 8) {
		let s: String = s.chars().filter(|c| c.is_alphanumeric() || *c == '_' || *c == '$').collect();
		return match r.below(4) {
			0 => s.to_string(),
			1 => format!("{}{}", s, r.pick(PARTS)),
			2 => format!("{}{}", r.pick(PARTS), s),
			_ => format!("{}{}{}", r.pick(PARTS), s, r.pick(PARTS)),
		};
	}
	match r.below(12) {
		0 => a_str(r).chars().filter(|c| c.is_alphanumeric() || *c == '_' || *c == '$').collect(),
		1 => String::new(),
		2 => r.pick(PARTS).to_string(),
		3 => {
			let n = size(r, 300);
			(0..n).map(|_| *r.pick(&['a', 'b', 'c', 'X', '_', '7'])).collect()
		}
		4 => format!("{}é{}", r.pick(PARTS), r.pick(&["日", "🦀", "ß", ""])),
		_ => {
			let mut s = r.pick(PARTS).to_string();
			for _ in 0..r.below(3) {
				s.push_str(r.pick(PARTS));
			}
			if r.bool() {
				s.push_str(&r.below(30).to_string());
			}
			s
		}
	}
}
