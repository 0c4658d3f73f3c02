//! The reference model: types and values of the ABI, their canonical encoding and decoding,
//! names, printed forms and event topics, written from the Solidity ABI specification and
//! driven by types (the code under test drives its encoder by values).

use crate::keccak::keccak256;
use ethabi::{ParamType, Token};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
	Address,
	Bytes,
	Str,
	Bool,
	Int(usize),
	Uint(usize),
	FBytes(usize),
	Arr(Box<Ty>),
	FArr(Box<Ty>, usize),
	Tup(Vec<Ty>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Val {
	Address([u8; 20]),
	Bytes(Vec<u8>),
	Str(String),
	Bool(bool),
	Int([u8; 32]),
	Uint([u8; 32]),
	FBytes(Vec<u8>),
	Arr(Vec<Val>),
	FArr(Vec<Val>),
	Tup(Vec<Val>),
}

pub fn hex(b: &[u8]) -> String {
	const D: &[u8; 16] = b"0123456789abcdef";
	let mut s = String::with_capacity(b.len() * 2);
	for x in b {
		s.push(D[(x >> 4) as usize] as char);
		s.push(D[(x & 15) as usize] as char);
	}
	s
}

pub fn unhex(s: &str) -> Option<Vec<u8>> {
	let b = s.as_bytes();
	if b.len() % 2 != 0 {
		return None;
	}
	let d = |c: u8| match c {
		b'0'..=b'9' => Some(c - b'0'),
		b'a'..=b'f' => Some(c - b'a' + 10),
		b'A'..=b'F' => Some(c - b'A' + 10),
		_ => None,
	};
	b.chunks(2).map(|p| Some(d(p[0])? * 16 + d(p[1])?)).collect()
}

pub fn word(n: usize) -> [u8; 32] {
	let mut w = [0u8; 32];
	w[24..].copy_from_slice(&(n as u64).to_be_bytes());
	w
}

pub fn pad_up(n: usize) -> usize {
	n.saturating_add(31) / 32 * 32
}

impl Ty {
	pub fn is_dynamic(&self) -> bool {
		match self {
			Ty::Bytes | Ty::Str | Ty::Arr(_) => true,
			Ty::FArr(t, _) => t.is_dynamic(),
			Ty::Tup(ts) => ts.iter().any(Ty::is_dynamic),
			_ => false,
		}
	}
	/// Bytes the value takes in the head of its frame.
	pub fn head_size(&self) -> usize {
		if self.is_dynamic() {
			return 32;
		}
		match self {
			Ty::FBytes(n) => pad_up(*n),
			Ty::FArr(t, n) => t.head_size().saturating_mul(*n),
			Ty::Tup(ts) => ts.iter().fold(0usize, |n, t| n.saturating_add(t.head_size())),
			_ => 32,
		}
	}
	/// Canonical Solidity name.
	pub fn name(&self) -> String {
		self.name_with(&|members: &[Ty]| {
			format!("({})", members.iter().map(Ty::name).collect::<Vec<_>>().join(","))
		})
	}
	/// Name in the `type` field of a JSON ABI.
	pub fn json_name(&self) -> String {
		self.name_with(&|_| "tuple".to_string())
	}
	fn name_with(&self, tuple: &dyn Fn(&[Ty]) -> String) -> String {
		match self {
			Ty::Address => "address".into(),
			Ty::Bytes => "bytes".into(),
			Ty::Str => "string".into(),
			Ty::Bool => "bool".into(),
			Ty::Int(n) => format!("int{}", n),
			Ty::Uint(n) => format!("uint{}", n),
			Ty::FBytes(n) => format!("bytes{}", n),
			Ty::Arr(t) => t.name_with(tuple) + "[]",
			Ty::FArr(t, n) => format!("{}[{}]", t.name_with(tuple), n),
			Ty::Tup(ts) => tuple(ts),
		}
	}
	/// The tuple behind all array suffixes.
	pub fn inner_tuple(&self) -> Option<&Vec<Ty>> {
		match self {
			Ty::Arr(t) | Ty::FArr(t, _) => t.inner_tuple(),
			Ty::Tup(ts) => Some(ts),
			_ => None,
		}
	}
	pub fn to_sut(&self) -> ParamType {
		match self {
			Ty::Address => ParamType::Address,
			Ty::Bytes => ParamType::Bytes,
			Ty::Str => ParamType::String,
			Ty::Bool => ParamType::Bool,
			Ty::Int(n) => ParamType::Int(*n),
			Ty::Uint(n) => ParamType::Uint(*n),
			Ty::FBytes(n) => ParamType::FixedBytes(*n),
			Ty::Arr(t) => ParamType::Array(Box::new(t.to_sut())),
			Ty::FArr(t, n) => ParamType::FixedArray(Box::new(t.to_sut()), *n),
			Ty::Tup(ts) => ParamType::Tuple(ts.iter().map(Ty::to_sut).collect()),
		}
	}
	pub fn from_sut(p: &ParamType) -> Ty {
		match p {
			ParamType::Address => Ty::Address,
			ParamType::Bytes => Ty::Bytes,
			ParamType::String => Ty::Str,
			ParamType::Bool => Ty::Bool,
			ParamType::Int(n) => Ty::Int(*n),
			ParamType::Uint(n) => Ty::Uint(*n),
			ParamType::FixedBytes(n) => Ty::FBytes(*n),
			ParamType::Array(t) => Ty::Arr(Box::new(Ty::from_sut(t))),
			ParamType::FixedArray(t, n) => Ty::FArr(Box::new(Ty::from_sut(t)), *n),
			ParamType::Tuple(ts) => Ty::Tup(ts.iter().map(Ty::from_sut).collect()),
		}
	}
	pub fn depth(&self) -> usize {
		match self {
			Ty::Arr(t) | Ty::FArr(t, _) => 1 + t.depth(),
			Ty::Tup(ts) => 1 + ts.iter().map(Ty::depth).max().unwrap_or(0),
			_ => 0,
		}
	}
	/// Levels of dynamic data: what a length or offset word leads to, counted along the deepest path.
	pub fn dyn_levels(&self) -> usize {
		match self {
			Ty::Bytes | Ty::Str => 1,
			Ty::Arr(t) => 1 + t.dyn_levels(),
			Ty::FArr(t, _) => t.dyn_levels() + t.is_dynamic() as usize,
			Ty::Tup(ts) => ts.iter().map(Ty::dyn_levels).max().unwrap_or(0) + self.is_dynamic() as usize,
			_ => 0,
		}
	}
	/// Nodes of the type, fixed arrays counted once.
	pub fn nodes(&self) -> usize {
		match self {
			Ty::Arr(t) | Ty::FArr(t, _) => 1 + t.nodes(),
			Ty::Tup(ts) => 1 + ts.iter().map(Ty::nodes).sum::<usize>(),
			_ => 1,
		}
	}
	/// Does the type (or a part) have no fixed place in an encoding the implementation can know:
	/// an empty tuple, `bytes0`, or a fixed array of length zero.
	pub fn has_zero_size(&self) -> bool {
		match self {
			Ty::FBytes(0) => true,
			Ty::FArr(_, 0) => true,
			Ty::Arr(t) | Ty::FArr(t, _) => t.has_zero_size(),
			Ty::Tup(ts) => ts.is_empty() || ts.iter().any(Ty::has_zero_size),
			_ => false,
		}
	}
	/// Greatest declared length of a fixed array.
	pub fn longest(&self) -> usize {
		match self {
			Ty::Arr(t) => t.longest(),
			Ty::FArr(t, n) => t.longest().max(*n),
			Ty::Tup(ts) => ts.iter().map(Ty::longest).max().unwrap_or(0),
			_ => 0,
		}
	}
	/// Bytes that the declared sizes alone demand of a value, at every level.
	pub fn weight(&self) -> usize {
		match self {
			Ty::FBytes(n) => pad_up(*n),
			Ty::Arr(t) => t.weight(),
			Ty::FArr(t, n) => t.weight().saturating_mul(*n),
			Ty::Tup(ts) => ts.iter().fold(0usize, |n, t| n.saturating_add(t.weight())),
			_ => 32,
		}
	}
}

pub fn names(tys: &[Ty]) -> String {
	tys.iter().map(Ty::name).collect::<Vec<_>>().join(",")
}

impl Val {
	pub fn to_sut(&self) -> Token {
		let list = |v: &[Val]| v.iter().map(Val::to_sut).collect::<Vec<_>>();
		match self {
			Val::Address(a) => Token::Address((*a).into()),
			Val::Bytes(b) => Token::Bytes(b.clone()),
			Val::Str(s) => Token::String(s.clone()),
			Val::Bool(b) => Token::Bool(*b),
			Val::Int(w) => Token::Int((*w).into()),
			Val::Uint(w) => Token::Uint((*w).into()),
			Val::FBytes(b) => Token::FixedBytes(b.clone()),
			Val::Arr(v) => Token::Array(list(v)),
			Val::FArr(v) => Token::FixedArray(list(v)),
			Val::Tup(v) => Token::Tuple(list(v)),
		}
	}
	pub fn from_sut(t: &Token) -> Val {
		let list = |v: &[Token]| v.iter().map(Val::from_sut).collect::<Vec<_>>();
		match t {
			Token::Address(a) => Val::Address(a.0),
			Token::Bytes(b) => Val::Bytes(b.clone()),
			Token::String(s) => Val::Str(s.clone()),
			Token::Bool(b) => Val::Bool(*b),
			Token::Int(w) => Val::Int((*w).into()),
			Token::Uint(w) => Val::Uint((*w).into()),
			Token::FixedBytes(b) => Val::FBytes(b.clone()),
			Token::Array(v) => Val::Arr(list(v)),
			Token::FixedArray(v) => Val::FArr(list(v)),
			Token::Tuple(v) => Val::Tup(list(v)),
		}
	}
	/// The documented printed form.
	pub fn print(&self) -> String {
		let list = |v: &[Val]| v.iter().map(Val::print).collect::<Vec<_>>().join(",");
		match self {
			Val::Address(a) => hex(a),
			Val::Bytes(b) | Val::FBytes(b) => hex(b),
			Val::Str(s) => s.clone(),
			Val::Bool(b) => if *b { "true" } else { "false" }.into(),
			Val::Int(w) | Val::Uint(w) => {
				let h = hex(w);
				let t = h.trim_start_matches('0');
				if t.is_empty() { "0".into() } else { t.to_string() }
			}
			Val::Arr(v) | Val::FArr(v) => format!("[{}]", list(v)),
			Val::Tup(v) => format!("({})", list(v)),
		}
	}
}

pub fn to_sut_tys(tys: &[Ty]) -> Vec<ParamType> {
	tys.iter().map(Ty::to_sut).collect()
}
pub fn to_sut_vals(vals: &[Val]) -> Vec<Token> {
	vals.iter().map(Val::to_sut).collect()
}
pub fn from_sut_vals(tokens: &[Token]) -> Vec<Val> {
	tokens.iter().map(Val::from_sut).collect()
}

/// Does the value have the type, as the type check is specified: byte strings of fixed size N
/// may be shorter than N within their last word.
pub fn conforms(v: &Val, t: &Ty) -> bool {
	match (v, t) {
		(Val::Address(_), Ty::Address)
		| (Val::Bytes(_), Ty::Bytes)
		| (Val::Str(_), Ty::Str)
		| (Val::Bool(_), Ty::Bool)
		| (Val::Int(_), Ty::Int(_))
		| (Val::Uint(_), Ty::Uint(_)) => true,
		(Val::FBytes(b), Ty::FBytes(n)) => {
			b.len() <= *n && (b.len() as u128 + 31) / 32 == (*n as u128 + 31) / 32
		}
		(Val::Arr(v), Ty::Arr(t)) => v.iter().all(|v| conforms(v, t)),
		(Val::FArr(v), Ty::FArr(t, n)) => v.len() == *n && v.iter().all(|v| conforms(v, t)),
		(Val::Tup(v), Ty::Tup(ts)) => conform_all(v, ts),
		_ => false,
	}
}
pub fn conform_all(v: &[Val], ts: &[Ty]) -> bool {
	v.len() == ts.len() && v.iter().zip(ts).all(|(v, t)| conforms(v, t))
}
/// As `conforms`, with byte strings of exactly the declared size: what decoding must return.
pub fn conforms_exactly(v: &Val, t: &Ty) -> bool {
	match (v, t) {
		(Val::FBytes(b), Ty::FBytes(n)) => b.len() == *n,
		(Val::Arr(v), Ty::Arr(t)) => v.iter().all(|v| conforms_exactly(v, t)),
		(Val::FArr(v), Ty::FArr(t, n)) => v.len() == *n && v.iter().all(|v| conforms_exactly(v, t)),
		(Val::Tup(v), Ty::Tup(ts)) => v.len() == ts.len() && v.iter().zip(ts).all(|(v, t)| conforms_exactly(v, t)),
		_ => conforms(v, t),
	}
}

// ---------------------------------------------------------------- encoding

fn put_padded(out: &mut Vec<u8>, b: &[u8]) {
	out.extend_from_slice(b);
	out.resize(out.len() + pad_up(b.len()) - b.len(), 0);
}

/// enc((v1,...,vn)) of the specification: heads, then tails, offsets from the start of this frame.
pub fn encode_frame(tys: &[&Ty], vals: &[Val], out: &mut Vec<u8>) {
	assert_eq!(tys.len(), vals.len());
	let start = out.len();
	let heads: usize = tys.iter().map(|t| t.head_size()).sum();
	// heads first with room for the offsets, then each tail where it falls
	let mut patches = vec![];
	for (t, v) in tys.iter().zip(vals) {
		if t.is_dynamic() {
			patches.push((out.len(), t, v));
			out.resize(out.len() + 32, 0);
		} else {
			encode_value(t, v, out);
		}
	}
	assert_eq!(out.len() - start, heads);
	for (at, t, v) in patches {
		let offset = word(out.len() - start);
		out[at..at + 32].copy_from_slice(&offset);
		encode_value(t, v, out);
	}
}

/// enc(v) of the specification.
fn encode_value(t: &Ty, v: &Val, out: &mut Vec<u8>) {
	match (t, v) {
		(Ty::Address, Val::Address(a)) => {
			out.extend_from_slice(&[0; 12]);
			out.extend_from_slice(a)
		}
		(Ty::Bool, Val::Bool(b)) => out.extend_from_slice(&word(*b as usize)),
		(Ty::Int(_), Val::Int(w)) | (Ty::Uint(_), Val::Uint(w)) => out.extend_from_slice(w),
		(Ty::FBytes(n), Val::FBytes(b)) => {
			let start = out.len();
			out.extend_from_slice(b);
			out.resize(start + pad_up(*n), 0)
		}
		(Ty::Bytes, Val::Bytes(b)) => {
			out.extend_from_slice(&word(b.len()));
			put_padded(out, b)
		}
		(Ty::Str, Val::Str(s)) => {
			out.extend_from_slice(&word(s.len()));
			put_padded(out, s.as_bytes())
		}
		(Ty::Arr(t), Val::Arr(v)) => {
			out.extend_from_slice(&word(v.len()));
			encode_frame(&vec![&**t; v.len()], v, out)
		}
		(Ty::FArr(t, n), Val::FArr(v)) => {
			assert_eq!(*n, v.len());
			encode_frame(&vec![&**t; v.len()], v, out)
		}
		(Ty::Tup(ts), Val::Tup(v)) => encode_frame(&ts.iter().collect::<Vec<_>>(), v, out),
		_ => panic!("harness: value does not conform to its type"),
	}
}

pub fn encode(tys: &[Ty], vals: &[Val]) -> Vec<u8> {
	let mut out = vec![];
	encode_frame(&tys.iter().collect::<Vec<_>>(), vals, &mut out);
	out
}

// ---------------------------------------------------------------- decoding

pub enum Decoded {
	Ok(Vec<Val>),
	/// The bytes denote no value.
	Err(&'static str),
	/// More work than the fuel allows: no verdict.
	Fuel,
}

pub struct Decoder<'a> {
	data: &'a [u8],
	/// Which bytes the result depends on.
	pub used: Option<Vec<bool>>,
	fuel: u64,
}

enum Stop {
	Bad(&'static str),
	Fuel,
}

impl<'a> Decoder<'a> {
	pub fn new(data: &'a [u8], fuel: u64) -> Decoder<'a> {
		Decoder { data, used: None, fuel }
	}
	pub fn tracking(data: &'a [u8], fuel: u64) -> Decoder<'a> {
		Decoder { data, used: Some(vec![false; data.len()]), fuel }
	}
	/// Words and values looked at so far.
	pub fn spent(&self, of: u64) -> u64 {
		of - self.fuel
	}
	fn burn(&mut self, n: u64) -> Result<(), Stop> {
		if self.fuel < n {
			return Err(Stop::Fuel);
		}
		self.fuel -= n;
		Ok(())
	}
	fn mark(&mut self, a: usize, b: usize) {
		if let Some(u) = &mut self.used {
			u[a..b].iter_mut().for_each(|x| *x = true);
		}
	}
	/// `n` bytes at `base + pos`.
	fn range(&mut self, base: usize, pos: u128, n: u128, mark: bool) -> Result<&'a [u8], Stop> {
		let a = base as u128 + pos;
		let b = a + n;
		if b > self.data.len() as u128 {
			return Err(Stop::Bad("out of range"));
		}
		let (a, b) = (a as usize, b as usize);
		if mark {
			self.mark(a, b);
		}
		self.burn(1 + n as u64 / 32)?;
		Ok(&self.data[a..b])
	}
	/// The number in a length or offset word.
	fn number(&mut self, base: usize, pos: u128) -> Result<usize, Stop> {
		let w = self.range(base, pos, 32, true)?;
		if w[..28].iter().any(|b| *b != 0) {
			return Err(Stop::Bad("number of 2^32 or more"));
		}
		Ok(u32::from_be_bytes([w[28], w[29], w[30], w[31]]) as usize)
	}
	/// The value whose head is at `base + pos`; offsets count from `base`.
	fn value(&mut self, t: &Ty, base: usize, pos: u128) -> Result<Val, Stop> {
		self.burn(1)?;
		match t {
			Ty::Address => {
				let w = self.range(base, pos, 32, false)?;
				self.range(base, pos + 12, 20, true)?;
				let mut a = [0u8; 20];
				a.copy_from_slice(&w[12..]);
				Ok(Val::Address(a))
			}
			Ty::Int(_) | Ty::Uint(_) => {
				let mut a = [0u8; 32];
				a.copy_from_slice(self.range(base, pos, 32, true)?);
				Ok(if let Ty::Int(_) = t { Val::Int(a) } else { Val::Uint(a) })
			}
			Ty::Bool => {
				let w = self.range(base, pos, 32, true)?;
				if w[..31].iter().any(|b| *b != 0) || w[31] > 1 {
					return Err(Stop::Bad("bool word"));
				}
				Ok(Val::Bool(w[31] == 1))
			}
			Ty::FBytes(n) => Ok(Val::FBytes(self.range(base, pos, *n as u128, true)?.to_vec())),
			Ty::Bytes | Ty::Str => {
				let at = self.number(base, pos)? as u128;
				let len = self.number(base, at)? as u128;
				let b = self.range(base, at + 32, len, true)?;
				Ok(match t {
					Ty::Bytes => Val::Bytes(b.to_vec()),
					_ => Val::Str(String::from_utf8_lossy(b).into_owned()),
				})
			}
			Ty::Arr(t) => {
				let at = self.number(base, pos)? as u128;
				let len = self.number(base, at)?;
				let frame = base + at as usize + 32;
				if len > self.data.len() - frame {
					return Err(Stop::Bad("more elements than bytes"));
				}
				Ok(Val::Arr(self.list(t, len, frame, 0)?))
			}
			Ty::FArr(e, n) => {
				let (base, pos) = self.frame(t, base, pos)?;
				Ok(Val::FArr(self.list(e, *n, base, pos)?))
			}
			Ty::Tup(ts) => {
				let (base, mut pos) = self.frame(t, base, pos)?;
				let mut vals = vec![];
				for t in ts {
					vals.push(self.value(t, base, pos)?);
					pos += t.head_size() as u128;
				}
				Ok(Val::Tup(vals))
			}
		}
	}
	fn frame(&mut self, t: &Ty, base: usize, pos: u128) -> Result<(usize, u128), Stop> {
		if t.is_dynamic() {
			let at = self.number(base, pos)?;
			if at > self.data.len() - base {
				return Err(Stop::Bad("offset out of range"));
			}
			Ok((base + at, 0))
		} else {
			Ok((base, pos))
		}
	}
	fn list(&mut self, t: &Ty, n: usize, base: usize, mut pos: u128) -> Result<Vec<Val>, Stop> {
		let size = t.head_size() as u128;
		let mut vals = vec![];
		for _ in 0..n {
			vals.push(self.value(t, base, pos)?);
			pos += size;
		}
		Ok(vals)
	}
	pub fn run(&mut self, tys: &[Ty]) -> Decoded {
		let mut pos = 0u128;
		let mut vals = vec![];
		for t in tys {
			match self.value(t, 0, pos) {
				Ok(v) => vals.push(v),
				Err(Stop::Bad(why)) => return Decoded::Err(why),
				Err(Stop::Fuel) => return Decoded::Fuel,
			}
			pos += t.head_size() as u128;
		}
		Decoded::Ok(vals)
	}
}

pub const FUEL: u64 = 400_000;

pub fn decode(tys: &[Ty], data: &[u8]) -> Decoded {
	Decoder::new(data, FUEL).run(tys)
}

// ---------------------------------------------------------------- signatures and events

pub fn signature_hash(name: &str, tys: &[Ty]) -> [u8; 32] {
	keccak256(format!("{}({})", name, names(tys)).as_bytes())
}

/// Is the type logged by value in a topic (and not by its hash).
pub fn is_value_type(t: &Ty) -> bool {
	matches!(t, Ty::Address | Ty::Bool | Ty::Int(_) | Ty::Uint(_) | Ty::FBytes(_))
}

/// The topic the EVM logs for an indexed parameter.
pub fn topic(t: &Ty, v: &Val) -> [u8; 32] {
	match (t, v) {
		(Ty::Str, Val::Str(s)) => keccak256(s.as_bytes()),
		(Ty::Bytes, Val::Bytes(b)) => keccak256(b),
		(Ty::Arr(_), _) | (Ty::FArr(..), _) | (Ty::Tup(_), _) => {
			let mut out = vec![];
			in_place(t, v, &mut out);
			keccak256(&out)
		}
		_ => {
			let mut out = vec![];
			encode_value(t, v, &mut out);
			assert_eq!(out.len(), 32, "harness: indexed value of more than a word");
			let mut w = [0u8; 32];
			w.copy_from_slice(&out);
			w
		}
	}
}

fn in_place(t: &Ty, v: &Val, out: &mut Vec<u8>) {
	match (t, v) {
		(Ty::Str, Val::Str(s)) => put_padded(out, s.as_bytes()),
		(Ty::Bytes, Val::Bytes(b)) => put_padded(out, b),
		(Ty::Arr(t), Val::Arr(v)) | (Ty::FArr(t, _), Val::FArr(v)) => v.iter().for_each(|v| in_place(t, v, out)),
		(Ty::Tup(ts), Val::Tup(v)) => ts.iter().zip(v).for_each(|(t, v)| in_place(t, v, out)),
		_ => encode_value(t, v, out),
	}
}
