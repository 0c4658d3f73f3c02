//! C10 - C12: contracts as JSON, and looking things up in them.

use crate::dict::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::mon::*;
use crate::rng::Rng;
use ethabi::{Constructor, Contract, Event, EventParam, Function, Param, StateMutability, TupleParam};
use serde_json::Value;

// ---------------------------------------------------------------- the model of a document

#[derive(Clone, Debug, PartialEq)]
pub struct MParam {
	pub name: String,
	pub ty: Ty,
	pub internal: Option<String>,
	pub indexed: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub struct MFn {
	/// as in the document, possibly with a parenthesis
	pub raw: String,
	pub inputs: Vec<MParam>,
	pub outputs: Vec<MParam>,
	pub mutability: Option<&'static str>,
	pub constant: Option<bool>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct MEv {
	pub raw: String,
	pub inputs: Vec<MParam>,
	pub anonymous: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Entry {
	Con(Vec<MParam>),
	Fun(MFn),
	Ev(MEv),
	Fallback,
	Receive,
}

pub fn cut(raw: &str) -> &str {
	raw.split('(').next().unwrap()
}

pub fn name_of(r: &mut Rng, pool: &[String]) -> String {
	let base = if r.chance(1, 2) && !pool.is_empty() { r.pick(pool).clone() } else { ident(r) };
	match r.below(12) {
		0 => format!("{}(uint256,(bool,string))", base),
		1 => format!("{}(", base),
		2 => format!("({})", base),
		3 => {
			let n = size(r, 30);
			text(r, n)
		}
		4 => a_str(r).to_string(),
		_ => base,
	}
}

fn param(r: &mut Rng, depth: usize, indexed: bool) -> MParam {
	let n = size(r, 20);
	let mut t = ty(r, depth, ANY);
	if depth > 0 && r.chance(1, 80) {
		let d = deep(r, 34);
		t = deep_ty(r, d, SOLIDITY);
	}
	MParam {
		name: match r.below(8) {
			0 => String::new(),
			1 => text(r, n),
			2 => r.pick(&["name", "type", "components", "internalType", "indexed", "inputs", "tuple"]).to_string(),
			_ => ident(r),
		},
		internal: if r.chance(1, 3) {
			Some(match r.below(4) {
				// the type itself, and what Solidity writes for structs
				3 => t.name(),
				0 => "struct Foo.Bar[2]".into(),
				1 => String::new(),
				_ => text(r, n),
			})
		} else {
			None
		},
		indexed: indexed && r.chance(1, 3),
		ty: t,
	}
}

fn params(r: &mut Rng, indexed: bool, few: bool) -> Vec<MParam> {
	if few {
		return (0..r.below(3)).map(|_| param(r, 0, indexed)).collect();
	}
	let n = match r.below(8) {
		0 if r.chance(1, 60) => r.range(256, 300),
		0 => 0,
		1..=5 => r.range(1, 3),
		6 => r.range(3, 6),
		_ => r.range(5, 17),
	};
	let d = if n > 255 { 0 } else if n > 6 { 1 } else { r.range(0, 4) };
	(0..n).map(|_| param(r, d, indexed)).collect()
}

/// A document whose types also have sizes no value of could be built.
pub fn sized_document(r: &mut Rng) -> Vec<Entry> {
	let mut doc = document(r);
	if r.chance(1, 4) {
		for e in doc.iter_mut() {
			let mut lists: Vec<&mut Vec<MParam>> = match e {
				Entry::Fun(f) => vec![&mut f.inputs, &mut f.outputs],
				Entry::Ev(e) => vec![&mut e.inputs],
				Entry::Con(ps) => vec![ps],
				_ => vec![],
			};
			lists.iter_mut().flat_map(|l| l.iter_mut()).for_each(|p| crate::p_types::resize(r, &mut p.ty));
		}
	}
	doc
}

const MUTS: &[&str] = &["pure", "view", "nonpayable", "payable"];

pub fn document(r: &mut Rng) -> Vec<Entry> {
	let n = match r.below(16) {
		0 => 0,
		1..=9 => r.range(1, 6),
		10..=14 => r.range(4, 20),
		_ if r.chance(1, 12) => r.range(257, 800),
		_ => r.range(20, 120),
	};
	let many = n > 256;
	// all of one kind, at times
	let only = if many { *r.pick(&[None, Some(0), Some(5)]) } else { None };
	let pool: Vec<String> = (0..if many { 1 } else { r.range(1, 4) }).map(|_| ident(r)).collect();
	let mut doc = vec![];
	for _ in 0..n {
		let entry = match only.unwrap_or_else(|| r.below(9)) {
			0..=4 => {
				let e = MFn {
					raw: name_of(r, &pool),
					inputs: params(r, false, many),
					outputs: params(r, false, many),
					mutability: if r.chance(3, 4) { Some(MUTS[r.below(4)]) } else { None },
					constant: if r.chance(1, 3) { Some(r.bool()) } else { None },
				};
				// an exact or near duplicate among the overloads, sometimes
				if r.chance(1, 10) {
					doc.push(Entry::Fun(e.clone()));
				}
				Entry::Fun(e)
			}
			5..=7 => Entry::Ev(MEv { raw: name_of(r, &pool), inputs: params(r, true, many), anonymous: r.chance(1, 4) }),
			8 if r.bool() => Entry::Fallback,
			_ => Entry::Receive,
		};
		doc.push(entry);
	}
	if r.chance(1, 2) {
		let at = r.below(doc.len() + 1);
		doc.insert(at, Entry::Con(params(r, false, many)));
	}
	doc
}

// ---------------------------------------------------------------- writing JSON

#[derive(Clone, Debug, PartialEq)]
pub enum J {
	S(String),
	B(bool),
	Raw(&'static str),
	A(Vec<J>),
	O(Vec<(String, J)>),
}

pub struct Style {
	pub space: bool,
	pub escape: bool,
	pub unknown: bool,
	pub shuffle: bool,
}

pub fn style(r: &mut Rng) -> Style {
	Style { space: r.chance(1, 4), escape: r.chance(1, 4), unknown: r.chance(1, 2), shuffle: r.chance(1, 2) }
}

fn write_str(r: &mut Rng, s: &str, st: &Style, out: &mut String) {
	out.push('"');
	for ch in s.chars() {
		match ch {
			'"' => out.push_str("\\\""),
			'\\' => out.push_str("\\\\"),
			c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
			c if st.escape && r.chance(1, 3) => {
				let mut b = [0u16; 2];
				for u in c.encode_utf16(&mut b) {
					out.push_str(&format!("\\u{:04X}", u));
				}
			}
			c => out.push(c),
		}
	}
	out.push('"');
}

pub fn write(r: &mut Rng, j: &J, st: &Style, out: &mut String) {
	let sp = |r: &mut Rng, out: &mut String| {
		if st.space && r.chance(1, 2) {
			out.push_str(*r.pick(&[" ", "\n", "\t", "\r\n  "]));
		}
	};
	match j {
		J::S(s) => write_str(r, s, st, out),
		J::B(b) => out.push_str(if *b { "true" } else { "false" }),
		J::Raw(s) => out.push_str(s),
		J::A(v) => {
			out.push('[');
			for (i, x) in v.iter().enumerate() {
				if i > 0 {
					out.push(',');
				}
				sp(r, out);
				write(r, x, st, out);
				sp(r, out);
			}
			out.push(']');
		}
		J::O(v) => {
			out.push('{');
			for (i, (k, x)) in v.iter().enumerate() {
				if i > 0 {
					out.push(',');
				}
				sp(r, out);
				write_str(r, k, st, out);
				sp(r, out);
				out.push(':');
				sp(r, out);
				write(r, x, st, out);
				sp(r, out);
			}
			out.push('}');
		}
	}
}

pub fn to_text(r: &mut Rng, j: &J, st: &Style) -> String {
	let mut s = String::new();
	write(r, j, st, &mut s);
	s
}

fn junk(r: &mut Rng, depth: usize) -> J {
	match r.below(if depth == 0 { 4 } else { 6 }) {
		0 => J::Raw("null"),
		1 => J::Raw(r.pick(&["0", "-1", "1.5e3", "18446744073709551616", "true"])),
		2 => J::S(r.pick(&["uint256", "tuple", "(", "", "x", "function"]).to_string()),
		3 => J::B(r.bool()),
		4 => J::A((0..r.below(4)).map(|_| junk(r, depth - 1)).collect()),
		_ => J::O(
			(0..r.below(4)).map(|_| (r.pick(&["name", "type", "k", "components", "inputs"]).to_string(), junk(r, depth - 1))).collect(),
		),
	}
}

fn decorate(r: &mut Rng, mut o: Vec<(String, J)>, st: &Style, unknown: &[&str]) -> J {
	if st.unknown && r.chance(1, 2) {
		for _ in 0..r.range(1, 2) {
			let k = if r.chance(1, 10) {
				let n = r.range(1, 12);
				format!("{}!", text(r, n))
			} else {
				r.pick(unknown).to_string()
			};
			let v = junk(r, 2);
			let at = r.below(o.len() + 1);
			o.insert(at, (k, v));
		}
	}
	if st.shuffle {
		r.shuffle(&mut o);
	}
	J::O(o)
}

fn components(r: &mut Rng, members: &[Ty], st: &Style) -> J {
	J::A(
		members
			.iter()
			.map(|t| {
				let mut o = vec![("type".to_string(), J::S(json_type(r, t)))];
				if r.chance(4, 5) {
					o.insert(0, ("name".into(), J::S(ident(r))));
				}
				if r.chance(1, 3) {
					o.push(("internalType".into(), J::S(t.name())));
				}
				if let Some(m) = t.inner_tuple() {
					o.push(("components".into(), components(r, m, st)));
				}
				decorate(r, o, st, &["indexed", "simpleType", "typeName", "Name", "doc"])
			})
			.collect(),
	)
}

/// `int` and `uint` here and there.
fn json_type(r: &mut Rng, t: &Ty) -> String {
	let n = t.json_name();
	if r.chance(1, 6) {
		for (long, short) in [("uint256", "uint"), ("int256", "int")] {
			if let Some(rest) = n.strip_prefix(long).filter(|rest| !rest.starts_with(|c: char| c.is_ascii_digit())) {
				return format!("{}{}", short, rest);
			}
		}
	}
	n
}

pub fn param_json(r: &mut Rng, p: &MParam, event: bool, st: &Style) -> J {
	let mut o = vec![("name".to_string(), J::S(p.name.clone())), ("type".to_string(), J::S(json_type(r, &p.ty)))];
	if let Some(m) = p.ty.inner_tuple() {
		o.push(("components".into(), components(r, m, st)));
	}
	if let Some(i) = &p.internal {
		o.push(("internalType".into(), J::S(i.clone())));
	}
	if event {
		if p.indexed || r.chance(3, 4) {
			o.push(("indexed".into(), J::B(p.indexed)));
		}
		decorate(r, o, st, &["simpleType", "typeName", "Name", "doc", "anonymous"])
	} else {
		decorate(r, o, st, &["indexed", "simpleType", "typeName", "Name", "doc", "anonymous"])
	}
}

fn params_json(r: &mut Rng, ps: &[MParam], event: bool, st: &Style) -> J {
	J::A(ps.iter().map(|p| param_json(r, p, event, st)).collect())
}

pub fn entry_json(r: &mut Rng, e: &Entry, st: &Style, tag: bool) -> J {
	let t = |s: &str| ("type".to_string(), J::S(s.to_string()));
	let unknown = &["payable", "gas", "doc", "signature", "internalType", "components", "devdoc"];
	let mut o = match e {
		Entry::Con(ps) => {
			vec![t("constructor"), ("inputs".into(), params_json(r, ps, false, st))]
		}
		Entry::Fun(f) => {
			let mut o = vec![
				t("function"),
				("name".into(), J::S(f.raw.clone())),
				("inputs".into(), params_json(r, &f.inputs, false, st)),
				("outputs".into(), params_json(r, &f.outputs, false, st)),
			];
			if let Some(m) = f.mutability {
				o.push(("stateMutability".into(), J::S(m.into())));
			}
			if let Some(b) = f.constant {
				o.push(("constant".into(), J::B(b)));
			}
			o
		}
		Entry::Ev(e) => vec![
			t("event"),
			("name".into(), J::S(e.raw.clone())),
			("inputs".into(), params_json(r, &e.inputs, true, st)),
			("anonymous".into(), J::B(e.anonymous)),
		],
		Entry::Fallback => vec![t("fallback")],
		Entry::Receive => vec![t("receive")],
	};
	if !tag {
		o.remove(0);
	}
	if matches!(e, Entry::Fallback | Entry::Receive) && r.bool() {
		o.push(("stateMutability".into(), J::S("payable".into())));
	}
	decorate(r, o, st, unknown)
}

pub fn doc_json(r: &mut Rng, doc: &[Entry], st: &Style) -> J {
	J::A(doc.iter().map(|e| entry_json(r, e, st, true)).collect())
}

// ---------------------------------------------------------------- comparing

pub fn load(text: &str, how: usize) -> Result<Result<Contract, String>, String> {
	sut("loading a contract", || match how {
		0 => Contract::load(text.as_bytes()).map_err(|e| e.to_string()),
		1 => serde_json::from_str::<Contract>(text).map_err(|e| e.to_string()),
		2 => serde_json::from_slice::<Contract>(text.as_bytes()).map_err(|e| e.to_string()),
		_ => Contract::load(Trickle(text.as_bytes())).map_err(|e| e.to_string()),
	})
	.map_err(|e| format!("{}\n  document {}", e, clip(text, 6000)))
}

/// Hands out a few bytes at a time, as a slow file or socket would.
struct Trickle<'a>(&'a [u8]);
impl std::io::Read for Trickle<'_> {
	fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
		let n = out.len().min(3).min(self.0.len());
		out[..n].copy_from_slice(&self.0[..n]);
		self.0 = &self.0[n..];
		Ok(n)
	}
}

/// Hands out pieces of any size, with interruptions, and may fail before its end.
struct Faulty<'a> {
	data: &'a [u8],
	rng: Rng,
	piece: usize,
	fail: bool,
}
impl std::io::Read for Faulty<'_> {
	fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
		if self.rng.chance(1, 5) {
			return Err(std::io::ErrorKind::Interrupted.into());
		}
		if self.data.is_empty() && self.fail {
			return Err(std::io::ErrorKind::ConnectionReset.into());
		}
		let n = out.len().min(self.rng.range(1, self.piece)).min(self.data.len());
		out[..n].copy_from_slice(&self.data[..n]);
		self.data = &self.data[n..];
		Ok(n)
	}
}

/// Takes pieces of any size, with interruptions, and fails once when full, or from then on.
struct Sink {
	taken: Vec<u8>,
	room: usize,
	rng: Rng,
	piece: usize,
	once: bool,
	failed: bool,
}
impl std::io::Write for Sink {
	fn write(&mut self, data: &[u8]) -> std::io::Result<usize> {
		if self.rng.chance(1, 5) {
			return Err(std::io::ErrorKind::Interrupted.into());
		}
		if self.taken.len() >= self.room && !(self.failed && self.once) {
			self.failed = true;
			return Err(std::io::ErrorKind::BrokenPipe.into());
		}
		let n = data.len().min(self.rng.range(1, self.piece));
		self.taken.extend_from_slice(&data[..n]);
		Ok(n)
	}
	fn flush(&mut self) -> std::io::Result<()> {
		Ok(())
	}
}

/// Serializing into a sink that fails gives an error, and into one that stutters, everything.
fn sinks(c: &mut Ctx, write: impl FnOnce(&mut Sink) -> serde_json::Result<()>, whole: usize, about: &str) -> Result<Option<Vec<u8>>, String> {
	let fails = c.rng.bool();
	let mut w = Sink {
		taken: vec![],
		room: if fails { c.rng.below(whole.max(1)) } else { usize::MAX },
		rng: Rng::new(c.rng.next()),
		piece: *c.rng.pick(&[1, 3, 64, 5000]),
		once: c.rng.bool(),
		failed: false,
	};
	let got = sut("serializing into a sink", || write(&mut w)).map_err(|e| format!("{}\n  {}", e, about))?;
	if w.failed {
		c.obs("sinks: failing");
		ensure!(got.is_err(), "a sink that failed after {} bytes gives no error\n  {}", w.room, about);
		return Ok(None);
	}
	c.obs("sinks: stuttering");
	ensure!(got.is_ok(), "a sink with interruptions gives {:?}\n  {}", got, about);
	Ok(Some(w.taken))
}

/// The same document from sources that stutter, fail, end early, go on, or have a byte changed.
fn faults(c: &mut Ctx, text: &str, doc: &[Entry]) -> Res {
	let whole = text.as_bytes();
	let end = text.trim_end().len();
	let rng = Rng::new(c.rng.next());
	let piece = *c.rng.pick(&[1, 2, 7, 64, 5000]);
	let at = c.rng.below(end + 1);
	let ctx = |e: String| format!("{}\n  document {}", e, clip(text, 6000));
	let read = |data: &[u8], fail: bool| {
		sut("loading a contract", || Contract::load(Faulty { data, rng: rng.clone(), piece, fail })).map_err(ctx)
	};
	match c.rng.below(6) {
		0 => {
			c.obs("sources: stuttering");
			match read(whole, false)? {
				Err(e) => return Err(ctx(format!("a document read with interruptions is refused: {}", e))),
				Ok(k) => compare(&k, doc).map_err(ctx)?,
			}
		}
		1 => {
			c.obs("sources: failing");
			let got = read(&whole[..at], true)?;
			ensure!(got.is_err(), "a source that fails after {} bytes gives {:?}\n  document {}", at, got, clip(text, 6000));
		}
		2 if at < end => {
			c.obs("sources: truncated");
			let got = read(&whole[..at], false)?;
			ensure!(got.is_err(), "the first {} bytes of a document give {:?}\n  document {}", at, got, clip(text, 6000));
		}
		3 => {
			c.obs("sources: more after the document");
			let mut more = whole.to_vec();
			more.extend_from_slice(c.rng.pick(&["]", "[]", "{}", ",", "null", "x", "\0", "\u{feff}", "//", " [", "\n]"]).as_bytes());
			let got = read(&more, false)?;
			ensure!(got.is_err(), "a document with more after it is accepted\n  document {}", clip(&String::from_utf8_lossy(&more), 6000));
		}
		_ => {
			// whatever it now says, all routes must say the same, without a panic
			let mut bytes = whole.to_vec();
			for _ in 0..c.rng.range(1, 3) {
				let i = c.rng.below(bytes.len());
				match c.rng.below(5) {
					0 => bytes[i] ^= 1 << c.rng.below(8),
					1 => bytes[i] = *c.rng.pick(b"\"\\{}[]():,0123456789 uintbytesfalsenullE+-.\xff"),
					2 => {
						bytes.remove(i);
						if bytes.is_empty() {
							return Ok(());
						}
					}
					3 => bytes.insert(i, *c.rng.pick(b"\"\\{}[]():,0123456789 uintbytesfalsenull")),
					_ => {
						let j = c.rng.below(bytes.len());
						bytes.swap(i, j)
					}
				}
			}
			c.obs("sources: a byte changed");
			let show = |e: String| format!("{}\n  document {}", e, clip(&String::from_utf8_lossy(&bytes), 6000));
			let a = sut("loading a contract", || Contract::load(&bytes[..])).map_err(show)?;
			let b = sut("loading a contract", || serde_json::from_slice::<Contract>(&bytes)).map_err(show)?;
			let d = read(&bytes, false)?;
			match (&a, &b, &d) {
				(Ok(a), Ok(b), Ok(d)) => {
					c.obs("sources: a byte changed, accepted");
					ensure!(a == b && a == d, "two ways to load give {:?} and {:?} and {:?}\n  {}", a, b, d, show(String::new()))
				}
				(Err(_), Err(_), Err(_)) => {}
				_ => return Err(show(format!("two ways to load give {:?} and {:?} and {:?}", a.is_ok(), b.is_ok(), d.is_ok()))),
			}
		}
	}
	Ok(())
}

pub fn same_param(p: &Param, m: &MParam) -> bool {
	p.name == m.name && Ty::from_sut(&p.kind) == m.ty && p.internal_type == m.internal
}
pub fn same_event_param(p: &EventParam, m: &MParam) -> bool {
	p.name == m.name && Ty::from_sut(&p.kind) == m.ty && p.indexed == m.indexed
}
fn all<A, B>(a: &[A], b: &[B], f: impl Fn(&A, &B) -> bool) -> bool {
	a.len() == b.len() && a.iter().zip(b).all(|(a, b)| f(a, b))
}
pub fn mut_of(s: Option<&str>) -> StateMutability {
	match s {
		Some("pure") => StateMutability::Pure,
		Some("view") => StateMutability::View,
		Some("payable") => StateMutability::Payable,
		_ => StateMutability::NonPayable,
	}
}
#[allow(deprecated)]
pub fn same_function(f: &Function, m: &MFn) -> bool {
	f.name == cut(&m.raw)
		&& all(&f.inputs, &m.inputs, same_param)
		&& all(&f.outputs, &m.outputs, same_param)
		&& f.state_mutability == mut_of(m.mutability)
		&& f.constant == m.constant.unwrap_or(false)
}
pub fn same_event(e: &Event, m: &MEv) -> bool {
	e.name == cut(&m.raw) && all(&e.inputs, &m.inputs, same_event_param) && e.anonymous == m.anonymous
}

pub fn functions(doc: &[Entry]) -> Vec<&MFn> {
	doc.iter().filter_map(|e| if let Entry::Fun(f) = e { Some(f) } else { None }).collect()
}
pub fn events(doc: &[Entry]) -> Vec<&MEv> {
	doc.iter().filter_map(|e| if let Entry::Ev(f) = e { Some(f) } else { None }).collect()
}
fn distinct_names<'a>(names: impl Iterator<Item = &'a str>) -> Vec<&'a str> {
	let mut v: Vec<&str> = names.collect();
	v.sort();
	v.dedup();
	v
}

/// Every declared item is there as declared, in order among its overloads, and nothing else.
pub fn compare(c: &Contract, doc: &[Entry]) -> Res {
	let con = doc.iter().find_map(|e| if let Entry::Con(p) = e { Some(p) } else { None });
	match (&c.constructor, con) {
		(None, None) => {}
		(Some(k), Some(m)) => ensure!(all(&k.inputs, m, same_param), "constructor is {:?} and not {:?}", k, m),
		(k, m) => return Err(format!("constructor is {:?} and not {:?}", k, m)),
	}
	ensure!(c.fallback == doc.contains(&Entry::Fallback), "fallback is {}", c.fallback);
	ensure!(c.receive == doc.contains(&Entry::Receive), "receive is {}", c.receive);
	let fs = functions(doc);
	let fnames = distinct_names(fs.iter().map(|f| cut(&f.raw)));
	ensure!(c.functions.len() == fnames.len(), "{} function names and not {}", c.functions.len(), fnames.len());
	for n in fnames {
		let want: Vec<&MFn> = fs.iter().filter(|f| cut(&f.raw) == n).copied().collect();
		match c.functions.get(n) {
			None => return Err(format!("function {:?} is lost", n)),
			Some(got) => ensure!(
				all(got, &want, |f, m| same_function(f, m)),
				"functions named {:?} are\n  {:?}\n and not\n  {:?}",
				n,
				got,
				want
			),
		}
	}
	let es = events(doc);
	let enames = distinct_names(es.iter().map(|f| cut(&f.raw)));
	ensure!(c.events.len() == enames.len(), "{} event names and not {}", c.events.len(), enames.len());
	for n in enames {
		let want: Vec<&MEv> = es.iter().filter(|f| cut(&f.raw) == n).copied().collect();
		match c.events.get(n) {
			None => return Err(format!("event {:?} is lost", n)),
			Some(got) => ensure!(
				all(got, &want, |f, m| same_event(f, m)),
				"events named {:?} are\n  {:?}\n and not\n  {:?}",
				n,
				got,
				want
			),
		}
	}
	Ok(())
}

// ---------------------------------------------------------------- C10

/// One change after which the document must be refused. Returns what was done.
fn spoil(r: &mut Rng, j: &mut J) -> Option<String> {
	let entries = match j {
		J::A(v) if !v.is_empty() => v,
		_ => return None,
	};
	let i = r.below(entries.len());
	let tag = match &entries[i] {
		J::O(o) => o.iter().find(|(k, _)| k == "type").and_then(|(_, v)| if let J::S(s) = v { Some(s.clone()) } else { None })?,
		_ => return None,
	};
	let o = match &mut entries[i] {
		J::O(o) => o,
		_ => return None,
	};
	let get = |o: &Vec<(String, J)>, k: &str| o.iter().position(|(x, _)| x == k);
	if r.chance(1, 5) {
		// the entry itself
		let t = get(o, "type")?;
		return Some(match r.below(5) {
			0 => {
				let bad = *r.pick(&["error", "struct", "Function", "", "func", "functions", "event ", "modifier"]);
				o[t].1 = J::S(bad.into());
				format!("entry type {:?}", bad)
			}
			1 => {
				o.remove(t);
				"entry without a type".into()
			}
			2 if tag == "function" => {
				if let Some(m) = get(o, "stateMutability") {
					o.remove(m);
				}
				let bad = *r.pick(&["Pure", "constant", "", "non-payable", "views"]);
				o.push(("stateMutability".into(), J::S(bad.into())));
				format!("mutability {:?}", bad)
			}
			3 if tag == "function" || tag == "event" => {
				let n = get(o, "name")?;
				o.remove(n);
				"entry without a name".into()
			}
			_ if tag == "function" || tag == "event" => {
				let n = get(o, "name")?;
				o[n].1 = J::Raw("7");
				"number for a name".into()
			}
			_ => return None,
		});
	}
	// one of its parameters, or of their components
	let field = if tag == "function" && r.bool() { "outputs" } else { "inputs" };
	let at = get(o, field)?;
	let mut list = &mut o[at].1;
	let mut nested = false;
	loop {
		let v = match list {
			J::A(v) if !v.is_empty() => v,
			_ => return None,
		};
		let k = r.below(v.len());
		let p = match &mut v[k] {
			J::O(p) => p,
			_ => return None,
		};
		let comp = get(p, "components");
		if comp.is_some() && r.chance(2, 3) {
			list = &mut p[comp.unwrap()].1;
			nested = true;
			continue;
		}
		let event = tag == "event";
		let is_tuple = comp.is_some();
		let place = if nested { "component" } else { "parameter" };
		return Some(match r.below(8) {
			0 if !nested => {
				let n = get(p, "name")?;
				p.remove(n);
				format!("{} without a name", place)
			}
			0 | 1 => {
				let n = get(p, "type")?;
				p.remove(n);
				format!("{} without a type", place)
			}
			2 | 3 => {
				// duplicated field, same or other value, anywhere
				let mut known = vec!["type"];
				if get(p, "name").is_some() {
					known.push("name");
				}
				if is_tuple {
					known.push("components");
				}
				if event && !nested && get(p, "indexed").is_some() {
					known.push("indexed");
				}
				if (!event || nested) && get(p, "internalType").is_some() {
					known.push("internalType");
				}
				let k = *r.pick(&known);
				let mut copy = p[get(p, k)?].clone();
				if r.bool() {
					copy.1 = match k {
						"type" if !is_tuple => J::S("bool".into()),
						"name" | "internalType" => J::S("zz".into()),
						"indexed" => J::B(r.bool()),
						_ => copy.1,
					};
				}
				let at = r.below(p.len() + 1);
				p.insert(at, copy);
				format!("duplicated {} of a {}", k, place)
			}
			4 if is_tuple => {
				let n = get(p, "components")?;
				p.remove(n);
				format!("tuple {} without components", place)
			}
			5 => {
				let n = get(p, "type")?;
				p[n].1 = r.pick(&[J::Raw("7"), J::Raw("null"), J::Raw("true"), J::A(vec![]), J::O(vec![])]).clone();
				format!("type of a {} is not a string", place)
			}
			_ => {
				let n = get(p, "type")?;
				let bad = *r.pick(&[
					"", "uint256[", "uint256]", "unit256", "uint256 ", " bool", "bytes-1", "uintx", "bool[-1]", "bool[x]", "tuple]",
					"mapping(uint256=>bool)", "tuple[", "((bool)", "(bool,)", "string[3", "bool[2.5]", "uint256[]]", "struct", "é", "é[]",
					"tuples", "tuple[]x", "uint256[3] ", "boolx", "addresspayable",
				]);
				debug_assert!(crate::p_types::recognise(bad) == crate::p_types::Verdict::Malformed);
				p[n].1 = J::S(bad.into());
				format!("type {:?} of a {}", bad, place)
			}
		});
	}
}

pub fn c10(c: &mut Ctx) -> Res {
	let doc = sized_document(&mut c.rng);
	let st = style(&mut c.rng);
	let mut j = doc_json(&mut c.rng, &doc, &st);
	let how = c.rng.below(4);
	if c.rng.chance(1, 3) {
		if let Some(what) = spoil(&mut c.rng, &mut j) {
			let text = to_text(&mut c.rng, &j, &st);
			let got = load(&text, how)?;
			c.obs("spoilt documents");
			c.count(&format!("spoilt: {}", what.split('"').next().unwrap().trim()));
			ensure!(got.is_err(), "a document with {} is accepted\n  document {}\n  as {:?}", what, clip(&text, 6000), got);
			c.nontrivial(text.as_bytes());
			return Ok(());
		}
	}
	let mut text = to_text(&mut c.rng, &j, &st);
	if c.rng.chance(1, 800) {
		// long, and nothing but blanks more
		let n = c.rng.below(3 << 20);
		let at = text.find('[').map_or(0, |i| i + c.rng.below(2));
		text.insert_str(at, &" ".repeat(n));
		c.count("padded to megabytes");
	}
	match load(&text, how)? {
		Err(e) => return Err(format!("a valid document is refused: {}\n  document {}", e, clip(&text, 6000))),
		Ok(k) => compare(&k, &doc).map_err(|e| format!("{}\n  document {}", clip(&e, 4000), clip(&text, 6000)))?,
	}
	c.obs("documents loaded");
	c.count(if st.shuffle { "keys: shuffled" } else { "keys: usual order" });
	c.count(if st.unknown { "unknown keys: yes" } else { "unknown keys: no" });
	for e in &doc {
		c.count(match e {
			Entry::Con(_) => "entries: constructor",
			Entry::Fun(_) => "entries: function",
			Entry::Ev(_) => "entries: event",
			Entry::Fallback => "entries: fallback",
			Entry::Receive => "entries: receive",
		});
	}
	if c.rng.chance(1, 3) {
		faults(c, &text, &doc)?;
	}
	// items on their own
	for e in doc.iter().take(4) {
		let r = &mut c.rng;
		let j = entry_json(r, e, &st, false);
		let t = to_text(r, &j, &st);
		let bad = |what: &str, got: String| Err(format!("{} is read as {}\n  from {}", what, clip(&got, 3000), clip(&t, 4000)));
		match e {
			Entry::Con(m) => {
				match sut("reading a constructor", || serde_json::from_str::<Constructor>(&t))? {
					Ok(k) if all(&k.inputs, m, same_param) => {}
					other => return bad("a constructor", format!("{:?}", other)),
				}
			}
			Entry::Fun(m) => match sut("reading a function", || serde_json::from_str::<Function>(&t))? {
				Ok(k) if same_function(&k, m) => {}
				other => return bad("a function", format!("{:?}", other)),
			},
			Entry::Ev(m) => match sut("reading an event", || serde_json::from_str::<Event>(&t))? {
				Ok(k) if same_event(&k, m) => {}
				other => return bad("an event", format!("{:?}", other)),
			},
			_ => continue,
		}
		c.obs("single items read");
		let list: &[MParam] = match e {
			Entry::Con(m) => m,
			Entry::Fun(f) => &f.inputs,
			Entry::Ev(e) => &e.inputs,
			_ => &[],
		};
		if let Some(m) = list.first() {
			let r = &mut c.rng;
			let as_event = matches!(e, Entry::Ev(_));
			let j = param_json(r, m, as_event, &st);
			let t = to_text(r, &j, &st);
			if as_event {
				match sut("reading an event parameter", || serde_json::from_str::<EventParam>(&t))? {
					Ok(p) if same_event_param(&p, m) => {}
					other => return Err(format!("an event parameter is read as {:?}\n  from {}", other, t)),
				}
			} else {
				match sut("reading a parameter", || serde_json::from_str::<Param>(&t))? {
					Ok(p) if same_param(&p, m) => {}
					other => return Err(format!("a parameter is read as {:?}\n  from {}", other, t)),
				}
				match sut("reading a tuple parameter", || serde_json::from_str::<TupleParam>(&t))? {
					Ok(p) if p.name.as_ref() == Some(&m.name) && Ty::from_sut(&p.kind) == m.ty && p.internal_type == m.internal => {}
					other => return Err(format!("a tuple parameter is read as {:?}\n  from {}", other, t)),
				}
			}
			c.obs("single parameters read");
		}
	}
	if !doc.is_empty() {
		c.nontrivial(text.as_bytes());
	}
	c.max("most entries", doc.len() as u64);
	c.max("longest document (bytes)", text.len() as u64);
	c.sample(|| text.clone());
	Ok(())
}

// ---------------------------------------------------------------- C11

fn shape_params(v: Option<&Value>, ms: &[MParam], event: bool) -> bool {
	let list = match v.and_then(Value::as_array) {
		Some(l) => l,
		None => return false,
	};
	all(list, ms, |v, m| {
		v["name"].as_str() == Some(&m.name)
			&& shape_type(v, &m.ty)
			&& (event || v.get("internalType").and_then(Value::as_str) == m.internal.as_deref())
			&& (!event || v["indexed"].as_bool() == Some(m.indexed))
	})
}

/// `type` and, for tuples at every depth, `components`.
fn shape_type(v: &Value, t: &Ty) -> bool {
	v["type"].as_str() == Some(&t.json_name())
		&& match (t.inner_tuple(), v.get("components").and_then(Value::as_array)) {
			(None, None) => v.get("components").is_none(),
			(Some(ms), Some(vs)) => all(vs, ms, |v, m| shape_type(v, m)),
			_ => false,
		}
}

#[allow(deprecated)]
fn shape_function(v: &Value, m: &MFn) -> bool {
	v["name"].as_str() == Some(cut(&m.raw))
		&& shape_params(v.get("inputs"), &m.inputs, false)
		&& shape_params(v.get("outputs"), &m.outputs, false)
		&& v["stateMutability"].as_str() == Some(m.mutability.unwrap_or("nonpayable"))
		&& v.get("constant").map_or(m.constant != Some(true), |b| b.as_bool() == Some(m.constant.unwrap_or(false)))
}
fn shape_event(v: &Value, m: &MEv) -> bool {
	v["name"].as_str() == Some(cut(&m.raw))
		&& shape_params(v.get("inputs"), &m.inputs, true)
		&& v["anonymous"].as_bool() == Some(m.anonymous)
}

/// The standard shape, item for item, overloads in order.
fn check_shape(v: &Value, doc: &[Entry]) -> Res {
	let list = v.as_array().ok_or("the JSON form is not an array")?;
	let tagged = |t: &str| list.iter().filter(|v| v["type"].as_str() == Some(t)).collect::<Vec<_>>();
	let fs = functions(doc);
	let es = events(doc);
	let con = doc.iter().find_map(|e| if let Entry::Con(p) = e { Some(p) } else { None });
	let n = con.is_some() as usize
		+ fs.len() + es.len()
		+ doc.contains(&Entry::Fallback) as usize
		+ doc.contains(&Entry::Receive) as usize;
	ensure!(list.len() == n, "{} entries and not {}", list.len(), n);
	ensure!(tagged("fallback").len() == doc.contains(&Entry::Fallback) as usize, "fallback entries");
	ensure!(tagged("receive").len() == doc.contains(&Entry::Receive) as usize, "receive entries");
	match (con, tagged("constructor").as_slice()) {
		(None, []) => {}
		(Some(m), [v]) => ensure!(shape_params(v.get("inputs"), m, false), "constructor is written as {}", v),
		(_, vs) => return Err(format!("constructors written as {:?}", vs)),
	}
	let vf = tagged("function");
	for n in distinct_names(fs.iter().map(|f| cut(&f.raw))) {
		let want: Vec<&MFn> = fs.iter().filter(|f| cut(&f.raw) == n).copied().collect();
		let got: Vec<&Value> = vf.iter().filter(|v| v["name"].as_str() == Some(n)).copied().collect();
		ensure!(all(&got, &want, |v, m| shape_function(v, m)), "functions {:?} are written as {:?}", n, got);
	}
	let ve = tagged("event");
	for n in distinct_names(es.iter().map(|f| cut(&f.raw))) {
		let want: Vec<&MEv> = es.iter().filter(|f| cut(&f.raw) == n).copied().collect();
		let got: Vec<&Value> = ve.iter().filter(|v| v["name"].as_str() == Some(n)).copied().collect();
		ensure!(all(&got, &want, |v, m| shape_event(v, m)), "events {:?} are written as {:?}", n, got);
	}
	Ok(())
}

pub fn c11(c: &mut Ctx) -> Res {
	let doc = sized_document(&mut c.rng);
	let st = style(&mut c.rng);
	let j = doc_json(&mut c.rng, &doc, &st);
	let text = to_text(&mut c.rng, &j, &st);
	let k = match load(&text, 0)? {
		Ok(k) => k,
		Err(_) => {
			// whether it loads is C10's business
			c.count("not loaded");
			return Ok(());
		}
	};
	if compare(&k, &doc).is_err() {
		c.count("loaded differently");
		return Ok(());
	}
	let ctx = |e: String| format!("{}\n  document {}", clip(&e, 5000), clip(&text, 5000));
	let out = sut("serializing a contract", || match c.rng.below(4) {
		0 => serde_json::to_string(&k),
		1 => serde_json::to_string_pretty(&k),
		2 => serde_json::to_vec(&k).map(|v| String::from_utf8(v).unwrap()),
		_ => serde_json::to_value(&k).map(|v| v.to_string()),
	})
	.map_err(ctx)?
	.map_err(|e| ctx(format!("serializing fails: {}", e)))?;
	let v: Value = serde_json::from_str(&out).map_err(|e| ctx(format!("not JSON: {}: {}", e, out)))?;
	check_shape(&v, &doc).map_err(|e| ctx(format!("{}\n  written {}", e, clip(&out, 4000))))?;
	c.obs("contracts serialized");
	let again = load(&out, c.rng.below(4)).map_err(ctx)?;
	match again {
		Err(e) => return Err(ctx(format!("the serialized contract does not load: {}\n  written {}", e, clip(&out, 4000)))),
		Ok(again) => {
			compare(&again, &doc).map_err(|e| ctx(format!("after a round trip: {}\n  written {}", e, clip(&out, 4000))))?;
			let eq = sut("==", || again == k)?;
			ensure!(eq, "{}", ctx("the reloaded contract is not equal".into()));
		}
	}
	c.obs("contracts reloaded");
	if c.rng.chance(1, 3) {
		if let Some(b) = sinks(c, |w| serde_json::to_writer(w, &k), out.len(), &clip(&text, 5000))? {
			let v: Value = serde_json::from_slice(&b).map_err(|e| ctx(format!("not JSON in a sink: {}", e)))?;
			check_shape(&v, &doc).map_err(|e| ctx(format!("{}\n  written {}", e, clip(&String::from_utf8_lossy(&b), 4000))))?;
		}
	}
	for e in doc.iter().take(5) {
		let r = match e {
			Entry::Fun(m) => {
				let f = k.functions[cut(&m.raw)].iter().find(|f| same_function(f, m)).unwrap().clone();
				let s = sut("serializing a function", || serde_json::to_string(&f)).map_err(ctx)?.map_err(|e| ctx(e.to_string()))?;
				let v: Value = serde_json::from_str(&s).map_err(|e| ctx(e.to_string()))?;
				if c.rng.chance(1, 4) {
					sinks(c, |w| serde_json::to_writer(w, &f), s.len(), &s)?;
				}
				ensure!(shape_function(&v, m), "function {:?} is written as {}", f, s);
				let back = sut("reading a function", || serde_json::from_str::<Function>(&s)).map_err(ctx)?;
				(matches!(&back, Ok(b) if same_function(b, m) && *b == f), format!("function {:?} -> {} -> {:?}", f, s, back))
			}
			Entry::Ev(m) => {
				let f = k.events[cut(&m.raw)].iter().find(|f| same_event(f, m)).unwrap().clone();
				let s = sut("serializing an event", || serde_json::to_string(&f)).map_err(ctx)?.map_err(|e| ctx(e.to_string()))?;
				let v: Value = serde_json::from_str(&s).map_err(|e| ctx(e.to_string()))?;
				if c.rng.chance(1, 4) {
					sinks(c, |w| serde_json::to_writer(w, &f), s.len(), &s)?;
				}
				ensure!(shape_event(&v, m), "event {:?} is written as {}", f, s);
				let back = sut("reading an event", || serde_json::from_str::<Event>(&s)).map_err(ctx)?;
				(matches!(&back, Ok(b) if same_event(b, m) && *b == f), format!("event {:?} -> {} -> {:?}", f, s, back))
			}
			Entry::Con(m) => {
				let f = k.constructor.clone().unwrap();
				let s = sut("serializing a constructor", || serde_json::to_string(&f)).map_err(ctx)?.map_err(|e| ctx(e.to_string()))?;
				let v: Value = serde_json::from_str(&s).map_err(|e| ctx(e.to_string()))?;
				if c.rng.chance(1, 4) {
					sinks(c, |w| serde_json::to_writer(w, &f), s.len(), &s)?;
				}
				ensure!(shape_params(v.get("inputs"), m, false), "constructor {:?} is written as {}", f, s);
				let back = sut("reading a constructor", || serde_json::from_str::<Constructor>(&s)).map_err(ctx)?;
				(matches!(&back, Ok(b) if all(&b.inputs, m, same_param) && *b == f), format!("constructor {:?} -> {} -> {:?}", f, s, back))
			}
			_ => continue,
		};
		c.obs("single items round-tripped");
		ensure!(r.0, "an item does not round-trip: {}", clip(&r.1, 5000));
		let list: &[MParam] = match e {
			Entry::Con(m) => m,
			Entry::Fun(f) => &f.outputs,
			Entry::Ev(e) => &e.inputs,
			_ => &[],
		};
		for m in list.iter().take(3) {
			let p = Param { name: m.name.clone(), kind: m.ty.to_sut(), internal_type: m.internal.clone() };
			let q = EventParam { name: m.name.clone(), kind: m.ty.to_sut(), indexed: m.indexed };
			let t = TupleParam {
				name: if c.rng.bool() { Some(m.name.clone()) } else { None },
				kind: m.ty.to_sut(),
				internal_type: m.internal.clone(),
			};
			let s = sut("serializing a parameter", || serde_json::to_string(&p)).map_err(ctx)?.map_err(|e| ctx(e.to_string()))?;
			let v: Value = serde_json::from_str(&s).map_err(|e| ctx(e.to_string()))?;
			ensure!(shape_params(Some(&Value::Array(vec![v])), std::slice::from_ref(m), false), "{:?} is written as {}", p, s);
			if c.rng.chance(1, 6) {
				sinks(c, |w| serde_json::to_writer(w, &p), s.len(), &s)?;
				sinks(c, |w| serde_json::to_writer(w, &q), s.len(), &s)?;
				sinks(c, |w| serde_json::to_writer(w, &t), s.len(), &s)?;
			}
			let back = sut("reading a parameter", || serde_json::from_str::<Param>(&s)).map_err(ctx)?;
			ensure!(matches!(&back, Ok(b) if same_param(b, m)), "{:?} -> {} -> {:?}", p, s, back);
			let s = sut("serializing an event parameter", || serde_json::to_string(&q)).map_err(ctx)?.map_err(|e| ctx(e.to_string()))?;
			let v: Value = serde_json::from_str(&s).map_err(|e| ctx(e.to_string()))?;
			ensure!(shape_params(Some(&Value::Array(vec![v])), std::slice::from_ref(m), true), "{:?} is written as {}", q, s);
			let back = sut("reading an event parameter", || serde_json::from_str::<EventParam>(&s)).map_err(ctx)?;
			ensure!(matches!(&back, Ok(b) if same_event_param(b, m)), "{:?} -> {} -> {:?}", q, s, back);
			let s = sut("serializing a tuple parameter", || serde_json::to_string(&t)).map_err(ctx)?.map_err(|e| ctx(e.to_string()))?;
			let v: Value = serde_json::from_str(&s).map_err(|e| ctx(e.to_string()))?;
			ensure!(
				shape_type(&v, &m.ty) && v.get("name").and_then(Value::as_str) == t.name.as_deref(),
				"{:?} is written as {}",
				t,
				s
			);
			let back = sut("reading a tuple parameter", || serde_json::from_str::<TupleParam>(&s)).map_err(ctx)?;
			ensure!(
				matches!(&back, Ok(b) if b.name == t.name && Ty::from_sut(&b.kind) == m.ty && b.internal_type == t.internal_type),
				"{:?} -> {} -> {:?}",
				t,
				s,
				back
			);
			c.obs("parameters round-tripped");
		}
	}
	if !doc.is_empty() {
		c.nontrivial(text.as_bytes());
	}
	c.max("most entries", doc.len() as u64);
	c.sample(|| out.clone());
	Ok(())
}

// ---------------------------------------------------------------- C12

pub fn sut_param(m: &MParam) -> Param {
	Param { name: m.name.clone(), kind: m.ty.to_sut(), internal_type: m.internal.clone() }
}
#[allow(deprecated)]
pub fn sut_function(m: &MFn) -> Function {
	Function {
		name: cut(&m.raw).into(),
		inputs: m.inputs.iter().map(sut_param).collect(),
		outputs: m.outputs.iter().map(sut_param).collect(),
		constant: m.constant.unwrap_or(false),
		state_mutability: mut_of(m.mutability),
	}
}
pub fn sut_event(m: &MEv) -> Event {
	Event {
		name: cut(&m.raw).into(),
		inputs: m
			.inputs
			.iter()
			.map(|m| EventParam { name: m.name.clone(), kind: m.ty.to_sut(), indexed: m.indexed })
			.collect(),
		anonymous: m.anonymous,
	}
}
pub fn sut_contract(doc: &[Entry]) -> Contract {
	let mut k = Contract::default();
	for e in doc {
		match e {
			Entry::Con(m) => k.constructor = Some(Constructor { inputs: m.iter().map(sut_param).collect() }),
			Entry::Fun(m) => k.functions.entry(cut(&m.raw).into()).or_default().push(sut_function(m)),
			Entry::Ev(m) => k.events.entry(cut(&m.raw).into()).or_default().push(sut_event(m)),
			Entry::Fallback => k.fallback = true,
			Entry::Receive => k.receive = true,
		}
	}
	k
}

pub fn c12(c: &mut Ctx) -> Res {
	let doc = sized_document(&mut c.rng);
	let k = if c.rng.bool() {
		let st = style(&mut c.rng);
		let j = doc_json(&mut c.rng, &doc, &st);
		let text = to_text(&mut c.rng, &j, &st);
		match load(&text, 0)? {
			Ok(k) if compare(&k, &doc).is_ok() => k,
			_ => {
				c.count("loading differs (C10)");
				return Ok(());
			}
		}
	} else {
		sut_contract(&doc)
	};
	let before = k.clone();
	let ctx = |e: String| format!("{}\n  contract {}", clip(&e, 4000), clip(&format!("{:?}", before), 6000));
	let fs = functions(&doc);
	let es = events(&doc);
	// names: all declared ones, and near misses
	let mut probe: Vec<String> = vec![];
	for n in fs.iter().map(|f| &f.raw).chain(es.iter().map(|e| &e.raw)) {
		probe.push(cut(n).to_string());
		if probe.len() < 80 {
			probe.push(n.clone());
			probe.push(n.to_uppercase());
			probe.push(n.to_lowercase());
			probe.push(format!("{}()", cut(n)));
			probe.push(format!("{} ", cut(n)));
			probe.push(format!("_{}", cut(n)));
			let mut s = cut(n).to_string();
			s.pop();
			probe.push(s);
			probe.push(format!("{}2", cut(n)));
		}
	}
	probe.push(String::new());
	probe.push(any(&mut c.rng));
	probe.sort();
	probe.dedup();
	for n in &probe {
		let want: Vec<&MFn> = fs.iter().filter(|f| cut(&f.raw) == n).copied().collect();
		let got = sut("Contract::function", || k.function(n).map(|f| f.clone())).map_err(ctx)?;
		match (want.first(), got) {
			(None, Err(e)) if e.to_string().contains(&n[..]) => c.obs("lookups: undeclared"),
			(Some(m), Ok(f)) if same_function(&f, m) => c.obs("lookups: declared"),
			(m, got) => return Err(ctx(format!("function({:?}) gives {:?} and not {:?}", n, got, m))),
		}
		let got = sut("Contract::functions_by_name", || k.functions_by_name(n).map(|f| f.clone())).map_err(ctx)?;
		match (want.is_empty(), got) {
			(true, Err(e)) if e.to_string().contains(&n[..]) => {}
			(false, Ok(l)) if all(&l, &want, |f, m| same_function(f, m)) => {}
			(_, got) => return Err(ctx(format!("functions_by_name({:?}) gives {:?} and not {:?}", n, got, want))),
		}
		if want.len() > 1 {
			c.count("lookups: overloaded function");
		}
		let want: Vec<&MEv> = es.iter().filter(|f| cut(&f.raw) == n).copied().collect();
		let got = sut("Contract::event", || k.event(n).map(|f| f.clone())).map_err(ctx)?;
		match (want.first(), got) {
			(None, Err(e)) if e.to_string().contains(&n[..]) => c.obs("lookups: undeclared"),
			(Some(m), Ok(f)) if same_event(&f, m) => c.obs("lookups: declared"),
			(m, got) => return Err(ctx(format!("event({:?}) gives {:?} and not {:?}", n, got, m))),
		}
		let got = sut("Contract::events_by_name", || k.events_by_name(n).map(|f| f.clone())).map_err(ctx)?;
		match (want.is_empty(), got) {
			(true, Err(e)) if e.to_string().contains(&n[..]) => {}
			(false, Ok(l)) if all(&l, &want, |f, m| same_event(f, m)) => {}
			(_, got) => return Err(ctx(format!("events_by_name({:?}) gives {:?} and not {:?}", n, got, want))),
		}
		if want.len() > 1 {
			c.count("lookups: overloaded event");
		}
	}
	// iteration visits every declared item exactly once
	for _ in 0..2 {
		let mut got = sut("Contract::functions", || k.functions().cloned().collect::<Vec<_>>()).map_err(ctx)?;
		for m in &fs {
			match got.iter().position(|f| same_function(f, m)) {
				Some(i) => {
					got.swap_remove(i);
				}
				None => return Err(ctx(format!("functions() does not visit {:?}", m))),
			}
		}
		ensure!(got.is_empty(), "{}", ctx(format!("functions() visits {:?} in excess", got)));
		let mut got = sut("Contract::events", || k.events().cloned().collect::<Vec<_>>()).map_err(ctx)?;
		for m in &es {
			match got.iter().position(|f| same_event(f, m)) {
				Some(i) => {
					got.swap_remove(i);
				}
				None => return Err(ctx(format!("events() does not visit {:?}", m))),
			}
		}
		ensure!(got.is_empty(), "{}", ctx(format!("events() visits {:?} in excess", got)));
		// whichever way the iterator is driven
		let n = fs.len();
		let skip = c.rng.below(n + 2);
		let (count, rest, last, step, hint) = sut("Contract::functions", || {
			let mut it = k.functions();
			let nth = it.nth(skip).is_some();
			(k.functions().count(), nth as usize + it.count(), k.functions().last().is_some(), k.functions().step_by(2).count(), k.functions().size_hint())
		})
		.map_err(ctx)?;
		ensure!(
			count == n && rest == n.saturating_sub(skip) && last == (n > 0) && step == (n + 1) / 2 && hint.0 <= n && hint.1.map_or(true, |h| h >= n),
			"{}",
			ctx(format!("functions() of {} functions counts {}, {} after skipping {}, {} by twos, size hint {:?}", n, count, rest, skip, step, hint))
		);
		let n = es.len();
		let skip = c.rng.below(n + 2);
		let (count, rest, last, step, hint) = sut("Contract::events", || {
			let mut it = k.events();
			let nth = it.nth(skip).is_some();
			(k.events().count(), nth as usize + it.count(), k.events().last().is_some(), k.events().step_by(2).count(), k.events().size_hint())
		})
		.map_err(ctx)?;
		ensure!(
			count == n && rest == n.saturating_sub(skip) && last == (n > 0) && step == (n + 1) / 2 && hint.0 <= n && hint.1.map_or(true, |h| h >= n),
			"{}",
			ctx(format!("events() of {} events counts {}, {} after skipping {}, {} by twos, size hint {:?}", n, count, rest, skip, step, hint))
		);
		c.obs("iterations");
	}
	let con = doc.iter().find_map(|e| if let Entry::Con(p) = e { Some(p) } else { None });
	match (sut("Contract::constructor", || k.constructor().cloned())?, con) {
		(None, None) => {}
		(Some(k), Some(m)) if all(&k.inputs, m, same_param) => {}
		(k, m) => return Err(ctx(format!("constructor() gives {:?} and not {:?}", k, m))),
	}
	compare(&k, &doc).map_err(|e| ctx(format!("looking up changed the contract: {}", e)))?;
	c.obs("contracts unchanged after lookups");
	if fs.len() + es.len() > 0 {
		c.nontrivial(format!("{:?}", doc).as_bytes());
	}
	c.max("most functions", fs.len() as u64);
	c.sample(|| format!("{:?}", probe));
	Ok(())
}

fn any(r: &mut Rng) -> String {
	let n = size(r, 20);
	text(r, n)
}
