//! C08, C09: names of types.

use crate::dict::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::mon::*;
use crate::rng::Rng;
use ethabi::param_type::{Reader, Writer};
use ethabi::ParamType;

/// Any type the enum can hold, with any sizes.
fn any_ty(r: &mut Rng, idx: u64) -> Ty {
	let mut t = match r.below(8) {
		0 => {
			let d = r.range(6, 100);
			deep_ty(r, d, SOLIDITY)
		}
		1 => {
			let n = r.range(10, 60);
			Ty::Tup((0..n).map(|_| ty(r, 1, ANY)).collect())
		}
		2 => {
			let all = enumerate(3000);
			all[(idx as usize).wrapping_mul(7919) % all.len()].clone()
		}
		_ => {
			let d = r.range(0, 6);
			ty(r, d, ANY)
		}
	};
	if r.chance(1, 3) {
		resize(r, &mut t);
	}
	t
}

fn number(r: &mut Rng) -> usize {
	match r.below(8) {
		0 => a_num(r) as usize,
		1 => r.next() as usize,
		2 => *r.pick(&[0, 1, 9, 10, 11, 99, 100, 255, 256, 257, 65535, 65536, u32::MAX as usize, usize::MAX, usize::MAX - 1]),
		3 => 8 * r.range(1, 32),
		4 => {
			let b = r.below(64);
			r.next() as usize >> b
		}
		_ => r.below(1000),
	}
}

pub fn resize(r: &mut Rng, t: &mut Ty) {
	match t {
		Ty::Int(n) | Ty::Uint(n) | Ty::FBytes(n) => {
			if r.bool() {
				*n = number(r)
			}
		}
		Ty::FArr(t, n) => {
			if r.bool() {
				*n = number(r)
			}
			resize(r, t)
		}
		Ty::Arr(t) => resize(r, t),
		Ty::Tup(ts) => ts.iter_mut().for_each(|t| resize(r, t)),
		_ => {}
	}
}

/// The name with `int256` and `uint256` abbreviated here and there.
pub fn alias_name(r: &mut Rng, t: &Ty) -> String {
	match t {
		Ty::Int(256) if r.bool() => "int".into(),
		Ty::Uint(256) if r.bool() => "uint".into(),
		Ty::Arr(t) => alias_name(r, t) + "[]",
		Ty::FArr(t, n) => format!("{}[{}]", alias_name(r, t), n),
		Ty::Tup(ts) => format!("({})", ts.iter().map(|t| alias_name(r, t)).collect::<Vec<_>>().join(",")),
		_ => t.name(),
	}
}

fn read(name: &str, how: usize) -> Result<Result<ParamType, String>, String> {
	sut("reading a type name", || match how {
		0 => Reader::read(name).map_err(|e| e.to_string()),
		1 => serde_json::from_str::<ParamType>(&serde_json::to_string(name).unwrap()).map_err(|e| e.to_string()),
		2 => serde_json::from_value::<ParamType>(serde_json::Value::String(name.to_string())).map_err(|e| e.to_string()),
		_ => serde_json::from_reader::<_, ParamType>(serde_json::to_vec(name).unwrap().as_slice()).map_err(|e| e.to_string()),
	})
	.map_err(|e| format!("{}: name {:?}", e, clip(name, 3000)))
}

pub fn c08(c: &mut Ctx) -> Res {
	let t = any_ty(&mut c.rng, c.idx);
	let p = t.to_sut();
	let name = t.name();
	let written = sut("Writer::write", || Writer::write(&p)).map_err(|e| format!("{} for {}", e, name))?;
	ensure!(written == name, "Writer::write gives {:?} for the type {:?}", written, name);
	let shown = sut("ParamType::to_string", || p.to_string()).map_err(|e| format!("{} for {}", e, name))?;
	ensure!(shown == name, "to_string gives {:?} for the type {:?}", shown, name);
	let abi = sut("Writer::write_for_abi", || Writer::write_for_abi(&p, true)).map_err(|e| format!("{} for {}", e, name))?;
	ensure!(abi == name, "write_for_abi(_, true) gives {:?} for the type {:?}", abi, name);
	let json = sut("Writer::write_for_abi", || Writer::write_for_abi(&p, false)).map_err(|e| format!("{} for {}", e, name))?;
	ensure!(json == t.json_name(), "write_for_abi(_, false) gives {:?} for the type {:?}", json, name);
	c.obs("names written");
	let how = c.rng.below(4);
	let back = |c: &mut Ctx, name: &str, t: &Ty, what: &str| -> Res {
		match read(name, how)? {
			Ok(p) => {
				let got = Ty::from_sut(&p);
				c.obs(what);
				ensure!(&got == t, "the name {:?} is read as {}", name, got.name());
				Ok(())
			}
			Err(e) => Err(format!("the name {:?} is refused: {}", name, e)),
		}
	};
	if !has_empty_tuple(&t) {
		back(c, &written, &t, "names read back")?;
		let alias = alias_name(&mut c.rng, &t);
		if alias != name {
			back(c, &alias, &t, "aliases read")?;
		}
	}
	// the JSON form reads as the same suffixes over a tuple of members given elsewhere
	if t.inner_tuple().is_some() {
		let mut hollow = t.clone();
		hollow_out(&mut hollow);
		back(c, &json, &hollow, "JSON forms read")?;
	}
	if t.depth() > 0 {
		c.nontrivial(name.as_bytes());
	}
	c.max("deepest type", t.depth() as u64);
	c.max("longest name", name.len() as u64);
	c.sample(|| name.clone());
	Ok(())
}

fn has_empty_tuple(t: &Ty) -> bool {
	match t {
		Ty::Tup(ts) => ts.is_empty() || ts.iter().any(has_empty_tuple),
		Ty::Arr(t) | Ty::FArr(t, _) => has_empty_tuple(t),
		_ => false,
	}
}

fn hollow_out(t: &mut Ty) {
	match t {
		Ty::Arr(t) | Ty::FArr(t, _) => hollow_out(t),
		Ty::Tup(ts) => ts.clear(),
		_ => {}
	}
}

// ---------------------------------------------------------------- recognising names

#[derive(Debug, PartialEq)]
pub enum Verdict {
	Type(Ty),
	Malformed,
	/// Left open: not specified whether such a spelling is accepted (`uint08`, `uint+8`, `()`).
	Open,
}

/// Recursive descent over the grammar of type names.
pub fn recognise(name: &str) -> Verdict {
	let b = name.as_bytes();
	let mut open = false;
	let mut at = 0;
	match parse_ty(b, &mut at, &mut open, 0) {
		Some(t) if at == b.len() => {
			if open {
				Verdict::Open
			} else {
				Verdict::Type(t)
			}
		}
		_ => Verdict::Malformed,
	}
}

fn parse_num(digits: &[u8], open: &mut bool) -> Option<usize> {
	// Rust reads a leading plus sign and leading zeros; whether that is welcome is not specified
	let d = match digits {
		[b'+', rest @ ..] => {
			*open = true;
			rest
		}
		d => d,
	};
	if d.is_empty() || !d.iter().all(u8::is_ascii_digit) {
		return None;
	}
	if d.len() > 1 && d[0] == b'0' {
		*open = true;
	}
	std::str::from_utf8(d).unwrap().parse().ok()
}

fn parse_ty(b: &[u8], at: &mut usize, open: &mut bool, depth: usize) -> Option<Ty> {
	if depth > 2000 {
		return None;
	}
	let mut t = if b.get(*at) == Some(&b'(') {
		*at += 1;
		let mut members = vec![];
		if b.get(*at) == Some(&b')') {
			// no members at all: whether `()` is a type is not specified
			*open = true;
			*at += 1;
		} else {
			loop {
				members.push(parse_ty(b, at, open, depth + 1)?);
				match b.get(*at) {
					Some(b',') => *at += 1,
					Some(b')') => {
						*at += 1;
						break;
					}
					_ => return None,
				}
			}
		}
		Ty::Tup(members)
	} else {
		let start = *at;
		while *at < b.len() && !b"()[],".contains(&b[*at]) {
			*at += 1;
		}
		let w = &b[start..*at];
		match w {
			b"address" => Ty::Address,
			b"bytes" => Ty::Bytes,
			b"string" => Ty::Str,
			b"bool" => Ty::Bool,
			b"int" => Ty::Int(256),
			b"uint" => Ty::Uint(256),
			b"tuple" => Ty::Tup(vec![]),
			[b'i', b'n', b't', n @ ..] => Ty::Int(parse_num(n, open)?),
			[b'u', b'i', b'n', b't', n @ ..] => Ty::Uint(parse_num(n, open)?),
			[b'b', b'y', b't', b'e', b's', n @ ..] => Ty::FBytes(parse_num(n, open)?),
			_ => return None,
		}
	};
	while b.get(*at) == Some(&b'[') {
		let end = *at + b[*at..].iter().position(|c| *c == b']')?;
		let digits = &b[*at + 1..end];
		t = if digits.is_empty() {
			Ty::Arr(Box::new(t))
		} else {
			Ty::FArr(Box::new(t), parse_num(digits, open)?)
		};
		*at = end + 1;
	}
	Some(t)
}

const PIECES: &[&str] = &[
	"(", ")", "[", "]", ",", "[]", "()", "uint256", "uint8", "int", "bool", "string", "bytes", "bytes32", "address", "tuple", "0", "1",
	"8", "32", "256", " ", "-", "+", "é", "日", "🦀", "\u{0}", "x", "(bool,string)", "[2]", "[0]", "]]", "[[", "((", "))", ",,", "uint",
	"\"", "\n", "fixed128x18", "function", "٣", "²", "0x10", "1e3", ".", "_",
];

pub fn mutate_name(r: &mut Rng, name: &str) -> String {
	let mut ch: Vec<char> = name.chars().collect();
	for _ in 0..match r.below(4) {
		0..=2 => 1,
		_ => r.range(2, 4),
	} {
		let n = ch.len();
		let at = match r.below(4) {
			0 => 0,
			1 => n,
			_ => r.below(n + 1),
		};
		match r.below(7) {
			0 | 1 => {
				let p = if r.chance(1, 6) { a_str(r) } else { r.pick(PIECES) };
				let p: Vec<char> = p.chars().take(16).collect();
				ch.splice(at..at, p);
			}
			2 if n > 0 => {
				ch.remove(r.below(n));
			}
			3 if n > 0 => {
				let i = r.below(n);
				ch[i] = r.pick(PIECES).chars().next().unwrap();
			}
			4 if n > 1 => {
				let (i, j) = (r.below(n), r.below(n));
				ch.swap(i, j);
			}
			5 if n > 0 => {
				let i = r.below(n);
				let j = (i + r.range(1, 4)).min(n);
				let part: Vec<char> = ch[i..j].to_vec();
				let at = r.below(n + 1);
				ch.splice(at..at, part);
			}
			6 if n > 0 => {
				let k = r.below(n);
				ch.truncate(k);
			}
			_ => {}
		}
	}
	ch.into_iter().collect()
}

fn any_name(r: &mut Rng, idx: u64) -> (String, &'static str) {
	match r.below(16) {
		0..=7 => {
			let d = r.range(0, 4);
			let t = ty(r, d, ANY);
			let base = if r.bool() { alias_name(r, &t) } else { t.name() };
			(mutate_name(r, &base), "mutated name")
		}
		8 | 9 => {
			let n = r.range(1, 8);
			((0..n).map(|_| *r.pick(PIECES)).collect(), "pieces")
		}
		10 => {
			let n = size(r, 60);
			(text(r, n), "free text")
		}
		11 => {
			// deep nesting up to 128 levels, balanced or not
			let d = r.range(20, 128);
			let mut s = r.pick(&["uint256", "bool", "", "tuple", "x"]).to_string();
			for _ in 0..d {
				s = match r.below(3) {
					0 => s + "[]",
					1 => format!("({})", s),
					_ => format!("({},bool)[3]", s),
				};
			}
			if r.bool() {
				s = mutate_name(r, &s);
			}
			(s, "deep nesting")
		}
		12 => {
			let d = r.range(1, 128);
			let c = *r.pick(&["(", ")", "[", "]", "[]", "()", "(,", "[(", ")]"]);
			(c.repeat(d), "one bracket repeated")
		}
		13 => {
			// every short string over a small alphabet, over many cases
			let alpha: Vec<&str> = vec!["(", ")", "[", "]", ",", "bool", "1", "int"];
			let mut n = idx as usize;
			let mut s = String::new();
			for _ in 0..6 {
				let k = n % (alpha.len() + 1);
				n /= alpha.len() + 1;
				if k > 0 {
					s.push_str(alpha[k - 1]);
				}
			}
			(s, "systematic short strings")
		}
		14 => {
			let d = match r.below(3) {
				0 => "9".repeat(r.range(18, 30)),
				1 => format!("{}", u128::from(u64::MAX) + 1),
				_ => format!("{}{}", "0".repeat(r.range(0, 3)), number(r)),
			};
			let form = r.below(4);
			(
				match form {
					0 => format!("uint{}", d),
					1 => format!("bytes{}", d),
					2 => format!("int{}", d),
					_ => format!("bool[{}]", d),
				},
				"numbers",
			)
		}
		_ => {
			let t = any_ty(r, idx);
			(t.name(), "valid name")
		}
	}
}

pub fn c09(c: &mut Ctx) -> Res {
	let (name, kind) = any_name(&mut c.rng, c.idx);
	let how = c.rng.below(4);
	let got = read(&name, how)?;
	let verdict = recognise(&name);
	match (&verdict, got) {
		(Verdict::Type(t), Ok(p)) => {
			let got = Ty::from_sut(&p);
			c.obs("well-formed names");
			ensure!(&got == t, "the name {:?} is read as {}", name, got.name());
		}
		(Verdict::Type(_), Err(e)) => return Err(format!("the well-formed name {:?} is refused: {}", name, e)),
		(Verdict::Malformed, Ok(p)) => {
			return Err(format!("the malformed name {:?} is read as {}", name, Ty::from_sut(&p).name()))
		}
		(Verdict::Malformed, Err(_)) => c.obs("malformed names"),
		(Verdict::Open, _) => c.obs("spellings left open (totality only)"),
	}
	c.count(&format!("input: {}", kind));
	if !name.is_empty() {
		c.nontrivial(name.as_bytes());
	}
	c.max("longest input", name.len() as u64);
	c.sample(|| format!("{:?} -> {:?}", name, verdict));
	Ok(())
}
