//! C15, C16, C20: values as text.

use crate::dict::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::mon::*;
use crate::rng::Rng;
use ethabi::token::{LenientTokenizer, StrictTokenizer, Tokenizer};
use ethabi::{ParamType, Token};

#[derive(Debug, PartialEq, Clone)]
pub enum Parsed {
	Val(Val),
	Bad,
	/// A bracket of a kind the type has no lists for: not specified whether it nests.
	Open,
}

// ---------------------------------------------------------------- the model of texts

/// Decimal digits to a 256-bit word, None if too large.
fn dec_to_word(digits: &[u8]) -> Option<[u8; 32]> {
	let mut w = [0u8; 32];
	for d in digits {
		let mut carry = (d - b'0') as u32;
		for b in w.iter_mut().rev() {
			let x = *b as u32 * 10 + carry;
			*b = x as u8;
			carry = x >> 8;
		}
		if carry != 0 {
			return None;
		}
	}
	Some(w)
}

fn negate(w: &mut [u8; 32]) {
	w.iter_mut().for_each(|b| *b = !*b);
	inc_word(w);
}

pub fn scalar(t: &Ty, text: &str, lenient: bool) -> Option<Val> {
	let word = |text: &str| -> Option<[u8; 32]> {
		let b = unhex(text)?;
		if b.len() != 32 {
			return None;
		}
		let mut w = [0u8; 32];
		w.copy_from_slice(&b);
		Some(w)
	};
	Some(match t {
		Ty::Address => {
			let b = unhex(text)?;
			if b.len() != 20 {
				return None;
			}
			let mut a = [0u8; 20];
			a.copy_from_slice(&b);
			Val::Address(a)
		}
		Ty::Bytes => Val::Bytes(unhex(text)?),
		Ty::FBytes(n) => Val::FBytes(unhex(text).filter(|b| b.len() == *n)?),
		Ty::Str => Val::Str(text.to_string()),
		Ty::Bool => Val::Bool(match text {
			"true" | "1" => true,
			"false" | "0" => false,
			_ => return None,
		}),
		Ty::Uint(_) => match word(text) {
			Some(w) => Val::Uint(w),
			None if lenient => {
				let b = text.as_bytes();
				if b.is_empty() || !b.iter().all(u8::is_ascii_digit) {
					return None;
				}
				Val::Uint(dec_to_word(b)?)
			}
			None => return None,
		},
		Ty::Int(_) => match word(text) {
			Some(w) => Val::Int(w),
			None if lenient => {
				let (neg, b) = match text.strip_prefix('-') {
					Some(rest) => (true, rest.as_bytes()),
					None => (false, text.as_bytes()),
				};
				if b.is_empty() || !b.iter().all(u8::is_ascii_digit) {
					return None;
				}
				let mut w = dec_to_word(b)?;
				if neg {
					// at most 2^255
					let mut min = [0u8; 32];
					min[0] = 0x80;
					if w > min {
						return None;
					}
					negate(&mut w);
				} else if w[0] & 0x80 != 0 {
					return None;
				}
				Val::Int(w)
			}
			None => return None,
		},
		_ => unreachable!(),
	})
}

fn has(t: &Ty, tuple: bool) -> bool {
	match t {
		Ty::Tup(ts) => tuple || ts.iter().any(|t| has(t, tuple)),
		Ty::Arr(t) | Ty::FArr(t, _) => !tuple || has(t, tuple),
		_ => false,
	}
}

pub fn parse_text(t: &Ty, text: &str, lenient: bool) -> Parsed {
	let (open, close, members): (char, char, &[Ty]) = match t {
		Ty::Arr(e) | Ty::FArr(e, _) => ('[', ']', std::slice::from_ref(&**e)),
		Ty::Tup(ts) => ('(', ')', ts),
		_ => {
			return match scalar(t, text, lenient) {
				Some(v) => Parsed::Val(v),
				None => Parsed::Bad,
			}
		}
	};
	// does the list, by its type, contain lists with the other kind of brackets
	let other_nests = match t {
		Ty::Tup(ts) => ts.iter().any(|t| has(t, false)),
		_ => has(&members[0], true),
	};
	let chars: Vec<char> = text.chars().collect();
	if chars.len() < 2 || chars[0] != open || chars[chars.len() - 1] != close {
		return Parsed::Bad;
	}
	let inner = &chars[1..chars.len() - 1];
	let mut items: Vec<String> = vec![];
	if !inner.is_empty() {
		let mut stack = vec![];
		let mut quoted = false;
		let mut cur = String::new();
		for &ch in inner {
			if ch == '"' {
				quoted = !quoted;
			} else if !quoted {
				match ch {
					'[' | ']' | '(' | ')' => {
						let mine = (ch == open) || (ch == close);
						if !mine && !other_nests {
							return Parsed::Open;
						}
						match ch {
							'[' => stack.push(']'),
							'(' => stack.push(')'),
							_ => {
								if stack.pop() != Some(ch) {
									return Parsed::Bad;
								}
							}
						}
					}
					',' if stack.is_empty() => {
						items.push(std::mem::take(&mut cur));
						continue;
					}
					_ => {}
				}
			}
			cur.push(ch);
		}
		if quoted || !stack.is_empty() {
			return Parsed::Bad;
		}
		items.push(cur);
	}
	let kinds: Vec<&Ty> = match t {
		Ty::Tup(ts) => {
			if items.len() != ts.len() {
				return Parsed::Bad;
			}
			ts.iter().collect()
		}
		Ty::FArr(_, n) if items.len() != *n => {
			// a wrong count is an error, whatever the members are
			return Parsed::Bad;
		}
		_ => vec![&members[0]; items.len()],
	};
	let mut vals = vec![];
	let mut open_member = false;
	for (t, item) in kinds.iter().zip(&items) {
		match parse_text(t, item, lenient) {
			Parsed::Val(v) => vals.push(v),
			Parsed::Bad => return Parsed::Bad,
			Parsed::Open => open_member = true,
		}
	}
	if open_member {
		return Parsed::Open;
	}
	Parsed::Val(match t {
		Ty::Arr(_) => Val::Arr(vals),
		Ty::FArr(..) => Val::FArr(vals),
		_ => Val::Tup(vals),
	})
}

fn tokenize(p: &ParamType, text: &str, lenient: bool) -> Result<Result<Token, String>, String> {
	sut("tokenizing", || {
		if lenient {
			LenientTokenizer::tokenize(p, text).map_err(|e| e.to_string())
		} else {
			StrictTokenizer::tokenize(p, text).map_err(|e| e.to_string())
		}
	})
	.map_err(|e| format!("{}: type {} text {:?}", e, p, clip(text, 3000)))
}

// ---------------------------------------------------------------- texts

fn dec(w: &[u8; 32]) -> String {
	// repeated division
	let mut w = *w;
	let mut s = vec![];
	loop {
		let mut rem = 0u32;
		for b in w.iter_mut() {
			let x = rem << 8 | *b as u32;
			*b = (x / 10) as u8;
			rem = x % 10;
		}
		s.push(b'0' + rem as u8);
		if w.iter().all(|b| *b == 0) {
			break;
		}
	}
	s.reverse();
	String::from_utf8(s).unwrap()
}

fn mixed_case(r: &mut Rng, s: String) -> String {
	match r.below(6) {
		0 => s.to_uppercase(),
		1 => s.chars().map(|c| if r.bool() { c.to_ascii_uppercase() } else { c }).collect(),
		_ => s,
	}
}

/// A text denoting the value (strings as they are, sometimes in quotes).
pub fn render(r: &mut Rng, v: &Val, lenient: bool) -> String {
	match v {
		Val::Address(a) => mixed_case(r, hex(a)),
		Val::Bytes(b) | Val::FBytes(b) => mixed_case(r, hex(b)),
		Val::Bool(b) => match (r.below(3), b) {
			(0, true) => "1".into(),
			(0, false) => "0".into(),
			_ => b.to_string(),
		},
		Val::Str(s) => {
			if r.chance(1, 3) {
				format!("\"{}\"", s)
			} else {
				s.clone()
			}
		}
		Val::Uint(w) if lenient && r.chance(3, 4) => dec(w),
		Val::Int(w) if lenient && r.chance(3, 4) => {
			if w[0] & 0x80 != 0 {
				let mut w = *w;
				negate(&mut w);
				format!("-{}", dec(&w))
			} else {
				dec(w)
			}
		}
		Val::Int(w) | Val::Uint(w) => mixed_case(r, hex(w)),
		Val::Arr(v) | Val::FArr(v) => format!("[{}]", v.iter().map(|v| render(r, v, lenient)).collect::<Vec<_>>().join(",")),
		Val::Tup(v) => format!("({})", v.iter().map(|v| render(r, v, lenient)).collect::<Vec<_>>().join(",")),
	}
}

const BITS: &[&str] = &[
	"[", "]", "(", ")", ",", "\"", " ", "1", "true", "00", "é", "日", "🦀", "\\", "[]", "()", "[1]", "(1)", ",,", "\"\"", "\",\"", "],[", "),(",
	"x", "-", "\u{0}", "\n", "'", "[\"", "\"]", "ﬀ", "İ", "0x", "\"[", "](", ")[",
];

pub fn mutate_text(r: &mut Rng, s: &str) -> String {
	let mut ch: Vec<char> = s.chars().collect();
	for _ in 0..match r.below(4) {
		0..=2 => 1,
		_ => r.range(2, 4),
	} {
		let n = ch.len();
		let at = match r.below(5) {
			0 => 0,
			1 => n,
			2 => n.min(1),
			_ => r.below(n + 1),
		};
		match r.below(6) {
			0 | 1 => {
				let p = if r.chance(1, 8) { a_str(r) } else { r.pick(BITS) };
				ch.splice(at..at, p.chars());
			}
			2 if n > 0 => {
				ch.remove(at.min(n - 1));
			}
			3 if n > 0 => {
				let i = r.below(n);
				ch[i] = r.pick(BITS).chars().next().unwrap();
			}
			4 if n > 1 => {
				let (i, j) = (r.below(n), r.below(n));
				ch.swap(i, j);
			}
			_ if n > 0 => {
				let k = r.below(n);
				ch.truncate(k);
			}
			_ => {}
		}
	}
	ch.into_iter().collect()
}

fn list_ty(r: &mut Rng) -> Ty {
	let o = SOLIDITY;
	loop {
		let d = r.range(1, 4);
		let t = match r.below(5) {
			0 => {
				// strings and lists next to each other: where separators go wrong
				let n = r.range(1, 4);
				let ts = (0..n)
					.map(|_| match r.below(4) {
						0 => Ty::Str,
						1 => Ty::Arr(Box::new(Ty::Str)),
						2 => Ty::Tup(vec![Ty::Str, Ty::Bool]),
						_ => leaf(r),
					})
					.collect();
				Ty::Tup(ts)
			}
			1 => {
				let inner = ty(r, 2, o);
				Ty::Arr(Box::new(inner))
			}
			_ if r.chance(1, 40) => {
				let d = deep(r, 30);
				deep_ty(r, d, o)
			}
			_ => ty(r, d, o),
		};
		if t.depth() > 0 {
			return t;
		}
	}
}

pub fn tidy_strings(r: &mut Rng, v: &mut Val) {
	match v {
		Val::Str(s) => {
			let keep = *r.pick(&["", ",", ",\"[]()", "\"", "[]", "()"]);
			*s = s.chars().filter(|c| !",\"[]()".contains(*c) || keep.contains(*c)).take(40).collect();
		}
		Val::Arr(vs) | Val::FArr(vs) | Val::Tup(vs) => vs.iter_mut().for_each(|v| tidy_strings(r, v)),
		_ => {}
	}
}

/// Compares one tokenization with the model.
fn judge(c: &mut Ctx, t: &Ty, text: &str, lenient: bool) -> Res {
	let want = parse_text(t, text, lenient);
	let p = t.to_sut();
	let got = tokenize(&p, text, lenient)?;
	let mode = if lenient { "lenient" } else { "strict" };
	let ctx = || format!("{} parsing of type {} text {:?}", mode, t.name(), clip(text, 3000));
	match (want, got) {
		(Parsed::Val(v), Ok(tok)) => {
			let g = Val::from_sut(&tok);
			c.obs(&format!("{}: denotes a value", mode));
			ensure!(g == v, "{} gives\n  {:?}\n and not\n  {:?}", ctx(), g, v);
		}
		(Parsed::Val(v), Err(e)) => return Err(format!("{} is refused ({}) and not {:?}", ctx(), e, v)),
		(Parsed::Bad, Ok(tok)) => return Err(format!("{} is accepted as {:?}", ctx(), tok)),
		(Parsed::Bad, Err(_)) => c.obs(&format!("{}: must be refused", mode)),
		(Parsed::Open, got) => {
			c.obs(&format!("{}: left open (type and totality only)", mode));
			if let Ok(tok) = got {
				ensure!(conforms_exactly(&Val::from_sut(&tok), t), "{} gives {:?}", ctx(), tok);
			}
		}
	}
	Ok(())
}

pub fn c15(c: &mut Ctx) -> Res {
	let r = &mut c.rng;
	let lenient = r.bool();
	let t = list_ty(r);
	let max = if r.chance(1, 30) { *r.pick(&[400, 400, 3000]) } else { *r.pick(&[1, 2, 3, 5, 20]) };
	let mut v = val(r, &t, max, &mut Budget(120));
	tidy_strings(r, &mut v);
	if r.chance(1, 20) {
		break_val(r, &mut v);
		tidy_strings(r, &mut v);
	}
	let base = render(r, &v, lenient);
	let (text, kind) = match r.below(12) {
		0..=3 => (base, "rendered value"),
		4..=8 => (mutate_text(r, &base), "mutated text"),
		9 => {
			let n = r.range(0, 9);
			let s: String = (0..n).map(|_| *r.pick(BITS)).collect();
			(
				match r.below(3) {
					0 => format!("[{}]", s),
					1 => format!("({})", s),
					_ => s,
				},
				"pieces",
			)
		}
		10 => {
			let n = size(r, 60);
			(text(r, n), "free text")
		}
		_ => {
			let other = list_ty(r);
			let v = val(r, &other, 3, &mut Budget(60));
			(render(r, &v, lenient), "value of another type")
		}
	};
	judge(c, &t, &text, lenient)?;
	// the same text in the other mode
	judge(c, &t, &text, !lenient)?;
	c.count(&format!("texts: {}", kind));
	c.nontrivial(format!("{}|{}", t.name(), text).as_bytes());
	c.max("longest text", text.len() as u64);
	c.sample(|| format!("type {} text {:?}", t.name(), text));
	Ok(())
}

fn scalar_text(r: &mut Rng, t: &Ty) -> (String, &'static str) {
	let lens: &[usize] = &[0, 1, 2, 19, 20, 21, 31, 32, 33, 39, 40, 41, 62, 63, 64, 65, 66, 77, 78, 79, 128, 296, 320, 552, 576];
	match r.below(14) {
		0..=2 => {
			let v = val(r, t, 3, &mut Budget(10));
			(render(r, &v, true), "rendered value")
		}
		3 => {
			let v = val(r, t, 3, &mut Budget(10));
			let s = render(r, &v, true);
			(mutate_text(r, &s), "mutated text")
		}
		4 => {
			let n = match t {
				Ty::FBytes(n) => {
					let n = 2 * n;
					*r.pick(&[n, n + 512, n + 256, n + 1, n.saturating_sub(1), n + 2, n.saturating_sub(2)])
				}
				_ => *r.pick(lens),
			};
			let s: String = (0..n).map(|_| *r.pick(&['0', '1', '9', 'a', 'f', 'A', 'F', '5'])).collect();
			(s, "hex of some length")
		}
		5 => {
			let n = *r.pick(lens);
			let s: String = (0..n).map(|_| *r.pick(&['0', '1', '9', '5'])).collect();
			(if r.chance(1, 3) { format!("-{}", s) } else { s }, "digits of some length")
		}
		6..=8 => {
			// around the limits of uint256 and int256 and other powers of two
			let mut w = [0u8; 32];
			let neg = r.bool();
			match r.below(4) {
				0 => w = [0xff; 32],
				1 => w[0] = 0x80,
				2 => {
					let k = r.below(256);
					w[31 - k / 8] = 1 << (k % 8)
				}
				_ => w = word_value(r),
			}
			for _ in 0..r.below(3) {
				if r.bool() {
					inc_word(&mut w)
				} else {
					dec_word(&mut w)
				}
			}
			let mut s = dec(&w);
			if r.chance(1, 6) {
				// just above 2^256
				s = match r.below(4) {
					0 => "115792089237316195423570985008687907853269984665640564039457584007913129639936".into(),
					1 => "115792089237316195423570985008687907853269984665640564039457584007913129639937".into(),
					2 => format!("{}0", s),
					_ => format!("1{}", "0".repeat(r.range(76, 80))),
				};
			}
			if r.chance(1, 8) {
				s = format!("{}{}", "0".repeat(r.range(1, 3)), s);
			}
			(if neg { format!("-{}", s) } else { s }, "around a limit")
		}
		9 => {
			let b = *r.pick(&["", "-", "--5", "+5", "-0", "0", "00", "-1", "1", "2", "true", "false", "True", "TRUE", "10", "01", "0x1", "0x", "1.0",
				"1e3", "1_000", "1,000", " 1", "1 ", "٣", "²", "½", "−1", "1-", "-+1", "nan", "yes", "no", "0b1", "ff", "FF", "é", "null", "\"1\"", "[1]", "-00", "-007"]);
			(b.to_string(), "odd spelling")
		}
		10 => {
			let v = val(r, t, 3, &mut Budget(10));
			(format!("0x{}", render(r, &v, false)), "0x prefix")
		}
		11 => (a_str(r).to_string(), "dictionary"),
		12 => (a_num(r).to_string(), "dictionary number"),
		_ => {
			let n = size(r, 80);
			(text(r, n), "free text")
		}
	}
}

pub fn c16(c: &mut Ctx) -> Res {
	let r = &mut c.rng;
	let t = match r.below(4) {
		0 => leaf(r),
		1 => Ty::Uint(int_width(r)),
		2 => Ty::Int(int_width(r)),
		_ => ty(r, 0, ALL),
	};
	let (text, kind) = scalar_text(r, &t);
	judge(c, &t, &text, false)?;
	judge(c, &t, &text, true)?;
	c.count(&format!("texts: {}", kind));
	c.count(match t {
		Ty::Uint(_) => "type: uint",
		Ty::Int(_) => "type: int",
		Ty::Address => "type: address",
		Ty::Bool => "type: bool",
		Ty::Str => "type: string",
		Ty::Bytes => "type: bytes",
		_ => "type: fixed bytes",
	});
	if !matches!(t, Ty::Str) {
		c.nontrivial(format!("{}|{}", t.name(), text).as_bytes());
	}
	c.sample(|| format!("type {} text {:?} -> {:?}", t.name(), text, parse_text(&t, &text, true)));
	Ok(())
}

// ---------------------------------------------------------------- C20

/// Printed, the value can be told apart: no integers (printed shortened), nothing that prints as
/// nothing, no separators within strings.
fn plain(v: &Val, top: bool) -> bool {
	match v {
		Val::Int(_) | Val::Uint(_) => false,
		Val::Str(s) => top || (!s.is_empty() && !s.contains(|c: char| ",\"[]()".contains(c))),
		Val::Bytes(b) | Val::FBytes(b) => top || !b.is_empty(),
		Val::Arr(vs) | Val::FArr(vs) | Val::Tup(vs) => vs.iter().all(|v| plain(v, false)),
		_ => true,
	}
}

pub fn c20(c: &mut Ctx) -> Res {
	let r = &mut c.rng;
	let t = match r.below(6) {
		0 => leaf(r),
		1 => {
			let d = r.range(5, 30);
			deep_ty(r, d, SOLIDITY)
		}
		_ => {
			let d = r.range(1, 4);
			ty(r, d, ANY)
		}
	};
	let max = *r.pick(&[1, 2, 3, 5, 40]);
	let mut v = val(r, &t, max, &mut Budget(400));
	let mut t = t;
	if r.chance(1, 100) {
		// long
		let n = r.below(1 << 14);
		let e = leaf(r);
		let (u, w) = match r.below(5) {
			0 => (Ty::Bytes, Val::Bytes(byte_string(r, n))),
			1 => (Ty::Str, Val::Str(text(r, n))),
			2 => (Ty::FArr(Box::new(e.clone()), n), Val::FArr((0..n).map(|_| val(r, &e, 1, &mut Budget(0))).collect())),
			3 => (Ty::Tup(vec![e.clone(); n]), Val::Tup((0..n).map(|_| val(r, &e, 1, &mut Budget(0))).collect())),
			_ => (Ty::Arr(Box::new(e.clone())), Val::Arr((0..n).map(|_| val(r, &e, 1, &mut Budget(0))).collect())),
		};
		t = u;
		v = w;
	}
	if r.bool() {
		tidy_strings(r, &mut v);
	}
	let tok = v.to_sut();
	let want = v.print();
	let how = r.below(3);
	let got = sut("printing a value", || match how {
		0 => tok.to_string(),
		1 => format!("{}", tok),
		_ => {
			use std::fmt::Write;
			let mut s = String::new();
			write!(s, "{}", &tok).unwrap();
			s
		}
	})
	.map_err(|e| format!("{}: {:?}", e, v))?;
	c.obs("printed forms compared");
	ensure!(got == want, "the value {}\n is printed as {}\n and not    {}", clip(&format!("{:?}", v), 3000), clip(&got, 3000), clip(&want, 3000));
	if plain(&v, true) {
		let p = t.to_sut();
		let back = tokenize(&p, &got, false)?;
		c.obs("printed forms parsed back");
		match back {
			Ok(b) if Val::from_sut(&b) == v => {}
			other => return Err(format!("the printed form {:?} of a {} is parsed back as {:?}", clip(&got, 3000), t.name(), other)),
		}
	}
	if t.depth() > 0 {
		c.nontrivial(format!("{}|{}", t.name(), want).as_bytes());
	}
	c.count(&format!("depth: {}", t.depth().min(6)));
	c.sample(|| want.clone());
	Ok(())
}
