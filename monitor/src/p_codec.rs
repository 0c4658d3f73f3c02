//! C01 - C05: encoding and decoding.

use crate::dict::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::mon::*;
use crate::rng::Rng;
use ethabi::{Event, EventParam, Function, Param, RawLog, Token};
use std::sync::OnceLock;

pub fn show(tys: &[Ty], vals: &[Val]) -> String {
	clip(&format!("types=({}) values={:?}", names(tys), vals), 3000)
}

#[allow(deprecated)]
pub fn function(name: &str, inputs: &[Ty], outputs: &[Ty]) -> Function {
	let params = |tys: &[Ty]| {
		tys.iter()
			.enumerate()
			.map(|(i, t)| Param { name: format!("p{}", i), kind: t.to_sut(), internal_type: None })
			.collect()
	};
	Function {
		name: name.into(),
		inputs: params(inputs),
		outputs: params(outputs),
		constant: false,
		state_mutability: Default::default(),
	}
}

fn small_types() -> &'static Vec<Ty> {
	static T: OnceLock<Vec<Ty>> = OnceLock::new();
	T.get_or_init(|| enumerate(if cfg!(miri) { 40 } else { 6000 }))
}

/// Few, big cases: one per low case index.
fn large(idx: u64, r: &mut Rng, quick: bool) -> Option<(Vec<Ty>, Vec<Val>)> {
	let uint = || Ty::Uint(256);
	let arr = |t: Ty| Ty::Arr(Box::new(t));
	let words = |r: &mut Rng, n: usize| (0..n).map(|_| Val::Uint(word_value(r))).collect::<Vec<_>>();
	Some(match idx {
		0 => (
			vec![Ty::Bytes, Ty::Str, arr(Ty::Str)],
			vec![Val::Bytes(r.bytes((1 << 24) + 5)), Val::Str(text(r, 77)), Val::Arr(vec![Val::Str("x".into()); 3])],
		),
		1 => (vec![arr(uint()), Ty::Bytes], vec![Val::Arr(words(r, 70_000)), Val::Bytes(r.bytes(33))]),
		2 => (
			vec![Ty::Bool, arr(Ty::Str), Ty::Bytes],
			vec![
				Val::Bool(true),
				Val::Arr((0..66_000).map(|i| Val::Str(format!("{}", i))).collect()),
				Val::Bytes(r.bytes(100)),
			],
		),
		3 => (
			vec![arr(Ty::Tup(vec![Ty::Uint(8), Ty::Bytes]))],
			vec![Val::Arr(
				(0..20_000)
					.map(|i| Val::Tup(vec![Val::Uint(word(i)), Val::Bytes(vec![i as u8; i % 70])]))
					.collect(),
			)],
		),
		4 => (
			vec![Ty::Bytes; 6],
			[65503usize, 65504, 65535, 65536, 65537, 1 << 20].iter().map(|n| Val::Bytes(r.bytes(*n))).collect(),
		),
		5 => (vec![Ty::FArr(Box::new(uint()), 5000), Ty::Str], vec![Val::FArr(words(r, 5000)), Val::Str("end".into())]),
		6 => {
			let ts: Vec<Ty> = (0..3000).map(|_| leaf(r)).collect();
			let vs = ts.iter().map(|t| val(r, t, 1, &mut Budget(0))).collect();
			(vec![Ty::Tup(ts)], vec![Val::Tup(vs)])
		}
		7 => {
			let ts: Vec<Ty> = (0..2100).map(|_| leaf(r)).collect();
			let vs = ts.iter().map(|t| val(r, t, 1, &mut Budget(0))).collect();
			(ts, vs)
		}
		8 => (
			vec![arr(arr(Ty::Str))],
			vec![Val::Arr(vec![Val::Arr((0..300).map(|_| Val::Str(text(r, 9))).collect()); 260])],
		),
		9 => (vec![arr(Ty::FBytes(1)), arr(Ty::Address)], {
			let a = (0..40_000).map(|i| Val::FBytes(vec![i as u8])).collect();
			let b = (0..33_000).map(|_| Val::Address([7; 20])).collect();
			vec![Val::Arr(a), Val::Arr(b)]
		}),
		10 => (
			vec![Ty::FArr(Box::new(Ty::Str), 1000), arr(Ty::Bool)],
			vec![
				Val::FArr((0..1000).map(|i| Val::Str("é".repeat(i % 90))).collect()),
				Val::Arr((0..65_537).map(|i| Val::Bool(i % 3 == 0)).collect()),
			],
		),
		11 if !quick => (vec![arr(uint()), Ty::Str], vec![Val::Arr(words(r, 600_000)), Val::Str("z".into())]),
		12 if !quick => (
			vec![Ty::Str, Ty::Bytes],
			vec![Val::Str("日".repeat(12_000_000)), Val::Bytes(r.bytes(40_000_000))],
		),
		13 if !quick => (
			vec![arr(Ty::Bytes)],
			vec![Val::Arr((0..300).map(|i| Val::Bytes(r.bytes(60_000 + i))).collect())],
		),
		_ => return None,
	})
}

/// The workload shared by C01 and C02.
fn typed_values(c: &mut Ctx, o: TyOpt) -> (Vec<Ty>, Vec<Val>) {
	if let Some(x) = large(c.idx, &mut c.rng, c.tier == Tier::Quick) {
		c.count("workload: large");
		return x;
	}
	let idx = c.idx;
	let r = &mut c.rng;
	match r.below(20) {
		0..=3 => {
			// systematic sweep over small types, alone and next to others
			let all = small_types();
			let t = all[(idx as usize).wrapping_mul(7919) % all.len()].clone();
			let mut ts = vec![t];
			if r.bool() {
				let n = r.range(1, 2);
				for _ in 0..n {
					let at = r.below(ts.len() + 1);
					ts.insert(at, leaf(r));
				}
			}
			let max = *r.pick(&[1, 2, 3, 8]);
			let vs = vals(r, &ts, max);
			c.count("workload: systematic small types");
			(ts, vs)
		}
		4 | 5 => {
			// one dynamic value of a boundary size among others
			let n = match r.below(3) {
				0 => *r.pick(SIZES),
				1 => size(r, 9000),
				_ => a_num(r).min(70_000) as usize,
			};
			let mut ts = vec![leaf(r), leaf(r)];
			let mut vs = vals(r, &ts, 2);
			let (t, v) = match r.below(4) {
				0 => (Ty::Bytes, Val::Bytes(byte_string(r, n))),
				1 => (Ty::Str, Val::Str(text(r, n))),
				2 => {
					let t = static_leaf(r);
					let vs: Vec<Val> = (0..n.min(3000)).map(|_| val(r, &t, 1, &mut Budget(0))).collect();
					(Ty::Arr(Box::new(t)), Val::Arr(vs))
				}
				_ => {
					let t = leaf(r);
					let vs: Vec<Val> = (0..n.min(600)).map(|_| val(r, &t, 1, &mut Budget(0))).collect();
					(Ty::Arr(Box::new(t)), Val::Arr(vs))
				}
			};
			let at = r.below(3);
			ts.insert(at, t);
			vs.insert(at, v);
			c.count("workload: boundary sizes");
			(ts, vs)
		}
		6 => {
			let d = r.range(5, 40);
			let d = new_count(r, 100, 1, 2).unwrap_or(d);
			let t = deep_ty(r, d, o);
			let ts = vec![t];
			let vs = vals(r, &ts, 2);
			c.count("workload: deep nesting");
			(ts, vs)
		}
		7 => {
			let n = r.range(20, 300);
			let ts: Vec<Ty> = (0..n).map(|_| ty(r, 1, o)).collect();
			let vs = vals(r, &ts, 2);
			c.count("workload: many params");
			(ts, vs)
		}
		8 if o.zero_farr => {
			let mut ts = tys(r, o);
			let at = r.below(ts.len() + 1);
			ts.insert(at, Ty::FArr(Box::new(static_leaf(r)), 0));
			let vs = vals(r, &ts, 3);
			c.count("workload: zero-length fixed array");
			(ts, vs)
		}
		_ => {
			let ts = tys(r, o);
			let max = *r.pick(&[1, 2, 3, 3, 6, 40]);
			let vs = vals(r, &ts, max);
			c.count("workload: random");
			(ts, vs)
		}
	}
}

fn describe(c: &mut Ctx, ts: &[Ty], enc: &[u8]) {
	let depth = ts.iter().map(Ty::depth).max().unwrap_or(0) as u64;
	c.max("largest encoding (bytes)", enc.len() as u64);
	c.max("deepest type", depth);
	c.max("most params", ts.len() as u64);
	if ts.iter().any(Ty::is_dynamic) || depth > 0 {
		let mut fp = names(ts).into_bytes();
		fp.extend(crate::rng::hash_bytes(enc).to_le_bytes());
		c.nontrivial(&fp);
	}
	for t in ts {
		c.count(match (t.is_dynamic(), t) {
			(true, Ty::Tup(_)) => "params: dynamic tuple",
			(false, Ty::Tup(_)) => "params: static tuple",
			(true, Ty::FArr(..)) => "params: dynamic fixed array",
			(false, Ty::FArr(..)) => "params: static fixed array",
			(_, Ty::Arr(_)) => "params: array",
			(true, _) => "params: bytes or string",
			_ => "params: value type",
		});
	}
}

/// Static and dynamic nodes are reported as such, everywhere in the value.
fn check_dynamic(t: &Ty, v: &Token) -> Res {
	// a fixed array of length zero has no elements to tell from, and Solidity has none
	if !t.has_zero_size() {
		let d = sut("Token::is_dynamic", || v.is_dynamic())?;
		ensure!(d == t.is_dynamic(), "value of type {} reported as {}dynamic", t.name(), if d { "" } else { "not " });
	}
	match (t, v) {
		(Ty::Arr(t), Token::Array(v)) | (Ty::FArr(t, _), Token::FixedArray(v)) => {
			v.iter().take(3).try_for_each(|v| check_dynamic(t, v))
		}
		(Ty::Tup(ts), Token::Tuple(v)) => ts.iter().zip(v).try_for_each(|(t, v)| check_dynamic(t, v)),
		_ => Ok(()),
	}
}

pub fn c01(c: &mut Ctx) -> Res {
	let (ts, mut vs) = typed_values(c, ALL);
	if c.rng.chance(1, 6) {
		let mut r = c.rng.clone();
		vs.iter_mut().for_each(|v| shorten(&mut r, v));
	}
	let expected = encode(&ts, &vs);
	let tokens = to_sut_vals(&vs);
	let got = sut("encode", || ethabi::encode(&tokens)).map_err(|e| format!("{}: {}", show(&ts, &vs), e))?;
	c.obs("encodings compared");
	ensure!(
		got == expected,
		"encoding differs from the specification\n  {}\n  expected {}\n  got      {}\n  first difference at byte {:?}",
		show(&ts, &vs),
		clip(&hex(&expected), 3000),
		clip(&hex(&got), 3000),
		got.iter().zip(&expected).position(|(a, b)| a != b).unwrap_or(got.len().min(expected.len()))
	);
	if vs.len() < 100 && expected.len() < 100_000 {
		for (t, v) in ts.iter().zip(&tokens) {
			check_dynamic(t, v)?;
			let p = t.to_sut();
			let e = sut("ParamType::is_empty_bytes_valid_encoding", || p.is_empty_bytes_valid_encoding())?;
			ensure!(!e || t.head_size() == 0, "no bytes at all reported as a valid encoding of {}", t.name());
			if matches!(t, Ty::FArr(m, 0) if !m.is_dynamic()) {
				ensure!(e, "no bytes at all reported as an invalid encoding of {}", t.name());
			}
			if !t.has_zero_size() {
				let d = sut("ParamType::is_dynamic", || p.is_dynamic())?;
				c.obs("is_dynamic compared");
				ensure!(d == t.is_dynamic(), "type {} reported as {}dynamic", t.name(), if d { "" } else { "not " });
			}
		}
	}
	describe(c, &ts, &expected);
	c.sample(|| format!("{} -> {}", show(&ts, &vs), clip(&hex(&expected), 200)));
	Ok(())
}

pub fn c02(c: &mut Ctx) -> Res {
	let o = TyOpt { zero_farr: false, ..ALL };
	let (mut ts, mut vs) = typed_values(c, o);
	if c.rng.chance(1, 25) {
		let at = c.rng.below(ts.len() + 1);
		ts.insert(at, Ty::FArr(Box::new(static_leaf(&mut c.rng)), 0));
		vs.insert(at, Val::FArr(vec![]));
	}
	let (params, tokens) = (to_sut_tys(&ts), to_sut_vals(&vs));
	let fail = |e: String| format!("{}: {}", show(&ts, &vs), e);
	let enc = sut("encode", || ethabi::encode(&tokens)).map_err(fail)?;
	let check = |what: &str, data: &[u8], got: Result<Vec<Token>, ethabi::Error>| -> Res {
		match got {
			Ok(back) => {
				let back = from_sut_vals(&back);
				ensure!(
					back == vs,
					"{} does not give the values back\n  {}\n  data {}\n  got {}",
					what,
					show(&ts, &vs),
					clip(&hex(data), 3000),
					clip(&format!("{:?}", back), 3000)
				);
				Ok(())
			}
			Err(e) => Err(format!("{} fails: {}\n  {}\n  data {}", what, e, show(&ts, &vs), clip(&hex(data), 3000))),
		}
	};
	let got = sut("decode", || ethabi::decode(&params, &enc)).map_err(fail)?;
	check("decoding the encoding", &enc, got)?;
	c.obs("round trips");
	if enc.len() < 300_000 {
		// unrelated bytes follow
		let n = match c.rng.below(4) {
			0 => c.rng.range(1, 31),
			1 => 32,
			2 => *c.rng.pick(&[1, 4, 20, 28, 36, 64]),
			_ => c.rng.range(33, 200),
		};
		let mut longer = enc.clone();
		let more = byte_string(&mut c.rng, n);
		longer.extend(more);
		if !ts.is_empty() || c.rng.bool() {
			let got = sut("decode", || ethabi::decode(&params, &longer)).map_err(fail)?;
			check("decoding with trailing bytes", &longer, got)?;
			c.obs("round trips with trailing bytes");
			let f = function("f", &ts, &ts);
			let got = sut("Function::decode_input", || f.decode_input(&longer)).map_err(fail)?;
			check("Function::decode_input with trailing bytes", &longer, got)?;
			let got = sut("Function::decode_output", || f.decode_output(&longer)).map_err(fail)?;
			check("Function::decode_output with trailing bytes", &longer, got)?;
		}
		// through a function
		let name = ident(&mut c.rng);
		let (f, g) = (function(&name, &ts, &[]), function(&name, &[], &ts));
		let call = sut("Function::encode_input", || f.encode_input(&tokens)).map_err(fail)?;
		match call {
			Err(e) => return Err(fail(format!("encode_input refuses conforming values: {}", e))),
			Ok(call) => {
				ensure!(call.len() >= 4, "call data of {} bytes", call.len());
				let got = sut("Function::decode_input", || f.decode_input(&call[4..])).map_err(fail)?;
				check("Function::decode_input", &call[4..], got)?;
				c.obs("function input round trips");
			}
		}
		let got = sut("Function::decode_output", || g.decode_output(&enc)).map_err(fail)?;
		check("Function::decode_output", &enc, got)?;
		c.obs("function output round trips");
	}
	describe(c, &ts, &enc);
	c.sample(|| format!("{} via {} bytes", show(&ts, &vs), enc.len()));
	Ok(())
}

// ---------------------------------------------------------------- hostile data

/// Types the user may hand over, including degenerate ones.
fn odd_ty(r: &mut Rng) -> Ty {
	let t = ty(r, 2, ALL);
	match r.below(9) {
		0 => Ty::FBytes(*r.pick(&[0, 33, usize::MAX, usize::MAX - 31, usize::MAX / 2, 1 << 32, 1 << 40])),
		1 => Ty::Tup(vec![]),
		2 => Ty::Arr(Box::new(Ty::Tup(vec![]))),
		3 => Ty::Arr(Box::new(Ty::FArr(Box::new(t), 0))),
		4 => Ty::FArr(Box::new(t), 0),
		5 if !t.has_zero_size() => Ty::FArr(Box::new(t), *r.pick(&[usize::MAX, 1 << 32, 1 << 20, usize::MAX / 32])),
		6 => Ty::Arr(Box::new(Ty::FBytes(0))),
		7 => Ty::Tup(vec![Ty::FBytes(*r.pick(&[0, usize::MAX, 64])), t]),
		_ => Ty::Int(*r.pick(&[0, 1, 7, 257, usize::MAX])),
	}
}

pub struct Hostile {
	pub ts: Vec<Ty>,
	pub data: Vec<u8>,
	pub kind: &'static str,
}

/// Types and bytes that need not belong together.
pub fn hostile(r: &mut Rng, odd: bool, tier: Tier, idx: u64) -> Hostile {
	let mut ts = match r.below(12) {
		0..=3 => {
			let all = small_types();
			vec![all[(idx as usize).wrapping_mul(7919) % all.len()].clone()]
		}
		4 => {
			let d = r.range(4, 12);
			vec![deep_ty(r, d, SOLIDITY)]
		}
		_ => tys(r, TyOpt { zero_farr: false, ..ALL }),
	};
	if odd && r.chance(1, 5) {
		let at = r.below(ts.len() + 1);
		let t = odd_ty(r);
		ts.insert(at, t);
	}
	let typed = !ts.iter().any(|t| t.has_zero_size() || t.weight() > 1 << 16);
	let max = *r.pick(&[1, 2, 3, 6]);
	let (data, kind) = match r.below(16) {
		0 => (vec![], "empty"),
		1 => {
			let n = if tier == Tier::Quick { size(r, 700) } else { size(r, 3000) };
			(byte_string(r, n), "random bytes")
		}
		2..=4 => {
			let n = match r.below(3) {
				0 => r.below(6),
				1 => r.below(14),
				_ => r.below(40),
			};
			(wordy(r, n), "plausible words")
		}
		5 if typed => {
			// every truncation of an encoding is reached over many cases
			let vs = vals(r, &ts, max);
			let mut d = encode(&ts, &vs);
			let n = r.below(d.len() + 1);
			d.truncate(n);
			(d, "truncated encoding")
		}
		6 if typed => {
			// another type's encoding
			let vs = vals(r, &ts, max);
			let d = encode(&ts, &vs);
			let i = r.below(ts.len().max(1));
			if let Some(t) = ts.get_mut(i) {
				break_ty(r, t);
				if !odd && (t.has_zero_size() || t.weight() > 1 << 16) {
					*t = leaf(r);
				}
			}
			(d, "encoding of other types")
		}
		7 if typed => {
			let vs = vals(r, &ts, max);
			(encode(&ts, &vs), "valid encoding")
		}
		_ if typed => {
			let vs = vals(r, &ts, max);
			let mut d = encode(&ts, &vs);
			mutate(r, &mut d);
			(d, "mutated encoding")
		}
		_ => {
			let n = r.below(20);
			(wordy(r, n), "plausible words")
		}
	};
	Hostile { ts, data, kind }
}

fn judge_total(what: &str, ts: &[Ty], data: &[u8], got: Result<Vec<Token>, ethabi::Error>) -> Res {
	if let Ok(tokens) = got {
		let vals = from_sut_vals(&tokens);
		ensure!(
			vals.len() == ts.len() && vals.iter().zip(ts).all(|(v, t)| conforms_exactly(v, t)),
			"{} returned values that do not conform to the types\n  types ({}) data {}\n  got {}",
			what,
			names(ts),
			clip(&hex(data), 3000),
			clip(&format!("{:?}", vals), 2000)
		);
	}
	Ok(())
}

pub fn c03(c: &mut Ctx) -> Res {
	let Hostile { ts, data, kind } = hostile(&mut c.rng, true, c.tier, c.idx);
	// outcome by the model, for coverage and to leave out cases of exponential size
	let outcome = match decode(&ts, &data) {
		Decoded::Fuel => {
			c.count("skipped: denotes too many values");
			return Ok(());
		}
		Decoded::Ok(_) => "denotes values",
		Decoded::Err(why) => why,
	};
	let params = to_sut_tys(&ts);
	let fail = |e: String| format!("{}\n  types ({})\n  data {}", e, names(&ts), clip(&hex(&data), 6000));
	let got = sut("decode", || ethabi::decode(&params, &data)).map_err(fail)?;
	let accepted = got.is_ok();
	judge_total("decode", &ts, &data, got)?;
	c.obs(if accepted { "decode: values" } else { "decode: error" });
	c.count(&format!("data: {} / {}", kind, outcome));
	let f = function("f", &ts, &ts);
	let got = sut("Function::decode_input", || f.decode_input(&data)).map_err(fail)?;
	judge_total("Function::decode_input", &ts, &data, got)?;
	c.obs("decode_input");
	let got = sut("Function::decode_output", || f.decode_output(&data)).map_err(fail)?;
	judge_total("Function::decode_output", &ts, &data, got)?;
	c.obs("decode_output");
	c03_log(c, &ts, &data)?;
	let mut fp = names(&ts).into_bytes();
	fp.push(0);
	fp.extend_from_slice(&data);
	if !ts.is_empty() && !data.is_empty() {
		c.nontrivial(&fp);
	}
	c.max("longest data (bytes)", data.len() as u64);
	c.sample(|| format!("types ({}) data {} -> {}", names(&ts), clip(&hex(&data), 300), outcome));
	Ok(())
}

/// The same bytes as a log of an event with these parameters.
fn c03_log(c: &mut Ctx, ts: &[Ty], data: &[u8]) -> Res {
	let anonymous = c.rng.chance(1, 3);
	let inputs: Vec<EventParam> = ts
		.iter()
		.enumerate()
		.map(|(i, t)| EventParam { name: format!("p{}", i), kind: t.to_sut(), indexed: c.rng.chance(1, 3) })
		.collect();
	// a zero-size or many-word indexed type has no topic form; still no panic allowed
	let indexed = inputs.iter().filter(|p| p.indexed).count();
	let event = Event { name: "E".into(), inputs, anonymous };
	let mut topics = vec![];
	if !anonymous && c.rng.chance(7, 8) {
		topics.push(signature_hash("E", ts).into());
	}
	let n = match c.rng.below(4) {
		0 => c.rng.below(6),
		_ => indexed,
	};
	for _ in 0..n {
		topics.push(special_word(&mut c.rng, data.len()).into());
	}
	let log = RawLog { topics, data: data.to_vec() };
	let shown = format!("{:?}", log);
	let names_ = event.inputs.iter().map(|p| (p.name.clone(), p.indexed)).collect::<Vec<_>>();
	let got = sut("Event::parse_log", || event.parse_log(log))
		.map_err(|e| format!("{}\n  event E({}) indexed {:?}\n  log {}", e, names(ts), names_, clip(&shown, 6000)))?;
	match got {
		Err(_) => c.obs("parse_log: error"),
		Ok(log) => {
			c.obs("parse_log: values");
			ensure!(
				log.params.len() == ts.len(),
				"parse_log returned {} params for event E({})\n  log {}",
				log.params.len(),
				names(ts),
				clip(&shown, 3000)
			);
			for ((p, t), (_, indexed)) in log.params.iter().zip(ts).zip(&names_) {
				let t = if *indexed && !is_value_type(t) { Ty::FBytes(32) } else { t.clone() };
				ensure!(
					conforms_exactly(&Val::from_sut(&p.value), &t),
					"parse_log returned {:?} for a param of type {}\n  log {}",
					p.value,
					t.name(),
					clip(&shown, 3000)
				);
			}
		}
	}
	Ok(())
}

pub fn c04(c: &mut Ctx) -> Res {
	let Hostile { ts, data, kind } = hostile(&mut c.rng, false, c.tier, c.idx);
	if ts.iter().any(Ty::has_zero_size) {
		c.count("skipped: zero-size types");
		return Ok(());
	}
	let mut d = Decoder::tracking(&data, FUEL);
	let expected = d.run(&ts);
	let used = d.used.take().unwrap();
	let params = to_sut_tys(&ts);
	let f = function("f", &ts, &[]);
	let g = function("f", &[], &ts);
	let ctx = |data: &[u8]| format!("\n  types ({})\n  data {}", names(&ts), clip(&hex(data), 6000));
	let run = |data: &[u8], which: usize| {
		sut("decode", || match which {
			0 => ethabi::decode(&params, data),
			1 => f.decode_input(data),
			_ => g.decode_output(data),
		})
		.map_err(|e| e + &ctx(data))
	};
	for which in 0..3 {
		if which > 0 && !c.rng.chance(1, 4) {
			continue;
		}
		match &expected {
			Decoded::Fuel => {
				c.count("skipped: denotes too many values");
				return Ok(());
			}
			Decoded::Err(why) => {
				let got = run(&data, which)?;
				c.obs("compared: must be refused");
				c.count(&format!("refused because: {}", why));
				ensure!(got.is_err(), "decoding accepts bytes that denote nothing ({}){}\n  got {:?}", why, ctx(&data), got);
			}
			Decoded::Ok(vals) => {
				let got = run(&data, which)?;
				c.obs("compared: must be accepted");
				match got {
					Err(e) => return Err(format!("decoding refuses bytes that denote {:?}: {}{}", vals, e, ctx(&data))),
					Ok(tokens) => {
						let got = from_sut_vals(&tokens);
						ensure!(
							&got == vals,
							"decoding returns other values than the bytes denote{}\n  expected {}\n  got      {}",
							ctx(&data),
							clip(&format!("{:?}", vals), 3000),
							clip(&format!("{:?}", got), 3000)
						);
					}
				}
			}
		}
	}
	// bytes outside the designated ranges do not matter
	if let Decoded::Ok(vals) = &expected {
		let free: Vec<usize> = (0..data.len()).filter(|i| !used[*i]).collect();
		if !free.is_empty() {
			let mut other = data.clone();
			match c.rng.below(3) {
				0 => free.iter().for_each(|i| other[*i] ^= 0xff),
				1 => {
					let i = *c.rng.pick(&free);
					other[i] = other[i].wrapping_add(1)
				}
				_ => {
					let r = &mut c.rng;
					free.iter().for_each(|i| other[*i] = r.next() as u8)
				}
			}
			let got = run(&other, 0)?;
			c.obs("compared: undesignated bytes changed");
			match got {
				Ok(tokens) if &from_sut_vals(&tokens) == vals => {}
				other_result => {
					return Err(format!(
						"bytes outside the designated ranges change the result{}\n  changed to {}\n  expected {}\n  got {}",
						ctx(&data),
						clip(&hex(&other), 6000),
						clip(&format!("{:?}", vals), 2000),
						clip(&format!("{:?}", other_result), 2000)
					))
				}
			}
		}
	}
	c.count(&format!("data: {}", kind));
	let mut fp = names(&ts).into_bytes();
	fp.push(0);
	fp.extend_from_slice(&data);
	if !ts.is_empty() && !data.is_empty() {
		c.nontrivial(&fp);
	}
	c.sample(|| format!("types ({}) data {}", names(&ts), clip(&hex(&data), 300)));
	Ok(())
}

// ---------------------------------------------------------------- resources

pub fn c05(c: &mut Ctx) -> Res {
	let idx = c.idx;
	let tier = c.tier;
	let r = &mut c.rng;
	let (ts, data, kind): (Vec<Ty>, Vec<u8>, &str) = match r.below(9) {
		_ if idx < 12 => {
			// much data, one level
			let big = if tier == Tier::Quick { 30_000 } else { 200_000 };
			let n = [big, big, big, big / 8, big, big / 3, big, big / 2, big, big, big, big][idx as usize];
			let e = [Ty::Uint(256), Ty::Address, Ty::Bool, Ty::FArr(Box::new(Ty::Uint(8)), 8), Ty::FBytes(32)];
			match idx {
				0..=4 => {
					let t = e[idx as usize].clone();
					let k = n;
					let vs: Vec<Val> = (0..k).map(|_| val(r, &t, 1, &mut Budget(0))).collect();
					let ts = vec![Ty::Arr(Box::new(t))];
					let d = encode(&ts, &[Val::Arr(vs)]);
					(ts, d, "large valid")
				}
				5 => (vec![Ty::Bytes], encode(&[Ty::Bytes], &[Val::Bytes(r.bytes(n * 32))]), "large valid"),
				6 => (vec![Ty::Str], encode(&[Ty::Str], &[Val::Str(text(r, n * 32))]), "large valid"),
				_ => {
					// a lying length in front of much data
					let t = e[idx as usize % 5].clone();
					let ts = vec![Ty::Arr(Box::new(t))];
					let mut d = word(32).to_vec();
					d.extend(word(if idx % 2 == 0 { 0xffff_ffff } else { n * 32 }));
					d.extend(vec![0u8; n * 32]);
					(ts, d, "large, lying length")
				}
			}
		}
		0 => {
			// arrays of elements that take no space
			let e = match r.below(4) {
				0 => Ty::FArr(Box::new(leaf_static(r)), 0),
				1 => Ty::FBytes(0),
				2 => Ty::Tup(vec![]),
				_ => Ty::Tup(vec![Ty::FArr(Box::new(leaf_static(r)), 0)]),
			};
			let ts = vec![Ty::Arr(Box::new(e))];
			let mut d = word(32).to_vec();
			d.extend(special_length(r));
			let n = r.below(200);
			d.extend(r.bytes(n));
			(ts, d, "empty elements")
		}
		1 if r.chance(1, 6) => {
			// deep, and valid
			let d = r.range(3, 40);
			let ts = vec![deep_ty(r, d, ALL)];
			let max = *r.pick(&[1, 2, 3]);
			let vs = vals(r, &ts, max);
			let d = encode(&ts, &vs);
			(ts, d, "deep valid")
		}
		1..=3 => {
			// one word of a valid encoding, at every position over many cases, made huge
			let t = dyn_ty(r);
			let mut ts = vec![t];
			if r.bool() {
				ts.insert(0, leaf(r));
			}
			let max = *r.pick(&[1, 2, 4, 30]);
			let vs = vals(r, &ts, max);
			let mut d = encode(&ts, &vs);
			d.truncate(1 << 14);
			let words = d.len() / 32;
			for _ in 0..r.range(1, 2) {
				if words > 0 {
					let i = r.below(words);
					let w = special_length(r);
					d[32 * i..32 * i + 32].copy_from_slice(&w);
				}
			}
			(ts, d, "one huge word")
		}
		4 => {
			// offsets aliasing one region
			let t = dyn_ty(r);
			let n = r.range(3, 24);
			let mut d = vec![];
			for _ in 0..n {
				let w = match r.below(4) {
					0 => word(0),
					1 => word(32 * r.below(n)),
					2 => word(n),
					_ => word(r.below(n * 32)),
				};
				d.extend_from_slice(&w);
			}
			(vec![t], d, "aliasing offsets")
		}
		5 => {
			// a fixed array, declared much longer than the data
			let e = ty(r, 2, SOLIDITY);
			let n = match r.below(6) {
				0 => 1 << r.range(9, 40),
				1 => usize::MAX >> r.below(24),
				_ => r.range(1 << 9, 1 << 20),
			};
			let mut t = Ty::FArr(Box::new(e), n);
			match r.below(5) {
				0 => t = Ty::Arr(Box::new(t)),
				1 => t = Ty::Tup(vec![leaf(r), t]),
				2 => t = Ty::FArr(Box::new(t), r.range(1, 3)),
				_ => (),
			}
			let ts = if r.chance(1, 3) { vec![leaf(r), t] } else { vec![t] };
			let mut d = vec![];
			for _ in 0..r.below(20) {
				let at = 32 * r.below(8);
				d.extend(word(*r.pick(&[0, 1, 1, 2, at, at])));
			}
			(ts, d, "long fixed array")
		}
		_ => {
			let h = hostile(r, false, tier, idx);
			(h.ts, h.data, h.kind)
		}
	};
	if ts.iter().any(|t| t.has_zero_size() && t.longest() > 1 << 16) {
		return Ok(());
	}
	let levels = ts.iter().map(Ty::dyn_levels).max().unwrap_or(0).max(1);
	let nodes: usize = ts.iter().map(Ty::nodes).sum::<usize>() + 1;
	let len = data.len() as u128;
	let factor = (len / 32 + 1).saturating_pow(levels as u32 - 1);
	let budget = ((256 * (len + 64)) * nodes as u128).saturating_mul(factor).saturating_add(4096);
	let mut reference = Decoder::new(&data, FUEL);
	let denotes = match reference.run(&ts) {
		Decoded::Fuel => {
			c.count("skipped: denotes too many values");
			return Ok(());
		}
		Decoded::Ok(_) => Some(reference.spent(FUEL)),
		Decoded::Err(_) => None,
	};
	let params = to_sut_tys(&ts);
	let ctx = || format!("\n  types ({})\n  data ({} bytes) {}", names(&ts), data.len(), clip(&hex(&data), 4000));
	let cap = (budget.min(1 << 30) as i64).max(1 << 20);
	HARD_CAP.store(cap, std::sync::atomic::Ordering::Relaxed);
	let run = || sut_metered("decode", || ethabi::decode(&params, &data).is_ok()).map_err(|e| e + &ctx());
	let result = run();
	let (ok, m) = match result {
		Ok(x) => x,
		Err(e) => return Err(e),
	};
	c.obs(if ok { "metered: accepted" } else { "metered: refused" });
	ensure!(
		(m.total as u128) <= budget,
		"decoding allocates {} bytes ({} live at once) for {} bytes of data, budget {}{}",
		m.total,
		m.peak,
		data.len(),
		budget,
		ctx()
	);
	// accepted data costs in proportion to what it denotes
	let mut cpu_limit = 500_000_000u128 + budget.min(1 << 34) * 5;
	if let (true, Some(n)) = (ok, denotes) {
		let n = n as u128 + nodes as u128;
		let own = 32_768 + 2048 * n;
		c.obs("metered: against the values denoted");
		ensure!(
			(m.total as u128) <= own,
			"decoding allocates {} bytes for {} words and values, budget {}{}",
			m.total,
			n,
			own,
			ctx()
		);
		cpu_limit = cpu_limit.min(200_000_000 + 10_000 * n);
		c.max("allocated bytes per word and value denoted", (m.total as u128 / (n + 8)) as u64);
	}
	// a generous bound on CPU time, far above what the data can need; judged on the best of several runs
	if m.cpu_ns as u128 > cpu_limit {
		let mut best = m.cpu_ns;
		for _ in 0..2 {
			best = best.min(run()?.1.cpu_ns);
		}
		ensure!(
			best as u128 <= cpu_limit,
			"decoding takes {} ms of CPU time for {} bytes of data, limit {} ms{}",
			best / 1_000_000,
			data.len(),
			cpu_limit / 1_000_000,
			ctx()
		);
	}
	c.count(&format!("dynamic levels: {}", levels.min(6)));
	c.count(&format!("data: {}", kind));
	c.max("bytes allocated by a call", m.total);
	c.max("allocated bytes per byte of data, one level (data of 1 KB and more)", if levels == 1 && len >= 1024 { (m.total as u128 / len) as u64 } else { 0 });
	c.max("longest data (bytes)", data.len() as u64);
	let mut fp = names(&ts).into_bytes();
	fp.extend(crate::rng::hash_bytes(&data).to_le_bytes());
	c.nontrivial(&fp);
	c.sample(|| format!("types ({}) data {} -> {:?}", names(&ts), clip(&hex(&data), 300), m));
	Ok(())
}

fn leaf_static(r: &mut Rng) -> Ty {
	static_leaf(r)
}

fn special_length(r: &mut Rng) -> [u8; 32] {
	word(match r.below(8) {
		0 => 0xffff_ffff,
		1 => 0x7fff_ffff,
		2 => 0x8000_0000,
		3 => 0x0100_0000,
		4 => 0xffff_ffe0,
		5 => 1 << r.range(10, 31),
		6 => 0x1000_0000 + r.below(1 << 20),
		_ => r.below(1 << 32),
	})
}

fn dyn_ty(r: &mut Rng) -> Ty {
	loop {
		let t = match r.below(6) {
			0 => Ty::Bytes,
			1 => Ty::Str,
			2 => Ty::Arr(Box::new(static_leaf(r))),
			3 => Ty::Arr(Box::new(ty(r, 1, SOLIDITY))),
			4 => Ty::Tup(vec![leaf(r), Ty::Bytes, ty(r, 1, SOLIDITY)]),
			_ => ty(r, 3, SOLIDITY),
		};
		if t.is_dynamic() && t.dyn_levels() <= 4 {
			return t;
		}
	}
}
