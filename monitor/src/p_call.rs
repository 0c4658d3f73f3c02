//! C06, C07, C21: call data, type checks, signatures.

use crate::ensure;
use crate::gen::*;
use crate::keccak::keccak256;
use crate::model::*;
use crate::mon::*;
use crate::p_codec::{function, show};
use crate::rng::Rng;
use ethabi::{Constructor, Event, EventParam, Function, Param, StateMutability, Token};

/// A name, and sometimes an odd one: names are free text at this level.
pub fn any_name(r: &mut Rng) -> String {
	match r.below(10) {
		0 => {
			let n = size(r, 40);
			text(r, n)
		}
		_ => ident(r),
	}
}

pub fn mutability(r: &mut Rng) -> StateMutability {
	*r.pick(&[StateMutability::Pure, StateMutability::View, StateMutability::NonPayable, StateMutability::Payable])
}

/// Values for the types which may or may not conform.
fn maybe_conforming(r: &mut Rng, ts: &[Ty]) -> Vec<Val> {
	let max = *r.pick(&[1, 1, 1, 2, 2, 2, 3, 3, 3, 6, 6, 6, 40, 300]);
	let mut vs = vals(r, ts, max);
	if r.chance(1, 5) {
		let mut q = r.clone();
		vs.iter_mut().for_each(|v| shorten(&mut q, v));
	}
	match r.below(10) {
		0..=3 => {}
		4 => {
			vs.pop();
		}
		5 => {
			let t = leaf(r);
			vs.push(val(r, &t, 2, &mut Budget(10)));
		}
		6 if r.chance(1, 6) => {
			// as many again in a count of eight bits
			let x = vs.last().cloned().unwrap_or(Val::Bool(true));
			if is_small(&x) {
				vs.extend(std::iter::repeat(x).take(256));
			}
		}
		6 if vs.len() > 1 => {
			let i = r.below(vs.len());
			let j = r.below(vs.len());
			vs.swap(i, j);
		}
		_ => {
			let n = r.range(1, 2);
			for _ in 0..n {
				if !vs.is_empty() {
					let i = r.below(vs.len());
					break_val(r, &mut vs[i]);
				}
			}
		}
	}
	vs
}

pub fn c06(c: &mut Ctx) -> Res {
	let ts = tys(&mut c.rng, ALL);
	let vs = maybe_conforming(&mut c.rng, &ts);
	let ok = conform_all(&vs, &ts);
	let name = any_name(&mut c.rng);
	let outputs = if c.rng.bool() { tys(&mut c.rng, SOLIDITY) } else { vec![] };
	let mut f = function(&name, &ts, &outputs);
	f.state_mutability = mutability(&mut c.rng);
	for p in &mut f.inputs {
		p.name = ident(&mut c.rng);
	}
	let tokens = to_sut_vals(&vs);
	let ctx = || format!("function {:?} {}", name, show(&ts, &vs));
	let got = sut("Function::encode_input", || f.encode_input(&tokens)).map_err(|e| format!("{}: {}", ctx(), e))?;
	c.obs(if ok { "encode_input: conforming" } else { "encode_input: not conforming" });
	match (ok, got) {
		(true, Err(e)) => return Err(format!("encode_input refuses conforming values: {}\n  {}", e, ctx())),
		(false, Ok(d)) => return Err(format!("encode_input accepts values that do not conform\n  {}\n  call data {}", ctx(), clip(&hex(&d), 2000))),
		(false, Err(_)) => {}
		(true, Ok(d)) => {
			let mut expected = signature_hash(&name, &ts)[..4].to_vec();
			expected.extend(encode(&ts, &vs));
			ensure!(
				d == expected,
				"call data differs\n  {}\n  expected {}\n  got      {}",
				ctx(),
				clip(&hex(&expected), 3000),
				clip(&hex(&d), 3000)
			);
		}
	}
	// constructor
	let n = match c.rng.below(4) {
		0 => 0,
		_ if c.rng.chance(1, 150) => c.rng.below(300_000),
		_ => size(&mut c.rng, 300),
	};
	let code = byte_string(&mut c.rng, n);
	let con = Constructor {
		inputs: ts.iter().map(|t| Param { name: ident(&mut c.rng), kind: t.to_sut(), internal_type: None }).collect(),
	};
	let got =
		sut("Constructor::encode_input", || con.encode_input(code.clone(), &tokens)).map_err(|e| format!("{}: {}", ctx(), e))?;
	c.obs(if ok { "constructor: conforming" } else { "constructor: not conforming" });
	match (ok, got) {
		(true, Err(e)) => return Err(format!("constructor refuses conforming values: {}\n  {}", e, ctx())),
		(false, Ok(_)) => return Err(format!("constructor accepts values that do not conform\n  {}", ctx())),
		(false, Err(_)) => {}
		(true, Ok(d)) => {
			let mut expected = code.clone();
			expected.extend(encode(&ts, &vs));
			ensure!(
				d == expected,
				"constructor data differs, code {}\n  {}\n  expected {}\n  got      {}",
				hex(&code),
				ctx(),
				clip(&hex(&expected), 3000),
				clip(&hex(&d), 3000)
			);
		}
	}
	if !ts.is_empty() {
		c.nontrivial(format!("{}{}{:?}", name, names(&ts), vs).as_bytes());
	}
	c.sample(|| format!("{} conforming={}", ctx(), ok));
	Ok(())
}

pub fn c07(c: &mut Ctx) -> Res {
	let r = &mut c.rng;
	let ts = tys(r, ANY);
	let mut other = ts.clone();
	let vs = maybe_conforming(r, &ts);
	let swap = r.chance(1, 3) && !other.is_empty();
	if swap {
		// keep the values, change the types
		let i = r.below(other.len());
		break_ty(r, &mut other[i]);
		if r.chance(1, 6) {
			other.pop();
		}
	}
	let (params, tokens) = (to_sut_tys(&other), to_sut_vals(&vs));
	let expected = conform_all(&vs, &other);
	let ctx = || show(&other, &vs);
	let got = sut("Token::types_check", || Token::types_check(&tokens, &params)).map_err(|e| format!("{}: {}", ctx(), e))?;
	c.obs(if expected { "types_check: conforming" } else { "types_check: not conforming" });
	ensure!(got == expected, "types_check answers {} and not {}\n  {}", got, expected, ctx());
	// every single pair, matching positions and not
	for (i, (v, t)) in vs.iter().zip(&tokens).enumerate().take(8) {
		for (j, (ty, p)) in other.iter().zip(&params).enumerate().take(8) {
			if i != j && (i + j) as u64 % 3 != c.idx % 3 {
				continue;
			}
			let expected = conforms(v, ty);
			let got = sut("Token::type_check", || t.type_check(p))
				.map_err(|e| format!("{}: value {:?} type {}", e, v, ty.name()))?;
			c.obs(if expected { "type_check: conforming" } else { "type_check: not conforming" });
			ensure!(
				got == expected,
				"type_check answers {} and not {} for type {} and value {}",
				got,
				expected,
				ty.name(),
				clip(&format!("{:?}", v), 2000)
			);
		}
	}
	if !other.is_empty() {
		c.nontrivial(format!("{}{:?}", names(&other), vs).as_bytes());
	}
	c.sample(|| format!("{} conforming={}", ctx(), expected));
	Ok(())
}

pub fn fn_text(name: &str, ins: &[Ty], outs: &[Ty]) -> String {
	if outs.is_empty() {
		format!("{}({})", name, names(ins))
	} else {
		format!("{}({}):({})", name, names(ins), names(outs))
	}
}

pub fn c21(c: &mut Ctx) -> Res {
	let mut rng = c.rng.clone();
	let r = &mut rng;
	let name = any_name(r);
	let o = TyOpt { big_fbytes: true, ..SOLIDITY };
	let mut ins = tys(r, o);
	if r.chance(1, 12) {
		let d = r.range(8, 60);
		ins.push(deep_ty(r, d, o));
	}
	let outs = if r.chance(1, 3) { vec![] } else { tys(r, o) };
	let mut f = function(&name, &ins, &outs);
	#[allow(deprecated)]
	{
		f.constant = r.bool();
	}
	f.state_mutability = mutability(r);
	for p in f.inputs.iter_mut().chain(&mut f.outputs) {
		p.name = ident(r);
		if r.chance(1, 4) {
			p.internal_type = Some(ident(r));
		}
	}
	let expected = fn_text(&name, &ins, &outs);
	let got = sut("Function::signature", || f.signature()).map_err(|e| format!("{} for {}", e, expected))?;
	c.obs("function signatures compared");
	ensure!(got == expected, "signature is {:?} and not {:?}", got, expected);

	// a neighbour: one thing changed
	let (mut name2, mut ins2, mut outs2) = (name.clone(), ins.clone(), outs.clone());
	match r.below(6) {
		0 => name2 = any_name(r),
		1 if !ins2.is_empty() => {
			let i = r.below(ins2.len());
			break_ty(r, &mut ins2[i])
		}
		2 if !outs2.is_empty() => {
			let i = r.below(outs2.len());
			break_ty(r, &mut outs2[i])
		}
		3 => std::mem::swap(&mut ins2, &mut outs2),
		4 => {
			ins2.pop();
		}
		_ => {
			let t = leaf(r);
			outs2.push(t)
		}
	}
	let g = function(&name2, &ins2, &outs2);
	let got2 = sut("Function::signature", || g.signature()).map_err(|e| format!("{} for {}", e, fn_text(&name2, &ins2, &outs2)))?;
	ensure!(got2 == fn_text(&name2, &ins2, &outs2), "signature is {:?} and not {:?}", got2, fn_text(&name2, &ins2, &outs2));
	c.obs("neighbouring signatures compared");
	let plain = |n: &str| !n.contains(|ch: char| "(),:[]".contains(ch));
	if plain(&name) && plain(&name2) {
		let same = name == name2 && ins == ins2 && outs == outs2;
		ensure!((got == got2) == same, "signatures {:?} and {:?} of {}equal functions", got, got2, if same { "" } else { "un" });
	}

	// selectors depend on name and inputs only: outputs, mutability, names aside
	let vs = vals(r, &ins, 1);
	let tokens = to_sut_vals(&vs);
	let sel = keccak256(format!("{}({})", name, names(&ins)).as_bytes());
	let g = function(&name, &ins, &outs2);
	for (f, what) in [(&f, "function"), (&g, "function with other outputs")] {
		let f: &Function = f;
		let d = sut("Function::encode_input", || f.encode_input(&tokens)).map_err(|e| format!("{} for {}", e, expected))?;
		match d {
			Ok(d) if d.len() >= 4 => {
				c.obs("selectors compared");
				ensure!(d[..4] == sel[..4], "selector of {} {} is {} and not {}", what, expected, hex(&d[..4]), hex(&sel[..4]))
			}
			other => return Err(format!("encode_input of {} {} gives {:?}", what, expected, other.map(|d| hex(&d)))),
		}
	}

	// events: over all parameters, indexed or not, anonymous or not
	let e = Event {
		name: name.clone(),
		inputs: ins
			.iter()
			.map(|t| EventParam { name: ident(r), kind: t.to_sut(), indexed: r.chance(1, 3) })
			.collect(),
		anonymous: r.chance(1, 4),
	};
	let got = sut("Event::signature", || e.signature()).map_err(|x| format!("{} for event {}", x, expected))?;
	c.obs("event signatures compared");
	ensure!(got.0 == sel, "event signature of {}({}) is {:?} and not {}", name, names(&ins), got, hex(&sel));
	if !ins.is_empty() {
		c.nontrivial(expected.as_bytes());
	}
	c.max("longest signature", expected.len() as u64);
	c.sample(|| format!("{} -> {}", clip(&expected, 200), hex(&sel)));
	Ok(())
}
