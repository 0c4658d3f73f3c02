//! C22: what goes into values, types and ABI items comes out of them, and equality tells apart
//! exactly those that differ.

use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::mon::*;
use crate::p_json::{cut, sized_document, mut_of, sut_contract, sut_event, sut_function, Entry, MEv, MFn, MParam};
use crate::p_state::tweak;
use crate::rng::Rng;
use ethabi::{Constructor, EventParam, Hash, Log, LogParam, Param, RawLog, Token, TupleParam};

/// Answers of all accessors, as values.
fn accessors(t: &Token) -> Vec<(&'static str, Option<Val>)> {
	vec![
		("into_address", t.clone().into_address().map(|a| Val::Address(a.0))),
		("into_fixed_bytes", t.clone().into_fixed_bytes().map(Val::FBytes)),
		("into_bytes", t.clone().into_bytes().map(Val::Bytes)),
		("into_int", t.clone().into_int().map(|w| Val::Int(w.into()))),
		("into_uint", t.clone().into_uint().map(|w| Val::Uint(w.into()))),
		("into_bool", t.clone().into_bool().map(Val::Bool)),
		("into_string", t.clone().into_string().map(Val::Str)),
		("into_fixed_array", t.clone().into_fixed_array().map(|l| Val::FArr(from_sut_vals(&l)))),
		("into_array", t.clone().into_array().map(|l| Val::Arr(from_sut_vals(&l)))),
	]
}

fn accessor_of(v: &Val) -> &'static str {
	match v {
		Val::Address(_) => "into_address",
		Val::FBytes(_) => "into_fixed_bytes",
		Val::Bytes(_) => "into_bytes",
		Val::Int(_) => "into_int",
		Val::Uint(_) => "into_uint",
		Val::Bool(_) => "into_bool",
		Val::Str(_) => "into_string",
		Val::FArr(_) => "into_fixed_array",
		Val::Arr(_) => "into_array",
		Val::Tup(_) => "",
	}
}

fn one_value(r: &mut Rng) -> Val {
	let d = r.range(0, 4);
	let mut t = ty(r, d, ANY);
	if r.chance(1, 30) {
		let d = deep(r, 30);
		t = deep_ty(r, d, ALL);
	}
	let max = if r.chance(1, 60) { 3000 } else { *r.pick(&[0, 1, 2, 4, 12, 40, 150]) };
	let mut v = val(r, &t, max, &mut Budget(400));
	if r.chance(1, 3) {
		// values of no type at all
		break_val(r, &mut v);
	}
	v
}

/// Another value, or one that differs in one place (at times in none).
fn neighbour(r: &mut Rng, v: &Val) -> Val {
	let mut w = v.clone();
	match r.below(6) {
		0 => {}
		1 | 2 => tweak(r, &mut w),
		3 => {
			// the same in another spelling
			if let Val::Str(s) = &mut w {
				*s = match r.below(4) {
					0 => s.to_uppercase(),
					1 => s.to_lowercase(),
					2 => s.trim().to_string(),
					_ => format!("{}\0", s),
				}
			} else {
				shorten(r, &mut w)
			}
		}
		_ => break_val(r, &mut w),
	}
	w
}

pub fn c22(c: &mut Ctx) -> Res {
	values(c)?;
	types(c)?;
	if c.idx % 4 == 0 {
		items(c)?;
	}
	Ok(())
}

fn values(c: &mut Ctx) -> Res {
	let v = one_value(&mut c.rng);
	let ctx = || clip(&format!("value {:?}", v), 4000);
	let t = v.to_sut();
	for (how, got) in sut("Token::into_*", || accessors(&t)).map_err(|e| format!("{}\n  {}", e, ctx()))? {
		let want = if how == accessor_of(&v) { Some(v.clone()) } else { None };
		c.obs(if want.is_some() { "accessors: own kind" } else { "accessors: other kinds" });
		ensure!(got == want, "{} gives {}\n  {}", how, clip(&format!("{:?}", got), 3000), ctx());
	}
	let copy = sut("Token::clone", || t.clone())?;
	ensure!(Val::from_sut(&copy) == v, "the clone is {:?}\n  {}", copy, ctx());
	let w = neighbour(&mut c.rng, &v);
	let other = w.to_sut();
	let (eq, ne, back) = sut("Token ==", || (t == other, t != other, other == t))?;
	c.obs(if v == w { "tokens: equal" } else { "tokens: different" });
	ensure!(
		eq == (v == w) && ne != eq && back == eq,
		"== answers {}, != {}, == the other way round {}\n  {}\n  and {:?}",
		eq,
		ne,
		back,
		ctx(),
		w
	);
	// in logs
	let (mut a, mut b) = (vec![(String::from("a"), v.clone())], vec![(String::from("a"), w.clone())]);
	match c.rng.below(5) {
		0 => b[0].0 = c.rng.pick(&["a", "A", "", "b"]).to_string(),
		1 => a.push((String::new(), v.clone())),
		2 => b.insert(0, (String::from("z"), w.clone())),
		_ => {}
	}
	let log = |l: &[(String, Val)]| Log { params: l.iter().map(|(n, v)| LogParam { name: n.clone(), value: v.to_sut() }).collect() };
	let (x, y) = (log(&a), log(&b));
	let eq = sut("Log ==", || (x == y, x.clone() == x))?;
	c.obs("logs compared");
	ensure!(eq == (a == b, true), "logs compare as {:?}\n  {:?}\n  {:?}", eq, x, y);
	let n = c.rng.below(5);
	let topics: Vec<Hash> = (0..n).map(|_| Hash::from(special_word(&mut c.rng, 64))).collect();
	let n = size(&mut c.rng, 100);
	let data = byte_string(&mut c.rng, n);
	let raw = sut("RawLog::from", || RawLog::from((topics.clone(), data.clone())))?;
	ensure!(raw.topics == topics && raw.data == data, "the topics {:?} and data {:?} become {:?}", topics, data, raw);
	c.obs("raw logs made");
	if matches!(v, Val::Arr(_) | Val::FArr(_) | Val::Tup(_)) {
		c.nontrivial(format!("{:?}{:?}", v, w).as_bytes());
	}
	c.sample(ctx);
	Ok(())
}

fn types(c: &mut Ctx) -> Res {
	let r = &mut c.rng;
	let d = r.range(0, 4);
	let mut t = ty(r, d, ANY);
	if r.chance(1, 20) {
		let d = deep(r, 30);
		t = deep_ty(r, d, ALL);
	}
	let mut u = t.clone();
	if r.chance(3, 4) {
		break_ty(r, &mut u);
	}
	let (a, b) = (t.to_sut(), u.to_sut());
	let (eq, ne, back, copy) = sut("ParamType ==", || (a == b, a != b, b == a, a.clone()))?;
	c.obs(if t == u { "types: equal" } else { "types: different" });
	ensure!(
		eq == (t == u) && ne != eq && back == eq && Ty::from_sut(&copy) == t,
		"== answers {}, != {}, == the other way round {}, the clone is {:?}\n  {} and {}",
		eq,
		ne,
		back,
		copy,
		t.name(),
		u.name()
	);
	Ok(())
}

/// What a reader of the ABI can tell of an item.
fn plain_params(ps: &[MParam]) -> Vec<(String, Ty, Option<String>)> {
	ps.iter().map(|p| (p.name.clone(), p.ty.clone(), p.internal.clone())).collect()
}
type PlainFn = (String, Vec<(String, Ty, Option<String>)>, Vec<(String, Ty, Option<String>)>, String, bool);
fn plain_fn(f: &MFn) -> PlainFn {
	(cut(&f.raw).into(), plain_params(&f.inputs), plain_params(&f.outputs), format!("{:?}", mut_of(f.mutability)), f.constant.unwrap_or(false))
}
type PlainEv = (String, Vec<(String, Ty, bool)>, bool);
fn plain_ev(e: &MEv) -> PlainEv {
	(cut(&e.raw).into(), e.inputs.iter().map(|p| (p.name.clone(), p.ty.clone(), p.indexed)).collect(), e.anonymous)
}

fn change_params(r: &mut Rng, ps: &mut Vec<MParam>) {
	let n = ps.len();
	if n == 0 {
		ps.push(MParam { name: String::new(), ty: leaf(r), internal: None, indexed: false });
		return;
	}
	let i = r.below(n);
	match r.below(8) {
		0 => ps[i].name.push('x'),
		1 => ps[i].name = ps[i].name.to_uppercase(),
		2 => break_ty(r, &mut ps[i].ty),
		3 => {
			ps[i].internal = match ps[i].internal {
				None => Some(r.pick(&["", "uint256", "struct S"]).to_string()),
				Some(_) => None,
			}
		}
		4 => ps[i].indexed = !ps[i].indexed,
		5 => {
			ps.remove(i);
		}
		6 => {
			let p = ps[i].clone();
			ps.push(p)
		}
		_ => ps.swap(i, n - 1),
	}
}

fn items(c: &mut Ctx) -> Res {
	let doc = sized_document(&mut c.rng);
	if doc.is_empty() {
		return Ok(());
	}
	let at = c.rng.below(doc.len());
	let mut other = doc.clone();
	let same = match &mut other[at] {
		Entry::Fun(f) => {
			let old = f.clone();
			match c.rng.below(6) {
				0 => f.raw.insert(0, '_'),
				1 => change_params(&mut c.rng, &mut f.inputs),
				2 => change_params(&mut c.rng, &mut f.outputs),
				3 => f.mutability = Some(*c.rng.pick(&["pure", "view", "nonpayable", "payable"])),
				4 => f.constant = Some(!f.constant.unwrap_or(false)),
				_ => {}
			}
			let same = plain_fn(&old) == plain_fn(f);
			let (a, b) = (sut_function(&old), sut_function(f));
			let got = sut("Function ==", || (a == b, b == a, a != b, a.clone() == a))?;
			ensure!(got == (same, same, !same, true), "functions compare as {:?}\n  {:?}\n  {:?}", got, a, b);
			c.obs("functions compared");
			same
		}
		Entry::Ev(e) => {
			let old = e.clone();
			match c.rng.below(4) {
				0 => e.raw.insert(0, '_'),
				1 | 2 => change_params(&mut c.rng, &mut e.inputs),
				_ => e.anonymous = c.rng.bool(),
			}
			let same = plain_ev(&old) == plain_ev(e);
			let (a, b) = (sut_event(&old), sut_event(e));
			let got = sut("Event ==", || (a == b, b == a, a != b, a.clone() == a))?;
			ensure!(got == (same, same, !same, true), "events compare as {:?}\n  {:?}\n  {:?}", got, a, b);
			c.obs("events compared");
			same
		}
		Entry::Con(ps) => {
			let old = ps.clone();
			change_params(&mut c.rng, ps);
			let same = plain_params(&old) == plain_params(ps);
			let con = |ps: &[MParam]| Constructor { inputs: ps.iter().map(crate::p_json::sut_param).collect() };
			let (a, b) = (con(&old), con(ps));
			let got = sut("Constructor ==", || (a == b, b == a, a != b, a.clone() == a))?;
			ensure!(got == (same, same, !same, true), "constructors compare as {:?}\n  {:?}\n  {:?}", got, a, b);
			c.obs("constructors compared");
			same
		}
		_ => return Ok(()),
	};
	let (a, b) = (sut_contract(&doc), sut_contract(&other));
	let got = sut("Contract ==", || (a == b, b == a, a != b, a.clone() == a))?;
	c.obs(if same { "contracts: equal" } else { "contracts: different" });
	ensure!(got == (same, same, !same, true), "contracts compare as {:?}\n  {}\n  {}", got, clip(&format!("{:?}", doc), 4000), clip(&format!("{:?}", other[at]), 2000));
	// single parameters
	let list = |e: &Entry| match e {
		Entry::Con(m) => m.clone(),
		Entry::Fun(f) => f.inputs.clone(),
		Entry::Ev(e) => e.inputs.clone(),
		_ => vec![],
	};
	for (m, n) in list(&doc[at]).iter().zip(&list(&other[at])) {
		let param = |m: &MParam| Param { name: m.name.clone(), kind: m.ty.to_sut(), internal_type: m.internal.clone() };
		let event = |m: &MParam| EventParam { name: m.name.clone(), kind: m.ty.to_sut(), indexed: m.indexed };
		let tuple = |m: &MParam| TupleParam { name: Some(m.name.clone()), kind: m.ty.to_sut(), internal_type: m.internal.clone() };
		let got = sut("params ==", || (param(m) == param(n), event(m) == event(n), tuple(m) == tuple(n), param(m).clone() == param(m)))?;
		let base = m.name == n.name && m.ty == n.ty;
		let want = (base && m.internal == n.internal, base && m.indexed == n.indexed, base && m.internal == n.internal, true);
		c.obs("parameters compared");
		ensure!(got == want, "parameters compare as {:?} and not {:?}\n  {:?}\n  {:?}", got, want, m, n);
	}
	Ok(())
}
