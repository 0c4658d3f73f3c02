//! C19: no hidden state, no races. Operations on shared objects are called in long random
//! histories, alone and from several threads at once; every result of every call is compared with
//! the one the reference gives for its arguments, whatever happened before or meanwhile.

use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::mon::*;
use crate::p_call::fn_text;
use crate::p_codec::function;
use crate::p_event::{self, emit, raw_log, Ev};
use crate::p_json::*;
use crate::p_text::{mutate_text, parse_text, render, tidy_strings, Parsed};
use crate::p_types::{mutate_name, recognise, Verdict};
use crate::rng::{hash_bytes, Rng};
use ethabi::param_type::{Reader, Writer};
use ethabi::token::{LenientTokenizer, StrictTokenizer, Tokenizer};
use ethabi::{Contract, Function, Param, RawTopicFilter, Token, Topic};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Mutex};

type Call = Arc<dyn Fn() -> String + Send + Sync>;

struct Op {
	kind: &'static str,
	call: Call,
	want: String,
	about: String,
}

fn op(kind: &'static str, about: String, want: String, f: impl Fn() -> String + Send + Sync + 'static) -> Op {
	Op { kind, call: Arc::new(f), want, about }
}

fn bytes_or_err(r: Result<Vec<u8>, ethabi::Error>) -> String {
	match r {
		Ok(b) => hex(&b),
		Err(_) => "error".into(),
	}
}
fn vals_or_err(r: Result<Vec<Token>, ethabi::Error>) -> String {
	match r {
		Ok(t) => format!("{:?}", from_sut_vals(&t)),
		Err(_) => "error".into(),
	}
}

/// Few names, so that equal names with other types, and equal types with other names, abound.
const NAMES: &[&str] = &["f", "g", "transfer", "transferFrom", "Transfer", "ff", "a"];

/// The names of one history: at times long ones that agree up to a point, or from a point on, or but for case.
fn name_pool(r: &mut Rng) -> Vec<String> {
	if r.bool() {
		return NAMES.iter().map(|n| n.to_string()).collect();
	}
	let n = size(r, 300);
	let common: String = (0..n).map(|_| *r.pick(&['a', 'b', '_', 'Z', '0'])).collect();
	let kind = r.below(4);
	(0..7)
		.map(|i| {
			let own = ((b'a' + i as u8) as char).to_string().repeat(r.range(1, 3));
			match kind {
				0 => format!("{}{}", common, own),
				1 => format!("{}{}", own, common),
				2 => format!("{}{}{}", common, own, common),
				_ => {
					let mut s = format!("f{}g", common).into_bytes();
					let at = r.below(s.len());
					s[at] = if i % 2 == 0 { s[at].to_ascii_uppercase() } else { s[at].to_ascii_lowercase() };
					String::from_utf8(s).unwrap()
				}
			}
		})
		.collect()
}

/// Another name of the same length, or a little longer.
fn tweak_name(r: &mut Rng, name: &mut String) {
	let mut b: Vec<char> = name.chars().collect();
	if b.is_empty() || r.chance(1, 6) {
		let at = r.below(b.len() + 1);
		b.insert(at, *r.pick(&['x', '_', '1']));
	} else {
		let at = match r.below(3) {
			0 => b.len() - 1,
			1 => 0,
			_ => r.below(b.len()),
		};
		b[at] = if b[at] == 'x' { 'y' } else { 'x' };
	}
	*name = b.into_iter().collect();
}

fn few_types(r: &mut Rng) -> Vec<Ty> {
	let n = *r.pick(&[0, 1, 1, 2, 2, 3]);
	let d = *r.pick(&[0, 0, 1, 2]);
	(0..n).map(|_| ty(r, d, SOLIDITY)).collect()
}

struct World {
	doc: Vec<Entry>,
	text: String,
	contract: Arc<Contract>,
	evs: Vec<Ev>,
	names: Vec<String>,
}

fn world(r: &mut Rng) -> World {
	let mut doc: Vec<Entry> = vec![];
	let names = name_pool(r);
	let p = |r: &mut Rng, t: Ty| MParam { name: r.pick(&names).to_string(), ty: t, internal: None, indexed: false };
	let base = few_types(r);
	for _ in 0..r.range(3, 8) {
		// overloads of one name that differ in one type, or share the types under another name
		let mut ins = base.clone();
		match r.below(3) {
			0 => ins = few_types(r),
			1 if !ins.is_empty() => {
				let i = r.below(ins.len());
				ins[i] = leaf(r);
			}
			_ => {}
		}
		let outs = few_types(r);
		doc.push(Entry::Fun(MFn {
			raw: r.pick(&names).to_string(),
			inputs: ins.into_iter().map(|t| p(r, t)).collect(),
			outputs: outs.into_iter().map(|t| p(r, t)).collect(),
			mutability: Some("view"),
			constant: Some(false),
		}));
	}
	let mut evs = vec![];
	for _ in 0..r.range(2, 4) {
		let mut e = p_event::event(r);
		e.params.truncate(4);
		e.name = r.pick(&names).to_string();
		doc.push(Entry::Ev(MEv {
			raw: e.name.clone(),
			inputs: e.params.iter().map(|(n, t, i)| MParam { name: n.clone(), ty: t.clone(), internal: None, indexed: *i }).collect(),
			anonymous: e.anonymous,
		}));
		evs.push(e);
	}
	let st = style(r);
	let j = doc_json(r, &doc, &st);
	let text = to_text(r, &j, &st);
	World { contract: Arc::new(sut_contract(&doc)), doc, text, evs, names }
}

fn tys_of(ps: &[MParam]) -> Vec<Ty> {
	ps.iter().map(|p| p.ty.clone()).collect()
}

fn some_vals(r: &mut Rng, ts: &[Ty]) -> Vec<Val> {
	let mut v = vals(r, ts, 2);
	if r.chance(1, 4) {
		if v.is_empty() || r.bool() {
			v.push(Val::Bool(true));
		} else {
			let i = r.below(v.len());
			break_val(r, &mut v[i]);
		}
	}
	v
}

fn call_data(name: &str, ts: &[Ty], vs: &[Val]) -> String {
	if conform_all(vs, ts) {
		let mut d = signature_hash(name, ts)[..4].to_vec();
		d.extend(encode(ts, vs));
		hex(&d)
	} else {
		"error".into()
	}
}

/// The n-th function of the contract, as its users find it.
fn nth(k: &Contract, name: &str, n: usize) -> Function {
	k.functions_by_name(name).expect("function")[n].clone()
}

fn make_op(r: &mut Rng, w: &World) -> Option<Op> {
	let k = w.contract.clone();
	let fs = functions(&w.doc);
	let fi = r.below(fs.len());
	let m = fs[fi].clone();
	let name = m.raw.clone();
	let at = fs[..fi].iter().filter(|f| f.raw == name).count();
	let (ins, outs) = (tys_of(&m.inputs), tys_of(&m.outputs));
	let ei = r.below(w.evs.len());
	let e = w.evs[ei].clone();
	let eat = w.evs[..ei].iter().filter(|x| x.name == e.name).count();
	Some(match r.below(18) {
		0 => {
			let vs = some_vals(r, &ins);
			let tokens = to_sut_vals(&vs);
			op("encode_input", format!("{}({})#{} {:?}", name, names(&ins), at, vs), call_data(&name, &ins, &vs), move || {
				bytes_or_err(nth(&k, &name, at).encode_input(&tokens))
			})
		}
		1 => {
			// on the shared function itself, without a copy
			let vs = some_vals(r, &ins);
			let tokens = to_sut_vals(&vs);
			op("encode_input in place", format!("{}({})#{} {:?}", name, names(&ins), at, vs), call_data(&name, &ins, &vs), move || {
				bytes_or_err(k.functions[&name][at].encode_input(&tokens))
			})
		}
		2 => {
			let want = fn_text(&name, &ins, &outs);
			op("signature", want.clone(), want, move || k.functions[&name][at].signature())
		}
		3 => {
			let want = hex(&signature_hash(&e.name, &e.tys()));
			op("event signature", format!("{:?}", e), want, move || hex(&k.events[&e.name][eat].signature().0))
		}
		4 => {
			let mut data = encode(&outs, &vals(r, &outs, 3));
			if r.bool() {
				mutate(r, &mut data);
			}
			let want = match decode(&outs, &data) {
				Decoded::Ok(v) => format!("{:?}", v),
				Decoded::Err(_) => "error".into(),
				Decoded::Fuel => return None,
			};
			op("decode_output", format!("({}) {}", names(&outs), hex(&data)), want, move || vals_or_err(k.functions[&name][at].decode_output(&data)))
		}
		5 => {
			let mut data = encode(&ins, &vals(r, &ins, 3));
			if r.bool() {
				mutate(r, &mut data);
			}
			let want = match decode(&ins, &data) {
				Decoded::Ok(v) => format!("{:?}", v),
				Decoded::Err(_) => "error".into(),
				Decoded::Fuel => return None,
			};
			let ps = to_sut_tys(&ins);
			op("decode", format!("({}) {}", names(&ins), hex(&data)), want, move || vals_or_err(ethabi::decode(&ps, &data)))
		}
		6 => {
			let ts = few_types(r);
			let vs = vals(r, &ts, 4);
			let tokens = to_sut_vals(&vs);
			op("encode", format!("({}) {:?}", names(&ts), vs), hex(&encode(&ts, &vs)), move || hex(&ethabi::encode(&tokens)))
		}
		7 | 8 => {
			let tys = e.tys();
			let vs = vals(r, &tys, 2);
			let (mut topics, mut data) = emit(&e, &vs);
			match r.below(5) {
				0 => {
					topics.pop();
				}
				1 => mutate(r, &mut data),
				_ => {}
			}
			let want = match p_event::parse(&e, &topics, &data) {
				Ok(ps) => format!("{:?}", ps),
				Err(Some(_)) => "error".into(),
				Err(None) => return None,
			};
			let log = raw_log(&topics, &data);
			op("parse_log", format!("{:?} {:?} {}", e, topics, hex(&data)), want, move || match k.events[&e.name][eat].parse_log(log.clone()) {
				Ok(l) => format!("{:?}", l.params.iter().map(|p| (p.name.clone(), Val::from_sut(&p.value))).collect::<Vec<_>>()),
				Err(_) => "error".into(),
			})
		}
		9 => {
			let kinds = e.indexed();
			let v: Vec<Option<Val>> = (0..3)
				.map(|i| match kinds.get(i) {
					Some(t) if r.chance(3, 4) => Some(val(r, t, 2, &mut Budget(40))),
					_ => None,
				})
				.collect();
			let mut want: Vec<String> =
				v.iter().enumerate().map(|(i, v)| v.as_ref().map(|v| hex(&topic(&kinds[i], v))).unwrap_or_default()).collect();
			if e.anonymous {
				want.push(String::new());
			} else {
				want.insert(0, hex(&signature_hash(&e.name, &e.tys())));
			}
			let t: Vec<Option<Token>> = v.iter().map(|v| v.as_ref().map(Val::to_sut)).collect();
			op("filter", format!("{:?} {:?}", e, v), format!("{:?}", want), move || {
				let one = |i: usize| t[i].clone().map(Topic::This).unwrap_or(Topic::Any);
				match k.events[&e.name][eat].filter(RawTopicFilter { topic0: one(0), topic1: one(1), topic2: one(2) }) {
					Err(_) => "error".into(),
					Ok(f) => format!(
						"{:?}",
						[&f.topic0, &f.topic1, &f.topic2, &f.topic3]
							.iter()
							.map(|t| match t {
								Topic::This(h) => hex(&h.0),
								Topic::Any => String::new(),
								Topic::OneOf(_) => "?".into(),
							})
							.collect::<Vec<_>>()
					),
				}
			})
		}
		10 => {
			let t = ty(r, 2, SOLIDITY);
			let s = if r.bool() { mutate_name(r, &t.name()) } else { t.name() };
			let want = match recognise(&s) {
				Verdict::Type(t) => t.name(),
				Verdict::Malformed => "error".into(),
				Verdict::Open => return None,
			};
			op("type name", s.clone(), want, move || match Reader::read(&s) {
				Ok(p) => Writer::write(&p),
				Err(_) => "error".into(),
			})
		}
		11 => {
			let t = ty(r, 2, SOLIDITY);
			let lenient = r.bool();
			let mut v = val(r, &t, 2, &mut Budget(30));
			tidy_strings(r, &mut v);
			let mut s = render(r, &v, lenient);
			if r.chance(1, 3) {
				s = mutate_text(r, &s);
			}
			let want = match parse_text(&t, &s, lenient) {
				Parsed::Val(v) => format!("{:?}", v),
				Parsed::Bad => "error".into(),
				Parsed::Open => return None,
			};
			let p = t.to_sut();
			op("text value", format!("{} {:?}", t.name(), s), want, move || {
				let got = if lenient { LenientTokenizer::tokenize(&p, &s) } else { StrictTokenizer::tokenize(&p, &s) };
				got.map(|t| format!("{:?}", Val::from_sut(&t))).unwrap_or_else(|_| "error".into())
			})
		}
		12 => {
			let (text, doc) = (w.text.clone(), w.doc.clone());
			let cutoff = r.chance(1, 4);
			let text = if cutoff {
				let mut at = text.trim_end().len() - 1;
				if r.bool() {
					at = r.range(0, at);
				}
				while !text.is_char_boundary(at) {
					at -= 1;
				}
				text[..at].to_string()
			} else {
				text
			};
			op("load", text.clone(), if cutoff { "error" } else { "same" }.into(), move || match Contract::load(text.as_bytes()) {
				Err(_) => "error".into(),
				Ok(c) => match compare(&c, &doc) {
					Ok(()) => "same".into(),
					Err(e) => e,
				},
			})
		}
		13 => {
			let doc = w.doc.clone();
			op("store and load", String::new(), "same".into(), move || {
				let s = serde_json::to_string(&*k).unwrap_or_default();
				match Contract::load(s.as_bytes()) {
					Err(e) => e.to_string(),
					Ok(c) => compare(&c, &doc).err().unwrap_or_else(|| "same".into()),
				}
			})
		}
		14 => {
			let n = r.pick(&w.names).to_string();
			let want = format!(
				"{:?} {:?} {} {}",
				fs.iter().filter(|f| f.raw == n).map(|f| names(&tys_of(&f.inputs))).collect::<Vec<_>>(),
				w.evs.iter().filter(|x| x.name == n).map(|x| names(&x.tys())).collect::<Vec<_>>(),
				fs.len(),
				w.evs.len()
			);
			op("lookups", n.clone(), want, move || {
				let f = k.functions_by_name(&n).map(|l| l.iter().map(|f| list(f.inputs.iter().map(|p| &p.kind))).collect::<Vec<_>>());
				let e = k.events_by_name(&n).map(|l| l.iter().map(|f| list(f.inputs.iter().map(|p| &p.kind))).collect::<Vec<_>>());
				format!("{:?} {:?} {} {}", f.unwrap_or_default(), e.unwrap_or_default(), k.functions().count(), k.events().count())
			})
		}
		15 => {
			let t = ty(r, 2, SOLIDITY);
			let mut v = val(r, &t, 2, &mut Budget(30));
			if r.bool() {
				break_val(r, &mut v);
			}
			let (p, tok) = (t.to_sut(), v.to_sut());
			let want = format!("{} {}", conforms(&v, &t), v.print());
			op("type check and print", format!("{} {:?}", t.name(), v), want, move || format!("{} {}", tok.type_check(&p), tok))
		}
		16 => {
			// one object, changed in place between the calls
			let steps: Vec<(String, Vec<Ty>, Vec<Val>)> = (0..r.range(2, 5))
				.map(|_| {
					let ts = few_types(r);
					let vs = vals(r, &ts, 1);
					(r.pick(&w.names).to_string(), ts, vs)
				})
				.collect();
			let want: Vec<String> =
				steps.iter().map(|(n, ts, vs)| format!("{} {}", fn_text(n, ts, &[]), call_data(n, ts, vs))).collect();
			op("changed in place", format!("{:?}", steps), format!("{:?}", want), move || {
				let mut f = function("", &[], &[]);
				let mut got = vec![];
				for (n, ts, vs) in &steps {
					f.name.clear();
					f.name.push_str(n);
					f.inputs.truncate(ts.len());
					for (i, t) in ts.iter().enumerate() {
						match f.inputs.get_mut(i) {
							Some(p) => p.kind = t.to_sut(),
							None => f.inputs.push(Param { name: "p".into(), kind: t.to_sut(), internal_type: None }),
						}
					}
					got.push(format!("{} {}", f.signature(), bytes_or_err(f.encode_input(&to_sut_vals(vs)))));
				}
				format!("{:?}", got)
			})
		}
		_ => {
			// new objects in the place of old ones
			let steps: Vec<(String, Vec<Ty>)> = (0..r.range(2, 6)).map(|_| (r.pick(&w.names).to_string(), few_types(r))).collect();
			let want: Vec<String> = steps.iter().map(|(n, ts)| hex(&signature_hash(n, ts))).collect();
			op("objects at reused addresses", format!("{:?}", steps), format!("{:?}", want), move || {
				let got: Vec<String> = steps
					.iter()
					.map(|(n, ts)| {
						let e = Box::new(
							Ev { name: n.clone(), params: ts.iter().map(|t| (String::new(), t.clone(), false)).collect(), anonymous: false }.to_sut(),
						);
						hex(&e.signature().0)
					})
					.collect();
				format!("{:?}", got)
			})
		}
	})
}

/// Changes one leaf and keeps the shape: the same lengths everywhere.
pub fn tweak(r: &mut Rng, v: &mut Val) {
	match v {
		Val::Arr(vs) | Val::FArr(vs) | Val::Tup(vs) => {
			if !vs.is_empty() {
				let i = match r.below(4) {
					0 => 0,
					1 => vs.len() - 1,
					_ => r.below(vs.len()),
				};
				tweak(r, &mut vs[i])
			}
		}
		Val::Address(a) => a[r.below(20)] ^= 1 << r.below(8),
		Val::Int(w) | Val::Uint(w) => w[r.below(32)] ^= 1 << r.below(8),
		Val::Bytes(b) | Val::FBytes(b) => {
			if !b.is_empty() {
				let i = r.below(b.len());
				b[i] ^= 1 << r.below(8)
			}
		}
		Val::Bool(b) => *b = !*b,
		Val::Str(s) => {
			let i = r.below(s.chars().count().max(1));
			*s = s.chars().enumerate().map(|(k, c)| if k == i && c.is_ascii() { if c == 'x' { 'y' } else { 'x' } } else { c }).collect()
		}
	}
}

/// Another type of the same shape.
fn tweak_ty(r: &mut Rng, t: &mut Ty) {
	match t {
		Ty::Arr(t) => tweak_ty(r, t),
		Ty::FArr(t, n) => {
			if r.chance(1, 4) {
				*n = 1 + *n % 4
			} else {
				tweak_ty(r, t)
			}
		}
		Ty::Tup(ts) => {
			if !ts.is_empty() {
				let i = r.below(ts.len());
				tweak_ty(r, &mut ts[i])
			}
		}
		t => {
			*t = if t.is_dynamic() {
				r.pick(&[Ty::Bytes, Ty::Str]).clone()
			} else {
				r.pick(&[Ty::Uint(256), Ty::Int(256), Ty::FBytes(32), Ty::Address, Ty::Uint(8), Ty::Int(8), Ty::FBytes(4), Ty::Bool]).clone()
			}
		}
	}
}

/// The same types in other groups.
fn regroup(r: &mut Rng, ts: &mut Vec<Ty>) {
	if ts.is_empty() {
		return;
	}
	let at = r.below(ts.len());
	match ts[at].clone() {
		Ty::Tup(ms) if !ms.is_empty() && r.bool() => {
			ts.splice(at..=at, ms);
		}
		Ty::FArr(t, n) if n > 0 && n < 8 && r.bool() => {
			let ms = vec![*t; n];
			if r.bool() {
				ts[at] = Ty::Tup(ms)
			} else {
				ts.splice(at..=at, ms);
			}
		}
		Ty::Tup(ms) if !ms.is_empty() && ms.iter().all(|t| *t == ms[0]) => ts[at] = Ty::FArr(Box::new(ms[0].clone()), ms.len()),
		Ty::Arr(t) if r.bool() => ts[at] = Ty::FArr(t, 1),
		_ => {
			let end = r.range(at + 1, ts.len());
			let ms: Vec<Ty> = ts.drain(at..end).collect();
			ts.insert(at, Ty::Tup(ms))
		}
	}
}

/// Values of other types that print alike or hold the same bytes.
fn disguise(r: &mut Rng, ts: &mut Vec<Ty>, vs: &mut Vec<Val>) {
	if ts.is_empty() {
		return;
	}
	let at = r.below(ts.len());
	let (t, v) = match (ts[at].clone(), vs[at].clone()) {
		(_, Val::Uint(w)) => r.pick(&[(Ty::Int(256), Val::Int(w)), (Ty::FBytes(32), Val::FBytes(w.to_vec())), (Ty::Str, Val::Str(Val::Uint(w).print()))]).clone(),
		(_, Val::Int(w)) => (Ty::Uint(256), Val::Uint(w)),
		(_, Val::Bool(b)) => r.pick(&[(Ty::Str, Val::Str(b.to_string())), (Ty::Uint(8), Val::Uint(word(b as usize)))]).clone(),
		(_, Val::Address(a)) => r.pick(&[(Ty::FBytes(20), Val::FBytes(a.to_vec())), (Ty::Bytes, Val::Bytes(a.to_vec()))]).clone(),
		(_, Val::FBytes(b)) => (Ty::Bytes, Val::Bytes(b)),
		(_, Val::Bytes(b)) => {
			let next = (at + 1..ts.len()).find(|i| matches!(vs[*i], Val::Bytes(_)));
			match (next, String::from_utf8(b.clone())) {
				(Some(i), _) if !b.is_empty() => {
					// the next value takes over the end of this one
					let cut = r.below(b.len());
					if let Val::Bytes(n) = &mut vs[i] {
						n.splice(0..0, b[cut..].iter().copied());
					}
					(Ty::Bytes, Val::Bytes(b[..cut].to_vec()))
				}
				(_, Ok(s)) => (Ty::Str, Val::Str(s)),
				_ => (Ty::Str, Val::Str(hex(&b))),
			}
		}
		(_, Val::Str(s)) => (Ty::Bytes, Val::Bytes(s.into_bytes())),
		(Ty::Arr(t), Val::Arr(ms)) if !ms.is_empty() => (Ty::FArr(t, ms.len()), Val::FArr(ms)),
		(Ty::FArr(t, n), Val::FArr(ms)) => {
			if r.bool() {
				(Ty::Arr(t), Val::Arr(ms))
			} else {
				(Ty::Tup(vec![*t; n]), Val::Tup(ms))
			}
		}
		(Ty::Tup(ms), Val::Tup(ns)) => {
			ts.splice(at..=at, ms);
			vs.splice(at..=at, ns);
			return;
		}
		_ => return,
	};
	ts[at] = t;
	vs[at] = v;
}

/// Calls that differ in one detail of their arguments only, so that anything remembered from one
/// under too coarse a key shows in another.
fn family(r: &mut Rng, w: &World) -> Vec<Op> {
	let fs = functions(&w.doc);
	let fi = r.below(fs.len());
	let m = fs[fi].clone();
	let name = m.raw.clone();
	let at = fs[..fi].iter().filter(|f| f.raw == name).count();
	let n = r.range(2, 4);
	let max = *r.pick(&[1, 3, 12, 12, 70]);
	let mut ops = vec![];
	match r.below(17) {
		0 | 1 => {
			let mut ts = few_types(r);
			if r.bool() {
				ts.push(Ty::Arr(Box::new(leaf(r))));
			}
			let mut vs = vals(r, &ts, max);
			for _ in 0..n {
				let tokens = to_sut_vals(&vs);
				ops.push(op("encode, one detail changed", format!("({}) {:?}", names(&ts), vs), hex(&encode(&ts, &vs)), move || hex(&ethabi::encode(&tokens))));
				if let Some(i) = vs.len().checked_sub(1) {
					let i = r.range(0, i);
					tweak(r, &mut vs[i]);
				}
			}
		}
		2 => {
			let ts = tys_of(&m.inputs);
			let mut vs = vals(r, &ts, max);
			for _ in 0..n {
				let (tokens, k, name) = (to_sut_vals(&vs), w.contract.clone(), name.clone());
				let want = call_data(&name, &ts, &vs);
				ops.push(op("encode_input, one detail changed", format!("{}({})#{} {:?}", name, names(&ts), at, vs), want, move || {
					bytes_or_err(k.functions[&name][at].encode_input(&tokens))
				}));
				if let Some(i) = vs.len().checked_sub(1) {
					let i = r.range(0, i);
					tweak(r, &mut vs[i]);
				}
			}
		}
		3 => {
			// the same types, other data
			let ts = few_types(r);
			let mut data = encode(&ts, &vals(r, &ts, max));
			for _ in 0..n {
				let want = match decode(&ts, &data) {
					Decoded::Ok(v) => format!("{:?}", v),
					Decoded::Err(_) => "error".into(),
					Decoded::Fuel => return ops,
				};
				let (ps, d) = (to_sut_tys(&ts), data.clone());
				ops.push(op("decode, one detail changed", format!("({}) {}", names(&ts), hex(&d)), want, move || vals_or_err(ethabi::decode(&ps, &d))));
				if !data.is_empty() {
					let i = r.below(data.len());
					data[i] ^= 1 << r.below(8);
				}
			}
		}
		4 => {
			// the same data, other types
			let mut ts = few_types(r);
			let data = encode(&ts, &vals(r, &ts, max));
			for _ in 0..n {
				let want = match decode(&ts, &data) {
					Decoded::Ok(v) => format!("{:?}", v),
					Decoded::Err(_) => "error".into(),
					Decoded::Fuel => return ops,
				};
				let (ps, d) = (to_sut_tys(&ts), data.clone());
				ops.push(op("decode, one type changed", format!("({}) {}", names(&ts), hex(&d)), want, move || vals_or_err(ethabi::decode(&ps, &d))));
				if let Some(i) = ts.len().checked_sub(1) {
					let i = r.range(0, i);
					tweak_ty(r, &mut ts[i]);
				}
			}
		}
		5 => {
			let mut e = p_event::event(r);
			e.params.truncate(4);
			for _ in 0..n {
				let want = hex(&signature_hash(&e.name, &e.tys()));
				let x = e.to_sut();
				ops.push(op("event signature, one detail changed", format!("{:?}", e), want, move || hex(&x.signature().0)));
				match r.below(3) {
					0 => {
						let mut b = e.name.clone().into_bytes();
						if let Some(l) = b.last_mut() {
							*l = if *l == b'x' { b'y' } else { b'x' };
						}
						e.name = String::from_utf8_lossy(&b).into();
					}
					_ => {
						if let Some(i) = e.params.len().checked_sub(1) {
							let i = r.range(0, i);
							tweak_ty(r, &mut e.params[i].1);
						}
					}
				}
			}
		}
		6 => {
			// the same text, other types
			let lenient = r.bool();
			let mut t = ty(r, 2, SOLIDITY);
			let mut v = val(r, &t, 3, &mut Budget(30));
			tidy_strings(r, &mut v);
			let s = render(r, &v, lenient);
			for _ in 0..n {
				let want = match parse_text(&t, &s, lenient) {
					Parsed::Val(v) => format!("{:?}", v),
					Parsed::Bad => "error".into(),
					Parsed::Open => return ops,
				};
				let (p, s) = (t.to_sut(), s.clone());
				ops.push(op("text value, one type changed", format!("{} {:?}", t.name(), s), want, move || {
					let got = if lenient { LenientTokenizer::tokenize(&p, &s) } else { StrictTokenizer::tokenize(&p, &s) };
					got.map(|t| format!("{:?}", Val::from_sut(&t))).unwrap_or_else(|_| "error".into())
				}));
				tweak_ty(r, &mut t);
			}
		}
		7 => {
			let mut t = ty(r, 2, SOLIDITY);
			for _ in 0..n {
				let s = t.name();
				let p = t.to_sut();
				ops.push(op("type name, one detail changed", s.clone(), s.clone(), move || match Reader::read(&s) {
					Ok(q) if q == p => Writer::write(&q),
					Ok(q) => format!("{:?}", q),
					Err(_) => "error".into(),
				}));
				tweak_ty(r, &mut t);
			}
		}
		8 => {
			// one log, or logs alike, and events alike: other names, another name or type of a parameter
			let mut e = r.pick(&w.evs).clone();
			let vs = vals(r, &e.tys(), max.min(12));
			let (mut topics, mut data) = emit(&e, &vs);
			for _ in 0..n {
				let want = match p_event::parse(&e, &topics, &data) {
					Ok(ps) => format!("{:?}", ps),
					Err(Some(_)) => "error".into(),
					Err(None) => return ops,
				};
				let (x, log) = (e.to_sut(), raw_log(&topics, &data));
				ops.push(op("parse_log, one detail changed", format!("{:?} {:?} {}", e, topics, hex(&data)), want, move || {
					match x.parse_log(log.clone()) {
						Ok(l) => format!("{:?}", l.params.iter().map(|p| (p.name.clone(), Val::from_sut(&p.value))).collect::<Vec<_>>()),
						Err(_) => "error".into(),
					}
				}));
				let at = r.below(e.params.len().max(1));
				match r.below(6) {
					0 | 1 if !e.params.is_empty() => tweak_name(r, &mut e.params[at].0),
					2 if !e.params.is_empty() => e.params[at].2 = !e.params[at].2,
					3 if !topics.is_empty() => {
						let t = r.below(topics.len());
						topics[t][r.below(32)] ^= 1 << r.below(8)
					}
					4 if !data.is_empty() => {
						let i = r.below(data.len());
						data[i] ^= 1 << r.below(8)
					}
					_ => {
						// the log of another value
						let mut vs = vs.clone();
						if let Some(i) = vs.len().checked_sub(1) {
							let i = r.range(0, i);
							tweak(r, &mut vs[i]);
						}
						if conform_all(&vs, &e.tys()) && e.indexed().len() + usize::from(!e.anonymous) <= 4 {
							let l = emit(&e, &vs);
							topics = l.0;
							data = l.1;
						}
					}
				}
			}
		}
		9 => {
			// functions alike in all but one detail
			let (mut name, mut ins, mut outs) = (name, tys_of(&m.inputs), tys_of(&m.outputs));
			for _ in 0..n {
				let vs = vals(r, &ins, 1);
				let (f, tokens) = (function(&name, &ins, &outs), to_sut_vals(&vs));
				let text = fn_text(&name, &ins, &outs);
				let want = format!("{} {}", text, call_data(&name, &ins, &vs));
				ops.push(op("function, one detail changed", text, want, move || {
					format!("{} {}", f.signature(), bytes_or_err(f.encode_input(&tokens)))
				}));
				let list = if r.bool() { &mut ins } else { &mut outs };
				match list.len().checked_sub(1) {
					Some(k) if r.bool() => {
						let k = r.range(0, k);
						tweak_ty(r, &mut list[k])
					}
					_ => tweak_name(r, &mut name),
				}
			}
		}
		10 => {
			// one type, values alike; one value, types alike
			let mut t = ty(r, 2, SOLIDITY);
			let mut v = val(r, &t, max, &mut Budget(200));
			for _ in 0..n {
				let (p, tok) = (t.to_sut(), v.to_sut());
				let want = format!("{} {} {}", conforms(&v, &t), v.print(), t.name());
				ops.push(op("type check and print, one detail changed", format!("{} {:?}", t.name(), v), want, move || {
					format!("{} {} {}", tok.type_check(&p), tok, p)
				}));
				if r.bool() {
					tweak(r, &mut v);
				} else {
					tweak_ty(r, &mut t);
				}
			}
		}
		11 => {
			// one type, texts alike
			let lenient = r.bool();
			let t = ty(r, 2, SOLIDITY);
			let mut v = val(r, &t, 3, &mut Budget(30));
			tidy_strings(r, &mut v);
			let mut s = render(r, &v, lenient);
			for _ in 0..n {
				let want = match parse_text(&t, &s, lenient) {
					Parsed::Val(v) => format!("{:?}", v),
					Parsed::Bad => "error".into(),
					Parsed::Open => return ops,
				};
				let (p, s2) = (t.to_sut(), s.clone());
				ops.push(op("text value, one detail changed", format!("{} {:?}", t.name(), s), want, move || {
					let got = if lenient { LenientTokenizer::tokenize(&p, &s2) } else { StrictTokenizer::tokenize(&p, &s2) };
					got.map(|t| format!("{:?}", Val::from_sut(&t))).unwrap_or_else(|_| "error".into())
				}));
				let mut c: Vec<char> = s.chars().collect();
				if !c.is_empty() {
					let at = r.below(c.len());
					c[at] = *r.pick(&['0', '1', 'a', '2', ',', ']']);
				}
				s = c.into_iter().collect();
			}
		}
		12 | 13 => {
			// the same text run together, divided otherwise between the name and the lists
			let (mut name, mut ins, mut outs) = (name, tys_of(&m.inputs), tys_of(&m.outputs));
			ins.truncate(3);
			outs.truncate(2);
			let event = r.chance(1, 3);
			for _ in 0..n {
				if event {
					let e = Ev { name: name.clone(), anonymous: r.chance(1, 4), params: ins.iter().map(|t| (String::new(), t.clone(), r.bool())).collect() };
					let want = hex(&signature_hash(&name, &ins));
					let x = e.to_sut();
					ops.push(op("event signature, divided otherwise", format!("{:?}", e), want, move || hex(&x.signature().0)));
				} else {
					let vs = vals(r, &ins, 1);
					let (f, tokens) = (function(&name, &ins, &outs), to_sut_vals(&vs));
					let text = fn_text(&name, &ins, &outs);
					let want = format!("{} {}", text, call_data(&name, &ins, &vs));
					ops.push(op("function, divided otherwise", text, want, move || {
						format!("{} {}", f.signature(), bytes_or_err(f.encode_input(&tokens)))
					}));
				}
				match r.below(6) {
					0 | 1 if !ins.is_empty() => {
						let t = ins.remove(0);
						name += &t.name();
						if !ins.is_empty() && r.bool() {
							name.push(',');
						}
					}
					2 if !outs.is_empty() => ins.push(outs.remove(0)),
					3 if !ins.is_empty() => {
						let t = ins.pop().expect("not empty");
						outs.insert(0, t)
					}
					4 => regroup(r, &mut ins),
					_ => {
						// what stands at the end of the name becomes a type
						let end = [Ty::Bool, Ty::Bytes, Ty::Str, Ty::Address, Ty::Uint(256), Ty::FBytes(32)].iter().find(|t| name.ends_with(&t.name())).cloned();
						match end {
							Some(t) => {
								name.truncate(name.len() - t.name().len());
								ins.insert(0, t)
							}
							None => regroup(r, &mut ins),
						}
					}
				}
			}
		}
		14 => {
			// the same words, grouped otherwise
			let mut ts = few_types(r);
			let data = encode(&ts, &vals(r, &ts, max));
			for _ in 0..n {
				let want = match decode(&ts, &data) {
					Decoded::Ok(v) => format!("{:?}", v),
					Decoded::Err(_) => "error".into(),
					Decoded::Fuel => return ops,
				};
				let (ps, d) = (to_sut_tys(&ts), data.clone());
				ops.push(op("decode, grouped otherwise", format!("({}) {}", names(&ts), hex(&d)), want, move || vals_or_err(ethabi::decode(&ps, &d))));
				regroup(r, &mut ts);
			}
		}
		15 => {
			// values that print alike, or hold the same bytes divided otherwise
			let mut ts = few_types(r);
			ts.retain(|t| !t.has_zero_size());
			let mut vs = vals(r, &ts, max.min(12));
			for _ in 0..n {
				let tokens = to_sut_vals(&vs);
				let want = format!("{} {}", hex(&encode(&ts, &vs)), vs.iter().map(Val::print).collect::<Vec<_>>().join(" "));
				ops.push(op("encode and print, divided otherwise", format!("({}) {:?}", names(&ts), vs), want, move || {
					format!("{} {}", hex(&ethabi::encode(&tokens)), tokens.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(" "))
				}));
				disguise(r, &mut ts, &mut vs);
			}
		}
		_ => {
			// one document, one detail of it changed
			let mut doc = w.doc.clone();
			let st = style(r);
			for _ in 0..n {
				let j = doc_json(r, &doc, &st);
				let text = to_text(r, &j, &st);
				let d = doc.clone();
				ops.push(op("load, one detail changed", text.clone(), "same".into(), move || match Contract::load(text.as_bytes()) {
					Err(_) => "error".into(),
					Ok(c) => compare(&c, &d).err().unwrap_or_else(|| "same".into()),
				}));
				let i = r.below(doc.len());
				let (name, ps) = match &mut doc[i] {
					Entry::Fun(f) => (&mut f.raw, if r.bool() { &mut f.inputs } else { &mut f.outputs }),
					Entry::Ev(e) => {
						if r.chance(1, 6) {
							e.anonymous = !e.anonymous;
						}
						(&mut e.raw, &mut e.inputs)
					}
					_ => continue,
				};
				match ps.len().checked_sub(1) {
					Some(k) if r.chance(4, 5) => {
						let k = r.range(0, k);
						match r.below(3) {
							0 => tweak_name(r, &mut ps[k].name),
							_ => tweak_ty(r, &mut ps[k].ty),
						}
					}
					_ => tweak_name(r, name),
				}
			}
		}
	}
	ops
}

fn list<'a>(ks: impl Iterator<Item = &'a ethabi::ParamType>) -> String {
	ks.map(Writer::write).collect::<Vec<_>>().join(",")
}

fn wrong(o: &Op, got: &str, when: &str) -> String {
	format!(
		"{} gives another result {}\n  arguments {}\n  expected {}\n  got      {}",
		o.kind,
		when,
		clip(&o.about, 2500),
		clip(&o.want, 2000),
		clip(got, 2000)
	)
}

/// Calls in a random order, with repetitions, on one thread.
fn alone(c: &mut Ctx, r: &mut Rng, ops: &[Op], n: usize) -> Res {
	for i in 0..n {
		let o = r.pick(ops);
		let got = sut(o.kind, || (o.call)()).map_err(|e| format!("{}\n  arguments {}", e, clip(&o.about, 2500)))?;
		c.obs(&format!("alone: {}", o.kind));
		ensure!(got == o.want, "{}", wrong(o, &got, &format!("after {} other calls", i)));
	}
	Ok(())
}

/// The same calls from several threads at once, with delays between them.
fn together(c: &mut Ctx, r: &mut Rng, ops: &[Op], threads: usize, per_thread: usize) -> Res {
	let gate = Barrier::new(threads);
	let clock = AtomicU64::new(0);
	let inside = AtomicUsize::new(0);
	let overlapping = AtomicU64::new(0);
	let bad: Mutex<Option<String>> = Mutex::new(None);
	let order: Vec<AtomicUsize> = (0..threads * per_thread).map(|_| AtomicUsize::new(usize::MAX)).collect();
	let same = r.chance(1, 4); // all threads go through the same calls in step
	let plans: Vec<Vec<(usize, u32)>> = {
		let mut q = r.clone();
		(0..threads)
			.map(|_| {
				if same {
					q = r.clone();
				}
				(0..per_thread).map(|_| (q.below(ops.len()), [0, 0, 0, 1, 20, 300][q.below(6)])).collect()
			})
			.collect()
	};
	concurrent_section(true);
	std::thread::scope(|s| {
		for (id, plan) in plans.iter().enumerate() {
			let (gate, clock, inside, overlapping, bad, order) = (&gate, &clock, &inside, &overlapping, &bad, &order);
			std::thread::Builder::new()
				.stack_size(8 << 20)
				.spawn_scoped(s, move || {
					gate.wait();
					for (i, delay) in plan {
						let o = &ops[*i];
						order[clock.fetch_add(1, Ordering::Relaxed) as usize].store(id * 1000 + i, Ordering::Relaxed);
						if inside.fetch_add(1, Ordering::Relaxed) > 0 {
							overlapping.fetch_add(1, Ordering::Relaxed);
						}
						let got = sut_quiet(o.kind, || (o.call)());
						inside.fetch_sub(1, Ordering::Relaxed);
						let fault = match got {
							Err(e) => Some(format!("{}\n  arguments {}", e, clip(&o.about, 2500))),
							Ok(g) if g != o.want => Some(wrong(o, &g, "while other threads call")),
							_ => None,
						};
						if let Some(f) = fault {
							bad.lock().unwrap().get_or_insert(f);
							return;
						}
						match delay {
							0 => {}
							1 => std::thread::yield_now(),
							n => (0..*n).for_each(|_| std::hint::spin_loop()),
						}
					}
				})
				.expect("harness: thread");
		}
	});
	concurrent_section(false);
	if let Some(e) = bad.into_inner().unwrap() {
		return Err(e);
	}
	for p in plans.iter().flatten() {
		c.obs(&format!("together: {}", ops[p.0].kind));
	}
	let n = overlapping.load(Ordering::Relaxed);
	c.cov.buckets.entry("calls begun while another was in progress".into()).and_modify(|x| *x += n).or_insert(n);
	let o: Vec<u8> = order.iter().flat_map(|x| (x.load(Ordering::Relaxed) as u32).to_le_bytes()).collect();
	let f = hash_bytes(&o).to_le_bytes();
	c.nontrivial(&[&c.idx.to_le_bytes()[..], &f[..]].concat());
	c.count("concurrent histories");
	Ok(())
}

pub fn history(c: &mut Ctx, small: bool) -> Res {
	let mut rng = c.rng.clone();
	let r = &mut rng;
	let w = world(r);
	let target = if small { 8 } else { r.range(12, 40) };
	let mut ops = vec![];
	while ops.len() < target {
		if !small && r.chance(1, 4) {
			ops.extend(family(r, &w));
		} else if let Some(o) = make_op(r, &w) {
			ops.push(o);
		}
	}
	let threads = if small { 3 } else { r.range(2, 8) };
	let (n, m) = if small { (10, 6) } else { (120, 40) };
	// at times concurrent from the very first call on
	if r.bool() {
		alone(c, r, &ops, n)?;
		together(c, r, &ops, threads, m)?;
	} else {
		together(c, r, &ops, threads, m)?;
		alone(c, r, &ops, n)?;
	}
	// a look at a shared contract leaves it as it was
	compare(&w.contract, &w.doc).map_err(|e| format!("the contract has changed: {}", e))?;
	ensure!(*w.contract == sut_contract(&w.doc), "the contract has changed");
	c.sample(|| format!("{} threads; {}", threads, ops.iter().take(6).map(|o| o.kind).collect::<Vec<_>>().join(", ")));
	Ok(())
}

pub fn c19(c: &mut Ctx) -> Res {
	if c.idx % 50 == 7 && !cfg!(miri) && std::env::var("MON_FRESH").is_err() {
		// in a new process: the first calls ever, at once
		let o = std::process::Command::new(std::env::current_exe().unwrap())
			.args(["fresh", &c.seed.to_string(), &c.idx.to_string()])
			.env("MON_FRESH", "1")
			.output()
			.expect("harness: fresh process");
		c.count("fresh processes");
		if o.status.code() != Some(0) {
			return Err(format!(
				"in a fresh process ({:?}): {}{}",
				o.status,
				clip(&String::from_utf8_lossy(&o.stdout), 4000),
				clip(&String::from_utf8_lossy(&o.stderr), 3000)
			));
		}
	}
	history(c, cfg!(miri))
}

/// One case in this process, concurrent calls first.
pub fn fresh(seed: u64, idx: u64) -> i32 {
	install_panic_hook();
	let mut c = Ctx::new("C19", seed, Tier::Quick, String::new());
	c.start(idx ^ 0x5eed_0000);
	let mut rng = c.rng.clone();
	let w = world(&mut rng);
	let mut ops = vec![];
	while ops.len() < 20 {
		if let Some(o) = make_op(&mut rng, &w) {
			ops.push(o);
		}
	}
	match together(&mut c, &mut rng, &ops, 8, 20) {
		Ok(()) => 0,
		Err(e) => {
			println!("{}", e);
			1
		}
	}
}
