//! C17: the command line tool, run as a process of its own for every case.

use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::mon::*;
use crate::p_call::fn_text;
use crate::p_event::{self, Ev};
use crate::p_json::*;
use crate::p_text::{mutate_text, parse_text, render, tidy_strings, Parsed};
use crate::p_types::{alias_name, mutate_name, recognise, Verdict};
use crate::rng::Rng;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};

/// What the command must do.
#[derive(Debug, Clone, PartialEq)]
enum Must {
	Print(String),
	/// error, for this reason
	Fail(&'static str),
	/// not specified: no panic, and either an error or this kind of success
	Either,
}

#[repr(C)]
struct Rlimit(u64, u64);
extern "C" {
	fn setrlimit(what: i32, to: *const Rlimit) -> i32;
	fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

fn run(args: &[String]) -> Result<(Option<i32>, Option<i32>, Vec<u8>, Vec<u8>), String> {
	let bin = std::env::var("MON_CLI").expect("harness: MON_CLI");
	let mut c = Command::new(bin);
	c.args(args).env_clear().env("RUST_BACKTRACE", "0").stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
	unsafe {
		c.pre_exec(|| {
			// 20 s of CPU time, 8 GB of memory, no longer than the worker
			setrlimit(0, &Rlimit(20, 25));
			setrlimit(9, &Rlimit(8 << 30, 8 << 30));
			setrlimit(4, &Rlimit(0, 0));
			prctl(1, 9, 0, 0, 0);
			Ok(())
		});
	}
	let o = c.output().expect("harness: cannot run the tool");
	Ok((o.status.code(), o.status.signal(), o.stdout, o.stderr))
}

/// Arguments that the argument parser itself would take for an option are left out.
fn passable(args: &[String]) -> bool {
	args.iter().all(|a| a.len() < 100_000 && !a.contains('\0')) && args.iter().map(|a| a.len()).sum::<usize>() < 1_000_000
}
fn positional(s: &str) -> bool {
	!s.starts_with('-')
}

fn small_ty(r: &mut Rng) -> Ty {
	let d = *r.pick(&[0, 0, 1, 1, 2, 3]);
	ty(r, d, SOLIDITY)
}

/// A type name, usually well-formed; what it means.
fn written_type(r: &mut Rng, t: &Ty) -> (String, Verdict) {
	let s = match r.below(14) {
		0 => mutate_name(r, &t.name()),
		1 | 2 => alias_name(r, t),
		_ => t.name(),
	};
	let v = recognise(&s);
	(s, v)
}

fn written_value(r: &mut Rng, t: &Ty, lenient: bool) -> String {
	let max = *r.pick(&[1, 2, 3, 12]);
	let mut v = val(r, t, max, &mut Budget(40));
	if t.depth() > 0 {
		tidy_strings(r, &mut v);
	}
	let style = if r.chance(1, 10) { !lenient } else { lenient };
	let s = render(r, &v, style);
	if r.chance(1, 9) {
		mutate_text(r, &s)
	} else {
		s
	}
}

fn values(ts: &[Ty], texts: &[String], lenient: bool) -> Result<Vec<Val>, Must> {
	let mut open = false;
	let mut out = vec![];
	for (t, s) in ts.iter().zip(texts) {
		match parse_text(t, s, lenient) {
			Parsed::Val(v) => out.push(v),
			Parsed::Bad => return Err(Must::Fail("value")),
			Parsed::Open => open = true,
		}
	}
	if open {
		Err(Must::Either)
	} else {
		Ok(out)
	}
}

fn lenient_flag(r: &mut Rng) -> String {
	r.pick(&["-l", "--lenient"]).to_string()
}

fn encode_params(r: &mut Rng) -> Option<(Vec<String>, Must)> {
	let lenient = r.bool();
	let n = *r.pick(&[0, 1, 1, 1, 2, 2, 3, 5]);
	let mut args: Vec<String> = vec!["encode".into(), "params".into()];
	let first = r.bool();
	if lenient && first {
		args.push(lenient_flag(r));
	}
	let (mut ts, mut texts) = (vec![], vec![]);
	let mut must = None;
	for _ in 0..n {
		let t = small_ty(r);
		let (name, v) = written_type(r, &t);
		let text = written_value(r, &t, lenient);
		// a type is never an option; a value may start with a minus sign if a digit follows
		if !positional(&name) || (text.starts_with('-') && !text[1..].starts_with(|c: char| c.is_ascii_digit())) {
			return None;
		}
		match v {
			Verdict::Type(t) if !t.has_zero_size() => ts.push(t),
			Verdict::Malformed => must = Some(Must::Fail("type")),
			_ => must = must.or(Some(Must::Either)),
		}
		args.extend(["-v".into(), name, text.clone()]);
		texts.push(text);
	}
	if lenient && !first {
		args.push(lenient_flag(r));
	}
	if r.chance(1, 40) && n > 0 && !(lenient && !first) {
		// a type without a value
		args.push("-v".into());
		args.push("bool".into());
		return Some((args, Must::Fail("value missing")));
	}
	let must = must.unwrap_or_else(|| match values(&ts, &texts, lenient) {
		Ok(vs) => Must::Print(hex(&encode(&ts, &vs))),
		Err(m) => m,
	});
	Some((args, must))
}

fn data_text(r: &mut Rng, ts: &[Ty]) -> (String, Option<Vec<u8>>) {
	let max = *r.pick(&[1, 2, 4]);
	let mut d = encode(ts, &vals(r, ts, max));
	if r.chance(1, 4) {
		mutate(r, &mut d);
	}
	hex_text(r, d)
}

/// The bytes as hex, sometimes spoilt.
fn hex_text(r: &mut Rng, d: Vec<u8>) -> (String, Option<Vec<u8>>) {
	let s = if r.chance(1, 4) { hex(&d).to_uppercase() } else { hex(&d) };
	let s = match r.below(24) {
		0 => {
			let at = r.below(s.len() + 1);
			let mut s = s;
			s.insert(at, *r.pick(&['0', 'f', 'g', ' ', 'x', 'é']));
			s
		}
		1 => {
			let n = s.len().saturating_sub(1);
			s[..n].to_string()
		}
		_ => s,
	};
	let b = unhex(&s);
	(s, b)
}

fn print_typed(ts: &[Ty], data: &[u8]) -> Must {
	match decode(ts, data) {
		Decoded::Fuel => Must::Either,
		Decoded::Err(_) => Must::Fail("data"),
		Decoded::Ok(vs) => Must::Print(ts.iter().zip(&vs).map(|(t, v)| format!("{} {}", t.name(), v.print())).collect::<Vec<_>>().join("\n")),
	}
}

fn decode_params(r: &mut Rng) -> Option<(Vec<String>, Must)> {
	let n = *r.pick(&[0, 1, 1, 1, 2, 2, 3, 5]);
	let mut args: Vec<String> = vec!["decode".into(), "params".into()];
	let mut ts = vec![];
	let mut must = None;
	let mut written = vec![];
	for _ in 0..n {
		let t = small_ty(r);
		let (name, v) = written_type(r, &t);
		if !positional(&name) {
			return None;
		}
		match v {
			Verdict::Type(t) if !t.has_zero_size() && t.weight() < 1 << 16 => ts.push(t),
			Verdict::Malformed => must = Some(Must::Fail("type")),
			_ => must = must.or(Some(Must::Either)),
		}
		written.push(name);
	}
	let (data, bytes) = data_text(r, &ts);
	if !positional(&data) {
		return None;
	}
	let data_first = r.chance(1, 4);
	if data_first {
		args.push(data.clone());
	}
	for w in written {
		args.extend(["-t".into(), w]);
	}
	if !data_first {
		args.push(data);
	}
	let must = must.unwrap_or_else(|| match bytes {
		None => Must::Fail("hex"),
		Some(b) => print_typed(&ts, &b),
	});
	Some((args, must))
}

/// The file, or something in its place that cannot be read as an ABI.
fn abi_file(r: &mut Rng, c: &Ctx, doc: &[Entry]) -> (String, bool) {
	let path = format!("{}/abi.json", c.scratch);
	let st = style(r);
	let j = doc_json(r, doc, &st);
	let mut text = to_text(r, &j, &st);
	let mut good = true;
	let mut at = path.clone();
	match r.below(60) {
		0 => {
			at = format!("{}/missing.json", c.scratch);
			good = false;
		}
		1 => {
			at = c.scratch.clone();
			good = false;
		}
		2 => {
			text.pop();
			good = false;
		}
		3 => {
			text.push(*r.pick(&['x', ']', '{', '"']));
			good = false;
		}
		4 => {
			text = r.pick(&["", "null", "{}", "[1]", "[{}]", "[{\"type\":\"function\"}]", "\"x\""]).to_string();
			good = false;
		}
		_ => {}
	}
	std::fs::write(&path, text).expect("harness: scratch file");
	(at, good)
}

fn small_doc(r: &mut Rng) -> Vec<Entry> {
	let mut doc = document(r);
	doc.truncate(7);
	doc
}

/// Something near a name or signature.
fn near(r: &mut Rng, s: &str) -> String {
	match r.below(7) {
		0 => s.replace("uint256", "uint"),
		1 => format!("{}()", s),
		2 => s.to_uppercase(),
		3 => {
			let mut ch: Vec<char> = s.chars().collect();
			ch.pop();
			ch.into_iter().collect()
		}
		4 => s.split(':').next().unwrap().to_string(),
		5 => s.replace(':', ""),
		_ => mutate_text(r, s),
	}
}

fn tys_of(ps: &[MParam]) -> Vec<Ty> {
	ps.iter().map(|p| p.ty.clone()).collect()
}

/// The function an argument means.
fn find_function<'a>(doc: &'a [Entry], arg: &str) -> Result<&'a MFn, &'static str> {
	let fs = functions(doc);
	match arg.find('(') {
		Some(at) => fs
			.into_iter()
			.find(|f| cut(&f.raw) == &arg[..at] && fn_text(cut(&f.raw), &tys_of(&f.inputs), &tys_of(&f.outputs)) == arg)
			.ok_or("unknown signature"),
		None => {
			let mut l = fs.into_iter().filter(|f| cut(&f.raw) == arg);
			match (l.next(), l.next()) {
				(Some(f), None) => Ok(f),
				(None, _) => Err("unknown name"),
				_ => Err("ambiguous name"),
			}
		}
	}
}

fn function_arg(r: &mut Rng, doc: &[Entry]) -> Option<String> {
	let fs = functions(doc);
	let s = if fs.is_empty() || r.chance(1, 40) {
		ident(r)
	} else {
		let f = *r.pick(&fs);
		if r.chance(2, 3) {
			fn_text(cut(&f.raw), &tys_of(&f.inputs), &tys_of(&f.outputs))
		} else {
			cut(&f.raw).to_string()
		}
	};
	let s = if r.chance(1, 8) { near(r, &s) } else { s };
	Some(s).filter(|s| positional(s))
}

fn odd(ts: &[Ty]) -> bool {
	ts.iter().any(|t| t.has_zero_size() || t.weight() > 1 << 16)
}

fn encode_function(r: &mut Rng, c: &Ctx) -> Option<(Vec<String>, Must)> {
	let doc = small_doc(r);
	let arg = function_arg(r, &doc)?;
	let (path, good) = abi_file(r, c, &doc);
	let lenient = r.bool();
	let mut args: Vec<String> = vec!["encode".into(), "function".into()];
	let first = r.bool();
	if lenient && first {
		args.push(lenient_flag(r));
	}
	args.extend([path, arg.clone()]);
	let found = find_function(&doc, &arg);
	let ts = found.as_ref().map(|f| tys_of(&f.inputs)).unwrap_or_default();
	if odd(&ts) {
		return None;
	}
	let mut texts: Vec<String> = ts.iter().map(|t| written_value(r, t, lenient)).collect();
	match r.below(16) {
		0 => {
			texts.pop();
		}
		1 => texts.push(r.pick(&["1", "true", "", "00"]).to_string()),
		_ => {}
	}
	for t in &texts {
		if t.starts_with('-') {
			args.push(format!("-p={}", t));
		} else {
			args.extend(["-p".into(), t.clone()]);
		}
	}
	if lenient && !first {
		args.push(lenient_flag(r));
	}
	let must = if !good {
		Must::Fail("file")
	} else {
		match found {
			Err(why) => Must::Fail(why),
			Ok(_) if texts.len() != ts.len() => Must::Fail("number of params"),
			Ok(f) => match values(&ts, &texts, lenient) {
				Err(m) => m,
				Ok(vs) => {
					let mut d = signature_hash(cut(&f.raw), &ts)[..4].to_vec();
					d.extend(encode(&ts, &vs));
					Must::Print(hex(&d))
				}
			},
		}
	};
	Some((args, must))
}

fn decode_function(r: &mut Rng, c: &Ctx) -> Option<(Vec<String>, Must)> {
	let doc = small_doc(r);
	let arg = function_arg(r, &doc)?;
	let (path, good) = abi_file(r, c, &doc);
	let found = find_function(&doc, &arg);
	let ts = found.as_ref().map(|f| tys_of(&f.outputs)).unwrap_or_default();
	if odd(&ts) {
		return None;
	}
	let (data, bytes) = data_text(r, &ts);
	if !positional(&data) {
		return None;
	}
	let must = match (good, found, bytes) {
		(false, ..) => Must::Fail("file"),
		(_, Err(why), _) => Must::Fail(why),
		(_, _, None) => Must::Fail("hex"),
		(_, Ok(_), Some(b)) => print_typed(&ts, &b),
	};
	Some((vec!["decode".into(), "function".into(), path, arg, data], must))
}

fn decode_log(r: &mut Rng, c: &Ctx) -> Option<(Vec<String>, Must)> {
	let mut evs: Vec<Ev> = vec![];
	for _ in 0..r.range(1, 3) {
		let mut e = p_event::event(r);
		e.name = ident(r);
		if !evs.is_empty() && r.bool() {
			e.name = evs[0].name.clone();
		}
		evs.push(e);
	}
	let mut doc: Vec<Entry> = small_doc(r).into_iter().filter(|e| !matches!(e, Entry::Ev(_))).collect();
	for e in &evs {
		doc.push(Entry::Ev(MEv {
			raw: e.name.clone(),
			inputs: e.params.iter().map(|(n, t, i)| MParam { name: n.clone(), ty: t.clone(), internal: None, indexed: *i }).collect(),
			anonymous: e.anonymous,
		}));
	}
	let text = |e: &Ev| format!("{}({})", e.name, names(&e.tys()));
	let e = r.pick(&evs).clone();
	let mut arg = if r.chance(2, 3) { text(&e) } else { e.name.clone() };
	let mut spaced = false;
	if r.chance(1, 8) && arg.contains('(') {
		arg = arg.replace(',', ", ").replace('(', "( ");
		spaced = true;
	}
	if r.chance(1, 9) {
		arg = near(r, &arg);
		if spaced {
			return None;
		}
	}
	if !positional(&arg) || (arg.contains(' ') && !spaced) {
		return None;
	}
	let found = match arg.find('(') {
		Some(at) => evs.iter().find(|e| e.name == arg[..at] && text(e) == arg.replace(' ', "")).ok_or("unknown signature"),
		None => {
			let mut l = evs.iter().filter(|e| e.name == arg);
			match (l.next(), l.next()) {
				(Some(e), None) => Ok(e),
				(None, _) => Err("unknown name"),
				_ => Err("ambiguous name"),
			}
		}
	};
	let (path, good) = abi_file(r, c, &doc);
	let src = found.unwrap_or(&e).clone();
	let tys = src.tys();
	let vs = vals(r, &tys, 2);
	let (mut topics, mut data) = p_event::emit(&src, &vs);
	match r.below(12) {
		0 => {
			topics.pop();
		}
		1 => topics.push([7; 32]),
		2 if !topics.is_empty() => {
			let i = r.below(topics.len());
			topics[i][r.below(32)] ^= 1 << r.below(8);
		}
		3 => mutate(r, &mut data),
		_ => {}
	}
	let mut args: Vec<String> = vec!["decode".into(), "log".into(), path, arg];
	let mut bad_topic = false;
	let mut words = vec![];
	for t in &topics {
		let mut s = hex(t);
		match r.below(50) {
			0 => {
				s.pop();
			}
			1 => s.push_str("00"),
			2 => s = format!("{}g", &s[1..]),
			3 => s.clear(),
			4 => s = s.to_uppercase(),
			_ => {}
		}
		match unhex(&s) {
			Some(b) if b.len() == 32 => words.push(*t),
			_ => bad_topic = true,
		}
		args.extend(["-l".into(), s]);
	}
	let (d, bytes) = hex_text(r, data);
	if !positional(&d) {
		return None;
	}
	args.push(d);
	let must = match (good, found, bytes) {
		(false, ..) => Must::Fail("file"),
		(_, Err(why), _) => Must::Fail(why),
		_ if bad_topic => Must::Fail("topic"),
		(_, _, None) => Must::Fail("hex"),
		(_, Ok(e), Some(b)) => match p_event::parse(e, &words, &b) {
			Err(Some(_)) => Must::Fail("log"),
			Err(None) => Must::Either,
			Ok(ps) => Must::Print(ps.iter().map(|(n, v)| format!("{} {}", n, v.print())).collect::<Vec<_>>().join("\n")),
		},
	};
	Some((args, must))
}

pub fn c17(c: &mut Ctx) -> Res {
	let mut rng = c.rng.clone();
	let r = &mut rng;
	let kind = *r.pick(&["encode params", "encode function", "decode params", "decode function", "decode log"]);
	let made = match kind {
		"encode params" => encode_params(r),
		"encode function" => encode_function(r, c),
		"decode params" => decode_params(r),
		"decode function" => decode_function(r, c),
		_ => decode_log(r, c),
	};
	let (args, must) = match made {
		Some(m) if passable(&m.0) => m,
		_ => {
			c.count("skipped: arguments of another meaning to the argument parser");
			return Ok(());
		}
	};
	let (code, signal, out, err) = run(&args)?;
	let outs = String::from_utf8_lossy(&out);
	let errs = String::from_utf8_lossy(&err);
	let shown = || {
		let file = args.iter().any(|a| a.ends_with("abi.json"));
		format!(
			"\n  command ethabi {}\n  exit {:?} signal {:?}\n  stdout {:?}\n  stderr {:?}{}",
			clip(&args.iter().map(|a| format!("{:?}", a)).collect::<Vec<_>>().join(" "), 3000),
			code,
			signal,
			clip(&outs, 1500),
			clip(&errs, 600),
			if file { format!("\n  file {}", clip(&std::fs::read_to_string(format!("{}/abi.json", c.scratch)).unwrap_or_default(), 3000)) } else { String::new() }
		)
	};
	ensure!(signal.is_none() && code != Some(101) && !errs.contains("panicked at"), "the tool panics or dies{}", shown());
	match &must {
		Must::Print(want) => {
			ensure!(code == Some(0), "the tool fails where it must print {:?}{}", clip(want, 1500), shown());
			ensure!(out == format!("{}\n", want).as_bytes(), "the tool prints something else than {:?}{}", clip(want, 1500), shown());
		}
		Must::Fail(why) => {
			ensure!(code != Some(0), "the tool succeeds in spite of a bad {}{}", why, shown());
			ensure!(out.is_empty(), "the tool fails but prints a result{}", shown());
			ensure!(!err.is_empty(), "the tool fails without saying why{}", shown());
		}
		Must::Either => {
			ensure!(code == Some(0) || (out.is_empty() && !err.is_empty()), "the tool fails but prints a result, or without saying why{}", shown());
		}
	}
	let outcome = match &must {
		Must::Print(_) => "result",
		Must::Fail(why) => why,
		Must::Either => "unspecified",
	};
	c.obs(&format!("{}: {}", kind, outcome));
	let mut fp = args.join("\0").into_bytes();
	fp.extend(outs.as_bytes());
	c.nontrivial(&fp);
	c.sample(|| format!("ethabi {} -> {}", clip(&args.join(" "), 250), clip(&outs, 120)));
	Ok(())
}
