//! C18: the derived bindings. The parent writes crates with generated ABI files and typed calls
//! of every generated item, builds them against the macro, and runs them as workers of a run:
//! each driver observes its own bindings and compares them with the reference.

use crate::dict::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::mon::*;
use crate::p_event::{emit, parse, raw_log, Ev, MTopic};
use crate::p_json::{doc_json, style, to_text, Entry, MEv, MFn, MParam};
use crate::rng::{mix, Rng};
use ethabi::{Event, Hash, RawLog, Topic, TopicFilter};
use std::collections::BTreeSet;
use std::fmt::Write as _;
use std::fs;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::OnceLock;

// ---------------------------------------------------------------- values as Rust types

pub trait Conv: Sized {
	fn of(v: &Val) -> Self;
	fn val(&self, t: &Ty) -> Val;
}

fn wrong(v: &dyn std::fmt::Debug) -> ! {
	panic!("harness: conversion of {:?}", v)
}

impl Conv for ethabi::Address {
	fn of(v: &Val) -> Self {
		match v {
			Val::Address(a) => (*a).into(),
			_ => wrong(v),
		}
	}
	fn val(&self, _: &Ty) -> Val {
		Val::Address(self.0)
	}
}
impl Conv for ethabi::Uint {
	fn of(v: &Val) -> Self {
		match v {
			Val::Int(w) | Val::Uint(w) => (*w).into(),
			_ => wrong(v),
		}
	}
	fn val(&self, t: &Ty) -> Val {
		match t {
			Ty::Int(_) => Val::Int((*self).into()),
			Ty::Uint(_) => Val::Uint((*self).into()),
			_ => wrong(t),
		}
	}
}
impl Conv for bool {
	fn of(v: &Val) -> Self {
		match v {
			Val::Bool(b) => *b,
			_ => wrong(v),
		}
	}
	fn val(&self, _: &Ty) -> Val {
		Val::Bool(*self)
	}
}
impl Conv for String {
	fn of(v: &Val) -> Self {
		text_of(v).to_string()
	}
	fn val(&self, _: &Ty) -> Val {
		Val::Str(self.clone())
	}
}
impl Conv for Hash {
	fn of(v: &Val) -> Self {
		Hash::from_slice(bytes_of(v))
	}
	fn val(&self, _: &Ty) -> Val {
		Val::FBytes(self.0.to_vec())
	}
}
impl Conv for Vec<u8> {
	fn of(v: &Val) -> Self {
		bytes_of(v).to_vec()
	}
	fn val(&self, _: &Ty) -> Val {
		Val::Bytes(self.clone())
	}
}
impl<const N: usize> Conv for [u8; N] {
	fn of(v: &Val) -> Self {
		let mut a = [0u8; N];
		a.copy_from_slice(bytes_of(v));
		a
	}
	fn val(&self, _: &Ty) -> Val {
		Val::FBytes(self.to_vec())
	}
}
impl<T: Conv> Conv for Vec<T> {
	fn of(v: &Val) -> Self {
		items_of(v).iter().map(T::of).collect()
	}
	fn val(&self, t: &Ty) -> Val {
		match t {
			Ty::Arr(t) => Val::Arr(self.iter().map(|x| x.val(t)).collect()),
			_ => wrong(t),
		}
	}
}
impl<T: Conv, const N: usize> Conv for [T; N] {
	fn of(v: &Val) -> Self {
		let l = items_of(v);
		assert_eq!(l.len(), N, "harness: fixed array");
		std::array::from_fn(|i| T::of(&l[i]))
	}
	fn val(&self, t: &Ty) -> Val {
		match t {
			Ty::FArr(t, _) => Val::FArr(self.iter().map(|x| x.val(t)).collect()),
			_ => wrong(t),
		}
	}
}

pub fn text_of(v: &Val) -> &str {
	match v {
		Val::Str(s) => s,
		_ => wrong(v),
	}
}
pub fn bytes_of(v: &Val) -> &[u8] {
	match v {
		Val::Bytes(b) | Val::FBytes(b) => b,
		Val::Address(a) => a,
		_ => wrong(v),
	}
}
pub fn items_of(v: &Val) -> &[Val] {
	match v {
		Val::Arr(l) | Val::FArr(l) => l,
		_ => wrong(v),
	}
}
/// Types of a caller's own that convert to the ABI's.
pub struct Big([u8; 32]);
impl Big {
	pub fn of(v: &Val) -> Big {
		match v {
			Val::Int(w) | Val::Uint(w) => Big(*w),
			_ => wrong(v),
		}
	}
}
impl From<Big> for ethabi::Uint {
	fn from(b: Big) -> Self {
		b.0.into()
	}
}
pub struct Flag(bool);
impl Flag {
	pub fn of(v: &Val) -> Flag {
		Flag(bool::of(v))
	}
}
impl From<Flag> for bool {
	fn from(f: Flag) -> bool {
		f.0
	}
}
pub fn topic_of<T: Conv>(t: &MTopic<Val>) -> Topic<T> {
	match t {
		MTopic::Any => Topic::Any,
		MTopic::This(v) => Topic::This(T::of(v)),
		MTopic::OneOf(l) => Topic::OneOf(l.iter().map(T::of).collect()),
	}
}
/// As an option: a wildcard or a value.
pub fn option_of<T: Conv>(t: &MTopic<Val>) -> Option<T> {
	match t {
		MTopic::Any => None,
		MTopic::This(v) => Some(T::of(v)),
		MTopic::OneOf(_) => wrong(t),
	}
}
pub fn value_of<T: Conv>(t: &MTopic<Val>) -> T {
	match t {
		MTopic::This(v) => T::of(v),
		_ => wrong(t),
	}
}
pub fn list_of<T: Conv>(t: &MTopic<Val>) -> Vec<T> {
	match t {
		MTopic::OneOf(l) => l.iter().map(T::of).collect(),
		_ => wrong(t),
	}
}
pub fn refused(e: ethabi::Error) -> String {
	format!("{} {:?}", e, e)
}

// ---------------------------------------------------------------- what a driver has

pub type Encoder = fn(&[Val]) -> Vec<u8>;
pub type OutDecoder = fn(&[u8], &[Ty]) -> Result<Vec<Val>, String>;
pub type Filter = fn(&[MTopic<Val>]) -> TopicFilter;

pub enum Item {
	Fun { at: &'static str, name: String, ins: Vec<Ty>, outs: Vec<Ty>, encode: Vec<(&'static str, Encoder)>, decode: Vec<(&'static str, OutDecoder)> },
	/// `call` returns the call data and a decoder: used together
	Con { at: &'static str, ins: Vec<Ty>, encode: Vec<(&'static str, fn(Vec<u8>, &[Val]) -> Vec<u8>)> },
	Ev {
		at: &'static str,
		ev: Ev,
		camel: &'static str,
		event: fn() -> Event,
		topics: Filter,
		options: Filter,
		values: Filter,
		lists: Filter,
		wildcard: fn() -> TopicFilter,
		parse: fn(RawLog, &[Ty]) -> Result<Vec<Val>, String>,
	},
}

static ITEMS: OnceLock<Vec<Item>> = OnceLock::new();

pub fn driver(items: Vec<Item>) -> ! {
	ITEMS.set(items).ok();
	let args: Vec<String> = std::env::args().collect();
	let code = match args.get(1).map(|s| s.as_str()) {
		Some("worker") => crate::run::worker(&args[2..]),
		_ => 2,
	};
	std::process::exit(code)
}

/// Keys of the findings the committed file lists as open.
pub fn open_findings() -> &'static BTreeSet<String> {
	static F: OnceLock<BTreeSet<String>> = OnceLock::new();
	F.get_or_init(|| {
		let path = std::env::var("MON_FINDINGS").unwrap_or_else(|_| "/verif/known-findings.txt".into());
		fs::read_to_string(path)
			.unwrap_or_default()
			.lines()
			.filter_map(|l| l.strip_prefix("open: "))
			.filter_map(|l| {
				let prop = l.split_whitespace().find_map(|w| w.strip_prefix("property="))?;
				let key = l.split_whitespace().find_map(|w| w.strip_prefix("key="))?;
				Some(format!("{} {}", prop, key))
			})
			.collect()
	})
}

pub fn c18(c: &mut Ctx) -> Res {
	let items = ITEMS.get().expect("harness: no bindings");
	let item = &items[c.idx as usize % items.len()];
	match item {
		Item::Fun { at, name, ins, outs, encode, decode } => function_case(c, at, name, ins, outs, encode, decode),
		Item::Con { at, ins, encode } => {
			let max = *c.rng.pick(&[1, 2, 4, 12]);
			let vs = vals(&mut c.rng, ins, max);
			let n = size(&mut c.rng, 200);
			let code = byte_string(&mut c.rng, n);
			let mut want = code.clone();
			want.extend(crate::model::encode(ins, &vs));
			for (how, f) in encode {
				let got = sut("constructor", || f(code.clone(), &vs)).map_err(|e| format!("{}: {} ({})", at, e, how))?;
				c.obs("constructors encoded");
				ensure!(
					got == want,
					"{}: constructor of {} code bytes and {} ({})\n  expected {}\n  got      {}",
					at,
					code.len(),
					clip(&crate::p_codec::show(ins, &vs), 2000),
					how,
					clip(&hex(&want), 3000),
					clip(&hex(&got), 3000)
				);
			}
			if !ins.is_empty() {
				c.nontrivial(&want);
			}
			Ok(())
		}
		Item::Ev { at, ev, camel, event, topics, options, values, lists, wildcard, parse } => {
			let got = sut("event", event)?;
			let mut ev = ev.clone();
			if got.name != ev.name && got.name == *camel {
				let key = format!("event-name:{}", ev.name);
				ensure!(open_findings().contains(&format!("C18 {}", key)), "{}: event {} is generated under the name {}", at, ev.name, camel);
				c.count(&format!("known finding: {}", key));
				// everything else about it must be right
				ev.name = camel.to_string();
			}
			c.obs("events described");
			ensure!(got == ev.to_sut(), "{}: event {:?} is generated as {:?}", at, ev, got);
			filter_case(c, at, &ev, *topics, *options, *values, *lists, *wildcard)?;
			log_case(c, at, &ev, *parse)
		}
	}
}

/// Bytes that denote values of the types, or nearly.
fn outputs(r: &mut Rng, tys: &[Ty]) -> (Vec<u8>, &'static str) {
	let max = *r.pick(&[1, 2, 4, 12]);
	let mut b = encode(tys, &vals(r, tys, max));
	match r.below(10) {
		0..=3 => (b, "as encoded"),
		4 => {
			let n = size(r, 70);
			b.extend(byte_string(r, n));
			(b, "trailing bytes")
		}
		5 => {
			let n = r.below(b.len() + 1);
			b.truncate(n);
			(b, "truncated")
		}
		6 => {
			let n = r.below(12);
			(wordy(r, n), "words")
		}
		_ => {
			for _ in 0..r.range(1, 3) {
				mutate(r, &mut b);
			}
			(b, "mutated")
		}
	}
}

fn function_case(
	c: &mut Ctx,
	at: &str,
	name: &str,
	ins: &[Ty],
	outs: &[Ty],
	encoders: &[(&'static str, Encoder)],
	decoders: &[(&'static str, OutDecoder)],
) -> Res {
	let max = *c.rng.pick(&[1, 2, 4, 12]);
	let vs = vals(&mut c.rng, ins, max);
	let mut want = signature_hash(name, ins)[..4].to_vec();
	want.extend(encode(ins, &vs));
	for (how, f) in encoders {
		let ctx = || format!("{}: call data of {}{} ({})", at, name, clip(&crate::p_codec::show(ins, &vs), 3000), how);
		let got = sut(how, || f(&vs)).map_err(|e| format!("{}\n  {}", e, ctx()))?;
		c.obs("calls encoded");
		ensure!(got == want, "{}\n  expected {}\n  got      {}", ctx(), clip(&hex(&want), 3000), clip(&hex(&got), 3000));
	}
	let (data, kind) = outputs(&mut c.rng, outs);
	let want_out = match decode(outs, &data) {
		Decoded::Fuel => return Ok(()),
		d => d,
	};
	for (how, f) in decoders {
		let ctx = || format!("{}: outputs of {} as ({}) from {} ({})", at, name, names(outs), clip(&hex(&data), 3000), how);
		let got = sut(how, || f(&data, outs)).map_err(|e| format!("{}\n  {}", e, ctx()))?;
		c.count(&format!("output data: {}", kind));
		match (&want_out, got) {
			(Decoded::Ok(w), Ok(g)) => {
				c.obs("outputs decoded");
				ensure!(*w == g, "{}\n  expected {}\n  got      {}", ctx(), clip(&format!("{:?}", w), 3000), clip(&format!("{:?}", g), 3000));
			}
			(Decoded::Err(_), Err(_)) => c.obs("outputs refused"),
			(Decoded::Ok(_), Err(e)) => return Err(format!("refused: {}\n  {}", e, ctx())),
			(_, Ok(g)) => return Err(format!("accepted as {}\n  {}", clip(&format!("{:?}", g), 3000), ctx())),
			_ => {}
		}
	}
	if !ins.is_empty() {
		c.nontrivial(&want);
	}
	c.sample(|| format!("{} {}{}", at, name, crate::p_codec::show(ins, &vs)));
	Ok(())
}

fn plain(t: &Topic<Hash>) -> MTopic<[u8; 32]> {
	match t {
		Topic::Any => MTopic::Any,
		Topic::This(h) => MTopic::This(h.0),
		Topic::OneOf(v) => MTopic::OneOf(v.iter().map(|h| h.0).collect()),
	}
}

#[allow(clippy::too_many_arguments)]
fn filter_case(c: &mut Ctx, at: &str, ev: &Ev, topics: Filter, options: Filter, values: Filter, lists: Filter, wildcard: fn() -> TopicFilter) -> Res {
	let kinds = ev.indexed();
	let form = c.rng.below(6);
	let r = &mut c.rng;
	let choices: Vec<MTopic<Val>> = kinds
		.iter()
		.map(|t| {
			let one = |r: &mut Rng| {
				let max = *r.pick(&[1, 2, 4]);
				val(r, t, max, &mut Budget(300))
			};
			let pick = match form {
				0 => 1,
				1 => 2,
				2 => r.below(2),
				_ => r.below(3),
			};
			match pick {
				0 => MTopic::Any,
				1 => MTopic::This(one(r)),
				_ => {
					let n = r.below(4);
					MTopic::OneOf((0..n).map(|_| one(r)).collect())
				}
			}
		})
		.collect();
	let (f, how): (Filter, &str) = match form {
		0 => (values, "values"),
		1 => (lists, "lists of alternatives"),
		2 => (options, "options"),
		_ => (topics, "topics"),
	};
	let mut want: Vec<MTopic<[u8; 32]>> = vec![];
	if !ev.anonymous {
		want.push(MTopic::This(signature_hash(&ev.name, &ev.tys())));
	}
	for (t, ch) in kinds.iter().zip(&choices) {
		want.push(match ch {
			MTopic::Any => MTopic::Any,
			MTopic::This(v) => MTopic::This(topic(t, v)),
			MTopic::OneOf(l) => MTopic::OneOf(l.iter().map(|v| topic(t, v)).collect()),
		});
	}
	let wild: Vec<MTopic<[u8; 32]>> = (0..4)
		.map(|i| match i {
			0 if !ev.anonymous => want[0].clone(),
			_ => MTopic::Any,
		})
		.collect();
	want.resize(4, MTopic::Any);
	let show = |f: &TopicFilter| vec![plain(&f.topic0), plain(&f.topic1), plain(&f.topic2), plain(&f.topic3)];
	let ctx = || format!("{}: filter of {:?} by {} {}", at, ev, how, clip(&format!("{:?}", choices), 3000));
	let got = show(&sut("filter", || f(&choices)).map_err(|e| format!("{}\n  {}", e, ctx()))?);
	c.obs("filters built");
	c.count(&format!("filters by {}", how));
	let fourth = format!("fourth-topic:{}", ev.name);
	if kinds.len() == 4 && got != want && open_findings().contains(&format!("C18 {}", fourth)) {
		c.count(&format!("known finding: {}", fourth));
		want[3] = MTopic::Any;
	}
	ensure!(got == want, "{}\n  expected {:?}\n  got      {:?}", ctx(), want, got);
	let got = show(&sut("wildcard_filter", wildcard).map_err(|e| format!("{}\n  {}", e, ctx()))?);
	c.obs("wildcard filters built");
	ensure!(got == wild, "{}: wildcard filter of {:?}\n  expected {:?}\n  got      {:?}", at, ev, wild, got);
	Ok(())
}

fn log_case(c: &mut Ctx, at: &str, ev: &Ev, f: fn(RawLog, &[Ty]) -> Result<Vec<Val>, String>) -> Res {
	let r = &mut c.rng;
	let max = *r.pick(&[1, 2, 4, 12]);
	let vs = vals(r, &ev.tys(), max);
	let (mut topics, mut data) = emit(ev, &vs);
	match r.below(14) {
		0 => {
			if !topics.is_empty() {
				let i = r.below(topics.len());
				topics.remove(i);
			}
		}
		1 => {
			let i = r.below(topics.len() + 1);
			topics.insert(i, special_word(r, 64));
		}
		2 | 3 if !topics.is_empty() => {
			let i = r.below(topics.len());
			topics[i] = special_word(r, 64);
		}
		4 if topics.len() > 1 => {
			let n = topics.len();
			let (i, j) = (r.below(n), r.below(n));
			topics.swap(i, j);
		}
		5 | 6 => mutate(r, &mut data),
		7 => {
			let n = r.below(data.len() + 1);
			data.truncate(n);
		}
		8 => topics.clear(),
		_ => {}
	}
	let want = match parse(ev, &topics, &data) {
		Err(None) => return Ok(()),
		w => w,
	};
	let kinds: Vec<Ty> = ev.params.iter().map(|(_, t, i)| log_ty(t, *i)).collect();
	let ctx = || {
		let t: Vec<String> = topics.iter().map(|t| hex(t)).collect();
		format!("{}: log of {:?}\n  topics {:?}\n  data {}", at, ev, t, clip(&hex(&data), 3000))
	};
	let log = raw_log(&topics, &data);
	let got = sut("parse_log", || f(log, &kinds)).map_err(|e| format!("{}\n  {}", e, ctx()))?;
	match (want, got) {
		(Ok(w), Ok(g)) => {
			let w: Vec<Val> = w.into_iter().map(|x| x.1).collect();
			c.obs("logs parsed");
			ensure!(w == g, "{}\n  expected {}\n  got      {}", ctx(), clip(&format!("{:?}", w), 3000), clip(&format!("{:?}", g), 3000));
		}
		(Err(_), Err(_)) => c.obs("logs refused"),
		(Ok(_), Err(e)) => return Err(format!("a valid log is refused: {}\n  {}", e, ctx())),
		(Err(why), Ok(g)) => return Err(format!("a log with a wrong {} is parsed as {:?}\n  {}", why.unwrap(), g, ctx())),
	}
	if !ev.params.is_empty() {
		c.nontrivial(ctx().as_bytes());
	}
	Ok(())
}

/// What a parsed log has of a parameter.
fn log_ty(t: &Ty, indexed: bool) -> Ty {
	if indexed && !is_value_type(t) {
		Ty::FBytes(32)
	} else {
		t.clone()
	}
}

// ---------------------------------------------------------------- writing the drivers

const FUNCTIONS: &[(&str, &str)] = &[
	("transfer", "transfer"),
	("transferFrom", "transfer_from"),
	("balanceOf", "balance_of"),
	("tokenURI", "token_uri"),
	("_private", "private"),
	("set_value", "set_value"),
	("f", "f"),
	("DOMAIN_SEPARATOR", "domain_separator"),
	("Deposit", "deposit"),
	("x", "x"),
	("approve", "approve"),
	("mintBatch", "mint_batch"),
	("isPausedNow", "is_paused_now"),
	("name", "name"),
	("tokenURIOf", "token_uri_of"),
	("events", "events"),
	("function", "function"),
	("decoder", "decoder"),
	("call", "call"),
	("safe_TransferFrom", "safe_transfer_from"),
	("aB", "a_b"),
	("log2", "log2"),
	("match", "_match"),
	("type", "_type"),
	("move", "_move"),
	("async", "_async"),
	("try", "_try"),
	("dyn", "_dyn"),
	("yield", "_yield"),
	("Self", "_self"),
	("union", "union"),
	("_c", "c"),
];
const EVENTS: &[(&str, &str)] = &[
	("Transfer", "transfer"),
	("Approval", "approval"),
	("OwnershipTransferred", "ownership_transferred"),
	("ApprovalForAll", "approval_for_all"),
	("Paused", "paused"),
	("E", "e"),
	("Log2", "log2"),
	("Event", "event"),
	("RoleAdminChanged", "role_admin_changed"),
	("Swap", "swap"),
	("Filter", "filter"),
	("Deposit", "deposit"),
	("Move", "_move"),
	("Match", "_match"),
	("Await", "_await"),
	("Use", "_use"),
	("C", "c"),
];
/// Names that the macro turns into other ones.
const PROBES: &[(&str, &str, &str)] =
	&[("hello", "hello", "Hello"), ("URI", "uri", "Uri"), ("LOG_NOTE", "log_note", "LogNote"), ("transfer", "transfer", "Transfer")];
const PARAMS: &[(&str, &str)] = &[
	("to", "to"),
	("from", "from"),
	("_value", "value"),
	("tokenId", "token_id"),
	("_spender", "spender"),
	("deadline", "deadline"),
	("x", "x"),
	("y", "y"),
	("data", "data"),
	("URI", "uri"),
	("owner_", "owner"),
	("v", "v"),
	("inner", "inner"),
	("i", "i"),
	("e", "e"),
	("raw", "raw"),
	("log", "log"),
	("tokens", "tokens"),
	("output", "output"),
	("iter", "iter"),
	("result", "result"),
	("T0", "t0"),
	("newOwner", "new_owner"),
	("a_b", "a_b"),
	("isOk", "is_ok"),
	("topic", "topic"),
	("hash", "hash"),
	("type", "_type"),
	("ref", "_ref"),
	("match", "_match"),
	("Self", "_self"),
	("async", "_async"),
	("_try", "_try"),
	("dyn", "_dyn"),
	("fn", "_fn"),
	("crate", "_crate"),
	("move_", "_move"),
	("abstract", "_abstract"),
	("f", "f"),
	("c", "c"),
	("code", "code"),
	("union", "union"),
	("ethabi", "ethabi"),
	("function", "function"),
	("call", "call"),
	("event", "event"),
	("u8", "u8"),
	("Vec", "vec"),
];
/// Names that have nothing a Rust name can keep.
const BLANK: &[&str] = &["", "", "", "_", "__"];

fn rust_type(t: &Ty) -> String {
	match t {
		Ty::Address => "ethabi::Address".into(),
		Ty::Bytes => "Vec<u8>".into(),
		Ty::FBytes(32) => "ethabi::Hash".into(),
		Ty::FBytes(n) => format!("[u8; {}]", n),
		Ty::Int(_) => "ethabi::Int".into(),
		Ty::Uint(_) => "ethabi::Uint".into(),
		Ty::Bool => "bool".into(),
		Ty::Str => "String".into(),
		Ty::Arr(t) => format!("Vec<{}>", rust_type(t)),
		Ty::FArr(t, n) => format!("[{}; {}]", rust_type(t), n),
		Ty::Tup(_) => unreachable!(),
	}
}

fn ty_expr(t: &Ty) -> String {
	match t {
		Ty::Arr(t) => format!("Ty::Arr(Box::new({}))", ty_expr(t)),
		Ty::FArr(t, n) => format!("Ty::FArr(Box::new({}), {})", ty_expr(t), n),
		t => format!("Ty::{:?}", t),
	}
}
fn tys_expr(ts: &[Ty]) -> String {
	format!("vec![{}]", ts.iter().map(ty_expr).collect::<Vec<_>>().join(", "))
}

/// The argument as another type that converts.
fn other_form(t: &Ty, v: &str) -> String {
	match t {
		Ty::Address => format!("<[u8; 20]>::of({})", v),
		Ty::FBytes(32) => format!("<[u8; 32]>::of({})", v),
		Ty::Str => format!("text_of({})", v),
		Ty::Bytes => format!("bytes_of({})", v),
		Ty::Int(_) | Ty::Uint(_) => format!("Big::of({})", v),
		Ty::Bool => format!("Flag::of({})", v),
		_ => format!("<{}>::of({})", rust_type(t), v),
	}
}
fn argument(t: &Ty, v: &str, form: usize) -> String {
	match (form, t) {
		(0, _) => format!("<{}>::of({})", rust_type(t), v),
		(_, Ty::Arr(t)) => format!("items_of({}).iter().map(|x| {})", v, other_form(t, "x")),
		(_, Ty::FArr(t, n)) => {
			format!("{{ let l = items_of({}); let a: [_; {}] = std::array::from_fn(|k| {}); a }}", v, n, other_form(t, "(&l[k])"))
		}
		_ => other_form(t, v),
	}
}
fn arguments(ts: &[Ty], form: usize) -> String {
	ts.iter().enumerate().map(|(i, t)| argument(t, &format!("(&v[{}])", i), form)).collect::<Vec<_>>().join(", ")
}

fn a_type(r: &mut Rng, depth: usize) -> Ty {
	if r.chance(1, 12) {
		let n = match r.below(3) {
			0 => 33,
			1 => r.range(5, 40),
			_ => a_num(r).clamp(1, 70) as usize,
		};
		return Ty::FArr(Box::new(leaf(r)), n);
	}
	ty(r, depth, TyOpt { tuples: false, ..SOLIDITY })
}

fn how_many(r: &mut Rng) -> usize {
	match r.below(10) {
		0 => 0,
		1..=7 => r.range(1, 4),
		8 => r.range(4, 7),
		_ => r.range(8, 14),
	}
}

/// Parameters with their names as Rust identifiers.
fn named(r: &mut Rng, n: usize, event: bool) -> Vec<(MParam, String)> {
	let mut pool: Vec<(&str, &str)> = PARAMS.to_vec();
	if r.bool() {
		// written otherwise, the same identifier
		pool.iter_mut().filter(|x| x.0 == "Self").for_each(|x| x.0 = "self");
	}
	r.shuffle(&mut pool);
	let mut left = 3;
	// at times all of one type, where a wrong order still compiles
	let d = r.range(0, 2);
	let alike = if r.chance(2, 5) { Some(a_type(r, d)) } else { None };
	// at times all unnamed, or all indexed as long as there are topics
	let blank = *r.pick(&[0, 1, 1, 1, 2, 4]);
	let topics = *r.pick(&[2, 2, 3, 5]);
	(0..n)
		.map(|i| {
			let indexed = event && left > 0 && r.chance(topics, 5);
			left -= indexed as i32;
			let (name, ident) = if r.chance(blank, 4) {
				(r.pick(BLANK).to_string(), if indexed { format!("topic{}", i) } else { format!("param{}", i) })
			} else {
				let (a, b) = pool.pop().unwrap();
				(a.to_string(), b.to_string())
			};
			let ty = if let Some(t) = alike.as_ref().filter(|_| !r.chance(1, 12)) {
				t.clone()
			} else if indexed && r.bool() {
				leaf(r)
			} else {
				let d = r.range(0, 3);
				a_type(r, d)
			};
			let internal = if r.chance(1, 4) { Some("contract IERC20".to_string()) } else { None };
			(MParam { name, ty, internal, indexed }, ident)
		})
		.collect()
}

fn only_params(l: &[(MParam, String)]) -> Vec<MParam> {
	l.iter().map(|x| x.0.clone()).collect()
}
fn only_tys(l: &[(MParam, String)]) -> Vec<Ty> {
	l.iter().map(|x| x.0.ty.clone()).collect()
}

fn function_code(out: &mut String, module: &str, at: &str, f: &MFn, name: &str, ident: &str) {
	let ins: Vec<Ty> = f.inputs.iter().map(|p| p.ty.clone()).collect();
	let outs: Vec<Ty> = f.outputs.iter().map(|p| p.ty.clone()).collect();
	let path = format!("{}::functions::{}", module, ident);
	let result = match outs.len() {
		1 => rust_type(&outs[0]),
		_ => format!("({})", outs.iter().map(rust_type).collect::<Vec<_>>().join(", ")),
	};
	let back = match outs.len() {
		1 => "vec![o.val(&t[0])]".to_string(),
		n => format!("vec![{}]", (0..n).map(|i| format!("o.{}.val(&t[{}])", i, i)).collect::<Vec<_>>().join(", ")),
	};
	// `call` needs arguments only for its decoder: fixed ones do
	let zero: Vec<String> = ins.iter().map(|t| format!("<{}>::of(&zero(&{}))", rust_type(t), ty_expr(t))).collect();
	write!(
		out,
		"\titems.push(Item::Fun {{ at: {at:?}, name: {name:?}.into(), ins: {ins}, outs: {outs},\n\
		\t\tencode: vec![\n\
		\t\t\t(\"encode_input\", |v| {path}::encode_input({a0})),\n\
		\t\t\t(\"encode_input of convertible arguments\", |v| {path}::encode_input({a1})),\n\
		\t\t\t(\"call\", |v| {path}::call({a0}).0),\n\
		\t\t\t(\"call with convertible arguments\", |v| {path}::call({a1}).0)],\n\
		\t\tdecode: vec![\n\
		\t\t\t(\"decode_output\", |b, t| {path}::decode_output(b).map(|o: {result}| {back}).map_err(refused)),\n\
		\t\t\t(\"the decoder of call\", |b, t| {path}::call({zero}).1.decode(b).map(|o: {result}| {back}).map_err(refused))] }});\n",
		at = at,
		name = name,
		ins = tys_expr(&ins),
		outs = tys_expr(&outs),
		path = path,
		a0 = arguments(&ins, 0),
		a1 = arguments(&ins, 1),
		result = result,
		back = back,
		zero = zero.join(", "),
	)
	.unwrap();
}

/// Some value of the type.
pub fn zero(t: &Ty) -> Val {
	val(&mut Rng::new(7), t, 2, &mut Budget(50))
}

fn event_code(out: &mut String, module: &str, at: &str, e: &MEv, fields: &[String], ident: &str, camel: &str) {
	let path = format!("{}::events::{}", module, ident);
	let params: Vec<String> =
		e.inputs.iter().map(|p| format!("({:?}.into(), {}, {})", p.name, ty_expr(&p.ty), p.indexed)).collect();
	let kinds: Vec<String> = e.inputs.iter().filter(|p| p.indexed).map(|p| rust_type(&p.ty)).collect();
	let by = |f: &str| kinds.iter().enumerate().map(|(i, t)| format!("{}::<{}>(&v[{}])", f, t, i)).collect::<Vec<_>>().join(", ");
	let typed: Vec<String> = e
		.inputs
		.iter()
		.zip(fields)
		.enumerate()
		.map(|(i, (p, f))| format!("{{ let field: {} = l.{}; field.val(&t[{}]) }}", rust_type(&log_ty(&p.ty, p.indexed)), f, i))
		.collect();
	write!(
		out,
		"\titems.push(Item::Ev {{ at: {at:?}, camel: {camel:?},\n\
		\t\tev: Ev {{ name: {name:?}.into(), anonymous: {anon}, params: vec![{params}] }},\n\
		\t\tevent: || {path}::event(),\n\
		\t\ttopics: |v| {path}::filter({topics}),\n\
		\t\toptions: |v| {path}::filter({options}),\n\
		\t\tvalues: |v| {path}::filter({values}),\n\
		\t\tlists: |v| {path}::filter({lists}),\n\
		\t\twildcard: || {path}::wildcard_filter(),\n\
		\t\tparse: |log, t| {path}::parse_log(log).map(|l: {module}::logs::{camel}| {{\n\
		\t\t\tassert!(l.clone() == l && !format!(\"{{:?}}\", l).is_empty());\n\
		\t\t\tlet {module}::logs::{camel} {{ {pattern} }} = l.clone();\n\
		\t\t\tvec![{typed}] }}).map_err(refused) }});\n",
		at = at,
		camel = camel,
		name = e.raw,
		anon = e.anonymous,
		params = params.join(", "),
		path = path,
		topics = by("topic_of"),
		options = by("option_of"),
		values = by("value_of"),
		lists = by("list_of"),
		module = module,
		pattern = fields.iter().map(|f| format!("{}: _", f)).collect::<Vec<_>>().join(", "),
		typed = typed.join(", "),
	)
	.unwrap();
}

fn an_event(r: &mut Rng) -> (MEv, Vec<String>) {
	let n = how_many(r);
	let ps = named(r, n, true);
	let e = MEv { raw: String::new(), inputs: only_params(&ps), anonymous: r.chance(1, 4) };
	(e, ps.into_iter().map(|x| x.1).collect())
}

/// One contract: its ABI file and the code that exercises its bindings.
fn contract(r: &mut Rng, k: usize, probe: bool, out: &mut String) -> String {
	let module = format!("contract{}", k);
	let mut doc = vec![];
	let mut at = 0;
	let mut label = |what: &str| {
		at += 1;
		format!("contract{}.abi {} ({})", k, what, at)
	};
	if !probe {
		let mut pool = FUNCTIONS.to_vec();
		r.shuffle(&mut pool);
		for (name, ident) in pool.into_iter().take(r.range(2, 7)) {
			let (n, m) = (how_many(r), how_many(r));
			let ins = named(r, n, false);
			let outs = named(r, m, false);
			let f = MFn {
				raw: if r.chance(1, 12) { format!("{}(uint256)", name) } else { name.to_string() },
				inputs: only_params(&ins),
				outputs: only_params(&outs),
				mutability: if r.chance(3, 4) { Some(*r.pick(&["pure", "view", "nonpayable", "payable"])) } else { None },
				constant: if r.chance(1, 3) { Some(r.bool()) } else { None },
			};
			function_code(out, &module, &label(name), &f, name, ident);
			doc.push(Entry::Fun(f));
		}
		let mut pool = EVENTS.to_vec();
		r.shuffle(&mut pool);
		for (name, ident) in pool.into_iter().take(r.range(2, 6)) {
			let (mut e, fields) = an_event(r);
			e.raw = name.to_string();
			event_code(out, &module, &label(name), &e, &fields, ident, name);
			doc.push(Entry::Ev(e));
		}
		if r.chance(2, 3) {
			let n = how_many(r);
			let ins = named(r, n, false);
			let tys = only_tys(&ins);
			let comma = if tys.is_empty() { "" } else { ", " };
			write!(
				out,
				"\titems.push(Item::Con {{ at: {:?}, ins: {}, encode: vec![(\"arguments\", |code, v| {}::constructor(code{}{})), (\"convertible arguments\", |code, v| {}::constructor(code{}{}))] }});\n",
				label("constructor"), tys_expr(&tys), module, comma, arguments(&tys, 0), module, comma, arguments(&tys, 1)
			)
			.unwrap();
			doc.push(Entry::Con(only_params(&ins)));
		}
		if r.chance(1, 3) {
			doc.push(Entry::Fallback);
		}
		if r.chance(1, 3) {
			doc.push(Entry::Receive);
		}
	} else {
		for (name, ident, camel) in PROBES {
			let (mut e, fields) = an_event(r);
			e.raw = name.to_string();
			event_code(out, &module, &label(name), &e, &fields, ident, camel);
			doc.push(Entry::Ev(e));
		}
		let inputs = ["a", "b", "c", "d"].iter().map(|n| MParam { name: n.to_string(), ty: leaf(r), internal: None, indexed: true }).collect();
		let e = MEv { raw: "Fourth".into(), inputs, anonymous: true };
		let fields: Vec<String> = ["a", "b", "c", "d"].iter().map(|n| n.to_string()).collect();
		event_code(out, &module, &label("Fourth"), &e, &fields, "fourth", "Fourth");
		doc.push(Entry::Ev(e));
	}
	r.shuffle(&mut doc);
	let st = style(r);
	let j = doc_json(r, &doc, &st);
	to_text(r, &j, &st)
}

pub struct Workspace {
	pub members: Vec<(String, PathBuf)>,
	pub errors: Vec<String>,
	/// members that do not compile: name, what the compiler says
	pub failed: Vec<(String, String)>,
	pub contracts: usize,
}

fn cargo(dir: &str, target: &str, args: &[&str]) -> Result<(), String> {
	let out = Command::new("cargo")
		.args(["build", "--offline"])
		.args(args)
		.current_dir(dir)
		.env("CARGO_TARGET_DIR", target)
		.env("RUSTFLAGS", "")
		.stdin(Stdio::null())
		.output()
		.map_err(|e| format!("cargo: {}", e))?;
	if out.status.success() {
		Ok(())
	} else {
		Err(String::from_utf8_lossy(&out.stderr).into_owned())
	}
}

/// Writes and builds the drivers of a seed. `only`: one of them.
pub fn prepare(seed: u64, tier: Tier, only: Option<&str>) -> Workspace {
	let home = std::env::var("MON_HOME").unwrap_or_else(|_| "/verif".into());
	let dir = format!("{}/build/derive", home);
	let target = format!("{}/target/derive", home);
	let per_member = match tier {
		Tier::Quick => 36,
		Tier::Thorough => 90,
	};
	let mut w = Workspace { members: vec![], errors: vec![], failed: vec![], contracts: 0 };
	fs::remove_dir_all(&dir).ok();
	fs::create_dir_all(&dir).expect("harness: build directory");
	let names: Vec<String> = (0..8).map(|i| format!("driver{}", i)).collect();
	let list = names.iter().map(|n| format!("{:?}", n)).collect::<Vec<_>>().join(", ");
	fs::write(
		format!("{}/Cargo.toml", dir),
		format!(
			"[workspace]\nmembers = [{}]\nresolver = \"2\"\n\n[profile.dev]\nopt-level = 0\ndebug = 0\nincremental = false\n\n[profile.dev.package.\"*\"]\nopt-level = 1\n\n[profile.dev.package.monitor]\nopt-level = 1\n",
			list
		),
	)
	.expect("harness: workspace");
	fs::copy(format!("{}/monitor/derive.lock", home), format!("{}/Cargo.lock", dir)).ok();
	for (i, name) in names.iter().enumerate() {
		let m = format!("{}/{}", dir, name);
		fs::create_dir_all(format!("{}/src", m)).unwrap();
		let edition = if i % 2 == 0 { "2018" } else { "2021" };
		fs::write(
			format!("{}/Cargo.toml", m),
			format!(
				"[package]\nname = {:?}\nversion = \"0.1.0\"\nedition = {:?}\npublish = false\n\n[dependencies]\nmonitor = {{ path = \"{}/monitor\" }}\nethabi = {{ path = \"/repo/ethabi\" }}\nethabi-derive = {{ path = \"/repo/derive\" }}\nethabi-contract = {{ path = \"/repo/contract\" }}\n",
				name, edition, home
			),
		)
		.unwrap();
		let mut uses = String::new();
		let mut body = String::new();
		let mut fns = String::new();
		for k in 0..per_member {
			let probe = i == 0 && k == 0;
			let mut r = Rng::new(mix(seed) ^ mix(0xC18 + (i * 1000 + k) as u64));
			let mut code = String::new();
			let abi = contract(&mut r, k, probe, &mut code);
			fs::write(format!("{}/contract{}.abi", m, k), abi).unwrap();
			writeln!(uses, "ethabi_contract::use_contract!(contract{}, \"contract{}.abi\");", k, k).unwrap();
			writeln!(fns, "fn items{}(items: &mut Vec<Item>) {{\n{}}}", k, code).unwrap();
			writeln!(body, "\titems{}(&mut items);", k).unwrap();
			w.contracts += 1;
		}
		fs::write(
			format!("{}/src/main.rs", m),
			format!(
				"#![allow(warnings)]\n#![recursion_limit = \"256\"]\nuse ethabi::FunctionOutputDecoder;\nuse monitor::model::{{Ty, Val}};\nuse monitor::p_derive::*;\nuse monitor::p_event::Ev;\n\n#[global_allocator]\nstatic ALLOC: monitor::mon::Counting = monitor::mon::Counting;\n\n{}\n{}\nfn main() {{\n\tlet mut items = vec![];\n{}\tdriver(items)\n}}\n",
				uses, fns, body
			),
		)
		.unwrap();
	}
	if let Err(e) = cargo(&dir, &target, &["-p", "monitor", "-p", "ethabi-derive", "-p", "ethabi-contract"]) {
		w.errors.push(format!("the crates under test do not build: {}", clip(&e, 3000)));
		return w;
	}
	let wanted: Vec<&String> = names.iter().filter(|n| only.map_or(true, |o| o == n.as_str())).collect();
	let exe = |n: &str| PathBuf::from(format!("{}/debug/{}", target, n));
	let mut args: Vec<&str> = vec!["--keep-going"];
	wanted.iter().for_each(|n| args.extend(["-p", n.as_str()]));
	let all = cargo(&dir, &target, &args);
	for n in wanted {
		if all.is_ok() {
			w.members.push((n.clone(), exe(n)));
			continue;
		}
		match cargo(&dir, &target, &["-p", n]) {
			Ok(()) => w.members.push((n.clone(), exe(n))),
			Err(e) => {
				let at = e.find("error").unwrap_or(0);
				w.failed.push((n.clone(), clip(&e[at..], 3000)));
			}
		}
	}
	w
}
