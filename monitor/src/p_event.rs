//! C13, C14: topic filters and logs.

use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::mon::*;
use crate::p_call::any_name;
use crate::rng::Rng;
use ethabi::{Event, EventParam, Hash, RawLog, RawTopicFilter, Token, Topic, TopicFilter};
use serde_json::Value;

#[derive(Clone, Debug)]
pub struct Ev {
	pub name: String,
	pub params: Vec<(String, Ty, bool)>,
	pub anonymous: bool,
}

impl Ev {
	pub fn tys(&self) -> Vec<Ty> {
		self.params.iter().map(|p| p.1.clone()).collect()
	}
	pub fn indexed(&self) -> Vec<Ty> {
		self.params.iter().filter(|p| p.2).map(|p| p.1.clone()).collect()
	}
	pub fn to_sut(&self) -> Event {
		Event {
			name: self.name.clone(),
			inputs: self
				.params
				.iter()
				.map(|(n, t, i)| EventParam { name: n.clone(), kind: t.to_sut(), indexed: *i })
				.collect(),
			anonymous: self.anonymous,
		}
	}
}

/// Indexed and other parameters in any order; at most four topics, as in the EVM.
pub fn event(r: &mut Rng) -> Ev {
	let anonymous = r.chance(1, 3);
	let max = if anonymous { 4 } else { 3 };
	let n = match r.below(8) {
		0 => r.below(2),
		1..=5 => r.range(1, 5),
		_ if r.chance(1, 40) => r.range(13, 300),
		_ => r.range(4, 12),
	};
	let mut left = max;
	let depth = if n > 12 { 0 } else { r.range(0, 3) };
	let mut params: Vec<(String, Ty, bool)> = vec![];
	for _ in 0..n {
		let indexed = left > 0 && r.chance(2, 5);
		if indexed {
			left -= 1;
		}
		let t = if indexed && r.chance(1, 2) {
			leaf(r)
		} else if n <= 12 && r.chance(1, 80) {
			let d = deep(r, 30);
			deep_ty(r, d, SOLIDITY)
		} else {
			ty(r, depth, SOLIDITY)
		};
		let name = match r.below(6) {
			0 => String::new(),
			1 if !params.is_empty() => r.pick(&params).0.clone(),
			_ => ident(r),
		};
		params.push((name, t, indexed));
	}
	r.shuffle(&mut params);
	Ev { name: any_name(r), params, anonymous }
}

/// The log the EVM emits.
pub fn emit(e: &Ev, vs: &[Val]) -> (Vec<[u8; 32]>, Vec<u8>) {
	let mut topics = vec![];
	if !e.anonymous {
		topics.push(signature_hash(&e.name, &e.tys()));
	}
	let (mut dt, mut dv) = (vec![], vec![]);
	for ((_, t, indexed), v) in e.params.iter().zip(vs) {
		if *indexed {
			topics.push(topic(t, v));
		} else {
			dt.push(t.clone());
			dv.push(v.clone());
		}
	}
	(topics, encode(&dt, &dv))
}

pub fn raw_log(topics: &[[u8; 32]], data: &[u8]) -> RawLog {
	RawLog { topics: topics.iter().map(|t| Hash::from(*t)).collect(), data: data.to_vec() }
}

#[derive(Clone, Debug, PartialEq)]
pub enum MTopic<T> {
	Any,
	OneOf(Vec<T>),
	This(T),
}

fn to_sut_topic(t: &MTopic<Val>) -> Topic<Token> {
	match t {
		MTopic::Any => Topic::Any,
		MTopic::This(v) => Topic::This(v.to_sut()),
		MTopic::OneOf(v) => Topic::OneOf(v.iter().map(Val::to_sut).collect()),
	}
}
fn from_sut_topic(t: &Topic<Hash>) -> MTopic<[u8; 32]> {
	match t {
		Topic::Any => MTopic::Any,
		Topic::This(h) => MTopic::This(h.0),
		Topic::OneOf(v) => MTopic::OneOf(v.iter().map(|h| h.0).collect()),
	}
}

/// A choice for one position: wildcard, value or alternatives; conforming or not.
fn choice(r: &mut Rng, t: Option<&Ty>) -> MTopic<Val> {
	let one = |r: &mut Rng| match t {
		Some(t) => {
			let max = *r.pick(&[1, 2, 4]);
			let mut v = val(r, t, max, &mut Budget(300));
			if r.chance(1, 6) {
				shorten(r, &mut v);
			}
			if r.chance(1, 14) {
				break_val(r, &mut v);
			}
			v
		}
		None => {
			let t = leaf(r);
			val(r, &t, 1, &mut Budget(5))
		}
	};
	match r.below(if t.is_some() { 6 } else { 24 }) {
		0 | 1 => MTopic::Any,
		2..=4 if t.is_some() => MTopic::This(one(r)),
		2 => MTopic::This(one(r)),
		3 => MTopic::OneOf(vec![one(r)]),
		5 if t.is_some() => {
			let n = match r.below(5) {
				0 => 0,
				1 => 1,
				2 => size(r, 300),
				_ => r.range(2, 6),
			};
			let mut l: Vec<Val> = (0..n).map(|_| one(r)).collect();
			if l.len() > 1 && r.chance(1, 3) {
				l[1] = l[0].clone();
			}
			MTopic::OneOf(l)
		}
		_ => MTopic::Any,
	}
}

/// Expected topic, or None if the choice must be refused.
fn expect(t: Option<&Ty>, ch: &MTopic<Val>) -> Option<MTopic<[u8; 32]>> {
	let one = |v: &Val| match t {
		Some(t) if conforms(v, t) => Some(topic(t, v)),
		_ => None,
	};
	match ch {
		MTopic::Any => Some(MTopic::Any),
		MTopic::This(v) => one(v).map(MTopic::This),
		MTopic::OneOf(l) => l.iter().map(one).collect::<Option<Vec<_>>>().map(MTopic::OneOf),
	}
}

fn topic_json(t: &MTopic<[u8; 32]>) -> Value {
	let h = |w: &[u8; 32]| Value::String(format!("0x{}", hex(w)));
	match t {
		MTopic::Any => Value::Null,
		MTopic::This(w) => h(w),
		MTopic::OneOf(l) => Value::Array(l.iter().map(h).collect()),
	}
}

/// Events no EVM logs (types without a Solidity name, any number of indexed parameters): a filter or an
/// error, the latter for values of the wrong type, and the signature first.
fn odd_event(c: &mut Ctx) -> Res {
	let n = c.rng.range(1, 6);
	let e = Ev {
		name: any_name(&mut c.rng),
		params: (0..n)
			.map(|_| {
				let mut t = ty(&mut c.rng, 2, ANY);
				if c.rng.chance(1, 4) {
					t = Ty::FBytes(c.rng.below(70));
				}
				(String::new(), t, c.rng.chance(4, 5))
			})
			.collect(),
		anonymous: c.rng.bool(),
	};
	let kinds = e.indexed();
	let ch: Vec<MTopic<Val>> = (0..3).map(|i| choice(&mut c.rng, kinds.get(i))).collect();
	let fits = |i: usize, v: &Val| kinds.get(i).map_or(false, |t| conforms(v, t));
	let good = ch.iter().enumerate().all(|(i, t)| match t {
		MTopic::Any => true,
		MTopic::This(v) => fits(i, v),
		MTopic::OneOf(l) => kinds.get(i).is_some() && l.iter().all(|v| fits(i, v)),
	});
	let ctx = || clip(&format!("event {:?}\n  choices {:?}", e, ch), 6000);
	let raw = RawTopicFilter { topic0: to_sut_topic(&ch[0]), topic1: to_sut_topic(&ch[1]), topic2: to_sut_topic(&ch[2]) };
	let event = e.to_sut();
	let got = sut("Event::filter", || event.filter(raw)).map_err(|x| format!("{}\n  {}", x, ctx()))?;
	if let Ok(f) = got {
		ensure!(good, "a filter for values of the wrong type is built: {:?}\n  {}", f, ctx());
		ensure!(
			e.anonymous || from_sut_topic(&f.topic0) == MTopic::This(signature_hash(&e.name, &e.tys())),
			"the first topic is {:?}\n  {}",
			f.topic0,
			ctx()
		);
	}
	c.obs("filters: of odd events");
	Ok(())
}

pub fn c13(c: &mut Ctx) -> Res {
	if c.rng.chance(1, 12) {
		return odd_event(c);
	}
	let e = event(&mut c.rng);
	let kinds = e.indexed();
	let ch: Vec<MTopic<Val>> = (0..3).map(|i| choice(&mut c.rng, kinds.get(i))).collect();
	let want: Option<Vec<MTopic<[u8; 32]>>> = ch.iter().enumerate().map(|(i, t)| expect(kinds.get(i), t)).collect();
	let event = e.to_sut();
	let ctx = || clip(&format!("event {:?}\n  choices {:?}", e, ch), 6000);
	let raw = RawTopicFilter { topic0: to_sut_topic(&ch[0]), topic1: to_sut_topic(&ch[1]), topic2: to_sut_topic(&ch[2]) };
	let got = sut("Event::filter", || event.filter(raw)).map_err(|x| format!("{}\n  {}", x, ctx()))?;
	match (want, got) {
		(None, Err(_)) => c.obs("filters: must be refused"),
		(None, Ok(f)) => return Err(format!("a filter for values of the wrong type is built: {:?}\n  {}", f, ctx())),
		(Some(_), Err(x)) => return Err(format!("a filter for conforming values is refused: {}\n  {}", x, ctx())),
		(Some(mut w), Ok(f)) => {
			if e.anonymous {
				w.push(MTopic::Any);
			} else {
				w.insert(0, MTopic::This(signature_hash(&e.name, &e.tys())));
			}
			let g: Vec<_> = [&f.topic0, &f.topic1, &f.topic2, &f.topic3].iter().map(|t| from_sut_topic(t)).collect();
			c.obs("filters: built");
			ensure!(
				g == w,
				"the filter differs\n  {}\n  expected {:?}\n  got      {:?}",
				ctx(),
				w.iter().map(topic_json).collect::<Vec<_>>(),
				g.iter().map(topic_json).collect::<Vec<_>>()
			);
			let j = sut("serializing a filter", || serde_json::to_value(&f))?.map_err(|x| format!("{}\n  {}", x, ctx()))?;
			let wj = Value::Array(w.iter().map(topic_json).collect());
			ensure!(j == wj, "the filter is written as {} and not {}\n  {}", j, wj, ctx());
			let s = sut("serializing a filter", || serde_json::to_string(&f))?.map_err(|x| format!("{}\n  {}", x, ctx()))?;
			ensure!(serde_json::from_str::<Value>(&s).ok() == Some(wj), "the filter is written as {}\n  {}", s, ctx());
			c.obs("filters: JSON form");
			conversions(c, &f, &w)?;
			// the log of chosen values matches, topic by topic
			let vs: Vec<Val> = {
				let mut k = 0;
				let r = &mut c.rng;
				e.params
					.iter()
					.map(|(_, t, indexed)| {
						if *indexed {
							k += 1;
							match ch.get(k - 1) {
								Some(MTopic::This(v)) => return v.clone(),
								Some(MTopic::OneOf(l)) if !l.is_empty() => return r.pick(l).clone(),
								_ => {}
							}
						}
						val(r, t, 2, &mut Budget(100))
					})
					.collect()
			};
			let (topics, _) = emit(&e, &vs);
			for (i, t) in topics.iter().enumerate() {
				if i < g.len() {
					let m = match &g[i] {
						MTopic::Any => true,
						MTopic::This(w) => w == t,
						MTopic::OneOf(l) => l.is_empty() || l.contains(t),
					};
					ensure!(m, "the filter does not match the emitted log at topic {}\n  {}", i, ctx());
				}
			}
			c.obs("filters: matched against an emitted log");
		}
	}
	for k in &kinds {
		c.count(match k {
			Ty::Str | Ty::Bytes => "indexed: string or bytes",
			Ty::Arr(_) | Ty::FArr(..) => "indexed: array",
			Ty::Tup(_) => "indexed: tuple",
			_ => "indexed: value type",
		});
	}
	c.count(if e.anonymous { "events: anonymous" } else { "events: named" });
	if !kinds.is_empty() {
		c.nontrivial(format!("{:?}{:?}", e, ch).as_bytes());
	}
	c.sample(ctx);
	Ok(())
}

/// Conversions of a topic neither lose nor reorder its values.
fn conversions(c: &mut Ctx, f: &TopicFilter, w: &[MTopic<[u8; 32]>]) -> Res {
	for (t, w) in [&f.topic0, &f.topic1, &f.topic2, &f.topic3].iter().zip(w) {
		let any = sut("Topic::is_any", || t.is_any())?;
		ensure!(any == (*w == MTopic::Any), "is_any is {} for {:?}", any, t);
		let list: Vec<[u8; 32]> = match w {
			MTopic::Any => vec![],
			MTopic::This(h) => vec![*h],
			MTopic::OneOf(l) => l.clone(),
		};
		for (i, h) in list.iter().enumerate() {
			let got = sut("Topic[]", || t[i])?;
			ensure!(got.0 == *h, "topic[{}] is {:?} of {:?}", i, got, t);
		}
		let copy = |t: &Topic<Hash>| match t {
			Topic::Any => Topic::Any,
			Topic::This(h) => Topic::This(*h),
			Topic::OneOf(l) => Topic::OneOf(l.clone()),
		};
		let m = sut("Topic::map", || copy(t).map(|h| (h, 1u8)))?;
		let ok = match (&m, w) {
			(Topic::Any, MTopic::Any) => true,
			(Topic::This((h, 1)), MTopic::This(x)) => h.0 == *x,
			(Topic::OneOf(l), MTopic::OneOf(x)) => l.iter().map(|(h, _)| h.0).collect::<Vec<_>>() == *x,
			_ => false,
		};
		ensure!(ok, "map turns {:?} into {:?}", t, m);
		let v: Vec<Hash> = sut("Vec::from(Topic)", || Vec::from(copy(t)))?;
		ensure!(v.iter().map(|h| h.0).collect::<Vec<_>>() == list, "the list of {:?} is {:?}", t, v);
		let o = sut("Topic::from(Vec)", || Topic::from(v))?;
		ensure!(from_sut_topic(&o) == MTopic::OneOf(list.clone()), "a list becomes {:?}", o);
		if let Some(h) = list.first() {
			let h = Hash::from(*h);
			let (a, b, n) = sut("Topic::from", || (Topic::<Hash>::from(h), Topic::<Hash>::from(Some(h)), Topic::<Hash>::from(None::<Hash>)))?;
			ensure!(
				from_sut_topic(&a) == MTopic::This(h.0) && from_sut_topic(&b) == MTopic::This(h.0) && n == Topic::Any,
				"a value becomes {:?}, {:?}, {:?}",
				a,
				b,
				n
			);
		}
		c.obs("topic conversions");
	}
	let d = sut("RawTopicFilter::default", || (RawTopicFilter::default(), TopicFilter::default()))?;
	ensure!(
		d.0.topic0 == Topic::Any && d.0.topic1 == Topic::Any && d.0.topic2 == Topic::Any && d.1.topic0 == Topic::Any && d.1.topic3 == Topic::Any,
		"the default filter is {:?}",
		d
	);
	Ok(())
}

// ---------------------------------------------------------------- C14

/// What parsing the log must give, or why it must be refused.
pub fn parse(e: &Ev, topics: &[[u8; 32]], data: &[u8]) -> Result<Vec<(String, Val)>, Option<&'static str>> {
	let mut at = 0;
	if !e.anonymous {
		if topics.first() != Some(&signature_hash(&e.name, &e.tys())) {
			return Err(Some("signature topic"));
		}
		at = 1;
	}
	let kinds = e.indexed();
	if topics.len() - at != kinds.len() {
		return Err(Some("number of topics"));
	}
	let dt: Vec<Ty> = e.params.iter().filter(|p| !p.2).map(|p| p.1.clone()).collect();
	let mut dv = match decode(&dt, data) {
		Decoded::Ok(v) => v.into_iter(),
		Decoded::Err(_) => return Err(Some("data")),
		Decoded::Fuel => return Err(None),
	};
	let mut tv = topics[at..].iter();
	e.params
		.iter()
		.map(|(n, t, indexed)| {
			let v = if *indexed {
				let w = tv.next().unwrap();
				if is_value_type(t) {
					match decode(std::slice::from_ref(t), w) {
						Decoded::Ok(mut v) => v.remove(0),
						_ => return Err(Some("topic value")),
					}
				} else {
					Val::FBytes(w.to_vec())
				}
			} else {
				dv.next().unwrap()
			};
			Ok((n.clone(), v))
		})
		.collect()
}

pub fn c14(c: &mut Ctx) -> Res {
	let e = event(&mut c.rng);
	let r = &mut c.rng;
	let max = *r.pick(&[1, 2, 3, 8]);
	let vs = vals(r, &e.tys(), max);
	let (mut topics, mut data) = emit(&e, &vs);
	let kind = match r.below(12) {
		0 => {
			if !topics.is_empty() {
				let i = r.below(topics.len());
				topics.remove(i);
			}
			"topic removed"
		}
		1 if r.chance(1, 10) => {
			let n = if r.chance(1, 300) { 1 << 16 } else { *r.pick(&[256, 256, 512]) };
			let w = special_word(r, 64);
			topics.extend(std::iter::repeat(w).take(n));
			"many topics added"
		}
		1 => {
			let i = r.below(topics.len() + 1);
			let w = special_word(r, 64);
			topics.insert(i, w);
			"topic added"
		}
		2 if !topics.is_empty() => {
			topics[0] = match r.below(3) {
				0 => signature_hash(&ident(r), &e.tys()),
				1 => {
					let mut w = topics[0];
					w[r.below(32)] ^= 1 << r.below(8);
					w
				}
				_ => special_word(r, 64),
			};
			"first topic changed"
		}
		3 if !topics.is_empty() => {
			let i = r.below(topics.len());
			topics[i] = special_word(r, 64);
			"a topic changed"
		}
		4 if topics.len() > 1 => {
			let n = topics.len();
			let (i, j) = (r.below(n), r.below(n));
			topics.swap(i, j);
			"topics swapped"
		}
		5 | 6 => {
			mutate(r, &mut data);
			"data mutated"
		}
		7 => {
			let n = r.below(data.len() + 1);
			data.truncate(n);
			"data truncated"
		}
		8 => {
			topics.clear();
			"no topics"
		}
		_ => "as emitted",
	};
	let want = match parse(&e, &topics, &data) {
		Err(None) => return Ok(()),
		w => w,
	};
	let event = e.to_sut();
	let log = raw_log(&topics, &data);
	let shown = format!("event {:?}\n  topics {:?}\n  data {}", e, topics.iter().map(|t| hex(t)).collect::<Vec<_>>(), hex(&data));
	let ctx = || clip(&shown, 6000);
	let via = r.below(2);
	let got = sut("Event::parse_log", || match via {
		0 => event.parse_log(log),
		_ => event.parse_log((log.topics, log.data).into()),
	})
	.map_err(|x| format!("{}\n  {}", x, ctx()))?;
	c.count(&format!("logs: {}", kind));
	match (want, got) {
		(Err(why), Err(_)) => {
			c.obs("logs: must be refused");
			c.count(&format!("refused because: {}", why.unwrap()));
		}
		(Err(why), Ok(l)) => return Err(format!("a log with a wrong {} is parsed as {:?}\n  {}", why.unwrap(), l, ctx())),
		(Ok(_), Err(x)) => return Err(format!("a valid log is refused: {}\n  {}", x, ctx())),
		(Ok(w), Ok(l)) => {
			let g: Vec<(String, Val)> = l.params.iter().map(|p| (p.name.clone(), Val::from_sut(&p.value))).collect();
			c.obs("logs: parsed");
			ensure!(
				g == w,
				"the log is parsed differently\n  {}\n  expected {}\n  got      {}",
				ctx(),
				clip(&format!("{:?}", w), 3000),
				clip(&format!("{:?}", g), 3000)
			);
			if kind == "as emitted" {
				for ((_, t, i), (v, (_, g))) in e.params.iter().zip(vs.iter().zip(&g)) {
					if !*i || is_value_type(t) {
						ensure!(v == g, "emitted {:?}, parsed {:?}\n  {}", v, g, ctx());
					}
				}
			}
		}
	}
	if e.params.len() > 1 {
		c.nontrivial(shown.as_bytes());
	}
	c.sample(ctx);
	Ok(())
}
