//! A run: the parent starts workers, watches them, merges what they observed and gives the verdict.

use crate::mon::*;
use crate::props::{find, Prop};
use crate::rng::hash_bytes;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

/// CPU seconds one call into the code under test may take before it counts as hanging.
const HANG_CPU_S: f64 = 60.0;

pub fn env_seed() -> u64 {
	std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}
pub fn env_tier() -> Tier {
	match std::env::var("VERIF_TIER").as_deref() {
		Ok("thorough") => Tier::Thorough,
		_ => Tier::Quick,
	}
}
fn tier_name(t: Tier) -> &'static str {
	match t {
		Tier::Quick => "quick",
		Tier::Thorough => "thorough",
	}
}
fn parse_tier(s: &str) -> Tier {
	if s == "thorough" {
		Tier::Thorough
	} else {
		Tier::Quick
	}
}
fn evidence_dir() -> String {
	std::env::var("VERIF_EVIDENCE").unwrap_or_else(|_| "/verif/evidence".into())
}
fn scale() -> f64 {
	std::env::var("MON_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0)
}

// ---------------------------------------------------------------- worker

/// worker <id> <seed> <tier> <first> <step> <count> <deadline_s> <outdir> <tag>
pub fn worker(a: &[String]) -> i32 {
	let prop = find(&a[0]).expect("harness: property");
	let seed: u64 = a[1].parse().unwrap();
	let tier = parse_tier(&a[2]);
	let (first, step, count): (u64, u64, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap());
	let deadline: u64 = a[6].parse().unwrap();
	let (outdir, tag) = (a[7].clone(), a[8].clone());
	install_panic_hook();
	open_journal(&format!("{}/{}.journal", outdir, tag));
	let t = std::thread::Builder::new()
		.stack_size(if std::env::var("MON_SANITIZED").is_ok() { 64 << 20 } else { 8 << 20 })
		.spawn(move || work(prop, seed, tier, first, step, count, deadline, &outdir, &tag))
		.unwrap();
	t.join().map(|_| 0).unwrap_or(70)
}

#[allow(clippy::too_many_arguments)]
fn work(prop: &'static Prop, seed: u64, tier: Tier, first: u64, step: u64, count: u64, deadline: u64, outdir: &str, tag: &str) {
	let start = Instant::now();
	let scratch = format!("{}/{}.scratch", outdir, tag);
	fs::create_dir_all(&scratch).unwrap();
	let mut c = Ctx::new(prop.id, seed, tier, scratch);
	let mut violations: Vec<Value> = vec![];
	let mut done = 0u64;
	let mut truncated = false;
	for i in 0..count {
		let idx = first + i * step;
		if i % 16 == 0 && start.elapsed().as_secs() >= deadline {
			truncated = true;
			break;
		}
		c.start(idx);
		if let Err(e) = (prop.case)(&mut c) {
			violations.push(json!({"idx": idx, "what": e}));
			if violations.len() >= 3 {
				done += 1;
				break;
			}
		}
		done += 1;
	}
	let fps: Vec<u8> = c.cov.fps.iter().flat_map(|x| x.to_le_bytes()).collect();
	fs::write(format!("{}/{}.fps", outdir, tag), fps).unwrap();
	let out = json!({
		"done": done, "truncated": truncated, "evals": c.cov.evals,
		"buckets": c.cov.buckets, "maxima": c.cov.maxima, "samples": c.cov.samples, "violations": violations,
	});
	fs::write(format!("{}/{}.json", outdir, tag), out.to_string()).unwrap();
}

/// A build of this program: the plain one, or one with a sanitizer.
#[derive(Clone)]
pub struct Build {
	pub name: String,
	pub exe: std::path::PathBuf,
	/// share of the cases it runs
	pub share: f64,
}
impl Build {
	fn plain() -> Build {
		Build { name: "plain".into(), exe: std::env::current_exe().unwrap(), share: 1.0 }
	}
}

/// MON_SANITIZED_BUILDS: "name=path=share;..."
fn sanitized_builds() -> Vec<Build> {
	std::env::var("MON_SANITIZED_BUILDS")
		.unwrap_or_default()
		.split(';')
		.filter_map(|b| {
			let f: Vec<&str> = b.split('=').collect();
			Some(Build { name: f.first()?.to_string(), exe: f.get(1)?.into(), share: f.get(2)?.parse().ok()? })
		})
		.collect()
}

fn is_report(err: &str) -> bool {
	["AddressSanitizer:", "ThreadSanitizer:", "MemorySanitizer:", "LeakSanitizer:"].iter().any(|m| err.contains(m))
}

#[allow(clippy::too_many_arguments)]
fn spawn(b: &Build, prop: &str, seed: u64, tier: Tier, first: u64, step: u64, count: u64, deadline: u64, out: &str, tag: &str) -> Child {
	let mut c = Command::new(&b.exe);
	if b.name != "plain" {
		c.env("MON_SANITIZED", &b.name)
			.env("ASAN_OPTIONS", "abort_on_error=1:detect_leaks=0:quarantine_size_mb=64:allocator_may_return_null=1")
			.env("TSAN_OPTIONS", "halt_on_error=1:abort_on_error=1:report_signal_unsafe=0");
	}
	c.args(["worker", prop, &seed.to_string(), tier_name(tier)])
		.args([first, step, count, deadline].map(|n| n.to_string()))
		.args([out, tag])
		.env("RUST_BACKTRACE", "0")
		.env("RUST_LIB_BACKTRACE", "0")
		.stdin(Stdio::null())
		.stdout(Stdio::null())
		.stderr(fs::File::create(format!("{}/{}.err", out, tag)).unwrap())
		.spawn()
		.expect("harness: worker")
}

fn journal(out: &str, tag: &str) -> Option<(u64, u64, u8)> {
	let b = fs::read(format!("{}/{}.journal", out, tag)).ok()?;
	if b.len() < 17 {
		return None;
	}
	let n = |r: std::ops::Range<usize>| u64::from_le_bytes(b[r].try_into().unwrap());
	Some((n(0..8), n(8..16), b[16]))
}

/// CPU seconds of the process and its children that have ended.
fn cpu_s(pid: u32) -> f64 {
	let s = match fs::read_to_string(format!("/proc/{}/stat", pid)) {
		Ok(s) => s,
		Err(_) => return 0.0,
	};
	let rest = s.rsplit(')').next().unwrap_or("");
	let f: Vec<&str> = rest.split_whitespace().collect();
	let n = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
	(n(11) + n(12)) / 100.0
}

enum End {
	Done,
	/// crashed, over the memory cap or hanging, inside the code under test, at this case
	Sut(u64, String),
	/// a report that stands by itself: of a sanitizer, or of threads that wait for each other
	Report(u64, String),
	Harness(String),
}

/// Waits for a worker, and attributes how it ended.
fn watch(child: &mut Child, out: &str, tag: &str, wall_cap: Duration) -> End {
	let start = Instant::now();
	let mut last = (u64::MAX, u64::MAX);
	let mut cpu_at = 0.0;
	let mut since = Instant::now();
	loop {
		if let Ok(Some(st)) = child.try_wait() {
			use std::os::unix::process::ExitStatusExt;
			if st.success() {
				return End::Done;
			}
			let err = fs::read_to_string(format!("{}/{}.err", out, tag)).unwrap_or_default();
			let j = journal(out, tag);
			return match (st.code(), st.signal(), j) {
				(Some(77), _, Some((idx, _, _))) => {
					End::Sut(idx, "the call holds more memory than its budget allows".into())
				}
				(_, Some(9), _) => End::Harness("worker was killed".into()),
				(_, _, Some((idx, _, _))) if is_report(&err) => End::Report(idx, clip(err.trim(), 4000)),
				(_, Some(sig), Some((idx, _, 1 | 4))) => {
					End::Sut(idx, format!("the process dies of signal {} inside the call: {}", sig, clip(err.trim(), 600)))
				}
				(code, sig, _) => End::Harness(format!("worker ended with {:?}/{:?}: {}", code, sig, clip(err.trim(), 2000))),
			};
		}
		if let Some((idx, calls, state)) = journal(out, tag) {
			if (idx, calls) != last {
				last = (idx, calls);
				cpu_at = cpu_s(child.id());
				since = Instant::now();
			} else if state == 4 && since.elapsed() > Duration::from_secs(240) {
				child.kill().ok();
				child.wait().ok();
				return End::Report(idx, "the threads do not return from their calls within 240 s".into());
			} else {
				let used = cpu_s(child.id()) - cpu_at;
				if used > HANG_CPU_S && state == 1 {
					child.kill().ok();
					child.wait().ok();
					return End::Sut(idx, format!("the call does not return within {} s of CPU time", HANG_CPU_S));
				}
			}
		}
		if start.elapsed() > wall_cap {
			child.kill().ok();
			child.wait().ok();
			return End::Harness("no end within the time allowed".into());
		}
		std::thread::sleep(Duration::from_millis(20));
	}
}

// ---------------------------------------------------------------- merging

#[derive(Default)]
pub struct Merged {
	pub done: u64,
	pub truncated: bool,
	pub evals: u64,
	pub buckets: BTreeMap<String, u64>,
	pub maxima: BTreeMap<String, u64>,
	pub samples: Vec<Value>,
	pub fps: HashSet<u64>,
	pub violations: Vec<(u64, String)>,
	pub errors: Vec<String>,
}

impl Merged {
	fn join(&mut self, o: Merged) {
		self.done += o.done;
		self.truncated |= o.truncated;
		self.evals += o.evals;
		for (k, n) in o.buckets {
			*self.buckets.entry(k).or_insert(0) += n;
		}
		for (k, n) in o.maxima {
			let e = self.maxima.entry(k).or_insert(0);
			*e = (*e).max(n);
		}
		self.samples.extend(o.samples);
		self.samples.truncate(6);
		self.fps.extend(o.fps);
		self.violations.extend(o.violations);
		self.errors.extend(o.errors);
	}
}

/// What runs the cases: this program, or for C18 the drivers built from generated ABI files.
fn primary_builds(
	id: &str,
	seed: u64,
	tier: Tier,
	only: Option<&str>,
	found: &mut Vec<(String, u64, String)>,
	errors: &mut Vec<String>,
	extra: &mut Map<String, Value>,
) -> Vec<Build> {
	if id != "C18" {
		return vec![Build::plain()];
	}
	let start = Instant::now();
	let w = crate::p_derive::prepare(seed, tier, only);
	errors.extend(w.errors);
	for (name, why) in w.failed {
		found.push((name.clone(), 0, format!("the bindings of /verif/build/derive/{} do not compile: {}", name, why)));
	}
	extra.insert("contracts".into(), json!(w.contracts));
	extra.insert("drivers".into(), json!(w.members.len()));
	extra.insert("build_s".into(), json!(start.elapsed().as_secs()));
	w.members.into_iter().map(|(name, exe)| Build { name, exe, share: 1.0 }).collect()
}

fn absorb(m: &mut Merged, out: &str, tag: &str) {
	if let Ok(b) = fs::read(format!("{}/{}.fps", out, tag)) {
		for w in b.chunks_exact(8) {
			m.fps.insert(u64::from_le_bytes(w.try_into().unwrap()));
		}
	}
	let v: Value = match fs::read_to_string(format!("{}/{}.json", out, tag)).ok().and_then(|s| serde_json::from_str(&s).ok()) {
		Some(v) => v,
		None => {
			m.errors.push(format!("worker {} left no result", tag));
			return;
		}
	};
	m.done += v["done"].as_u64().unwrap_or(0);
	m.truncated |= v["truncated"].as_bool().unwrap_or(false);
	m.evals += v["evals"].as_u64().unwrap_or(0);
	for (k, n) in v["buckets"].as_object().unwrap_or(&Map::new()) {
		*m.buckets.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
	}
	for (k, n) in v["maxima"].as_object().unwrap_or(&Map::new()) {
		let e = m.maxima.entry(k.clone()).or_insert(0);
		*e = (*e).max(n.as_u64().unwrap_or(0));
	}
	if m.samples.len() < 6 {
		m.samples.extend(v["samples"].as_array().cloned().unwrap_or_default());
		m.samples.truncate(6);
	}
	for x in v["violations"].as_array().unwrap_or(&vec![]) {
		m.violations.push((x["idx"].as_u64().unwrap_or(0), x["what"].as_str().unwrap_or("").to_string()));
	}
}

/// A scratch directory of this run.
pub fn scratch_dir(what: &str) -> String {
	let d = format!("{}/monitor-{}-{}", std::env::temp_dir().display(), what, std::process::id());
	fs::create_dir_all(&d).expect("harness: scratch");
	d
}

pub fn explore(build: &Build, prop: &'static Prop, seed: u64, tier: Tier) -> Merged {
	let out = scratch_dir(&format!("{}-{}", prop.id, build.name));
	let shards = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(2, 8) as u64;
	let total = match tier {
		Tier::Quick => prop.quick,
		Tier::Thorough => prop.thorough,
	};
	let total = ((total as f64 * scale() * build.share) as u64).max(shards);
	let deadline = match tier {
		Tier::Quick => 200,
		Tier::Thorough => 1500,
	};
	let mut m = Merged::default();
	let handles: Vec<_> = (0..shards)
		.map(|k| {
			let out = out.clone();
			let build = build.clone();
			std::thread::spawn(move || {
				let tag = format!("shard{}", k);
				let count = total / shards + (k < total % shards) as u64;
				let mut ch = spawn(&build, prop.id, seed, tier, k, shards, count, deadline, &out, &tag);
				let end = watch(&mut ch, &out, &tag, Duration::from_secs(deadline + 300));
				(tag, end)
			})
		})
		.collect();
	let ends: Vec<(String, End)> = handles.into_iter().map(|h| h.join().expect("harness: watcher")).collect();
	for (tag, end) in ends {
		match end {
			End::Done => absorb(&mut m, &out, &tag),
			End::Harness(e) => m.errors.push(e),
			End::Report(idx, what) => m.violations.push((idx, what)),
			End::Sut(idx, what) => {
				// again, alone: only a death that repeats is judged
				let tag = format!("{}-again", tag);
				let mut ch = spawn(build, prop.id, seed, tier, idx, 1, 1, 600, &out, &tag);
				match watch(&mut ch, &out, &tag, Duration::from_secs(400)) {
					End::Report(i, again) | End::Sut(i, again) => m.violations.push((i, format!("{} (and again: {})", what, again))),
					End::Done => {
						absorb(&mut m, &out, &tag);
						if m.violations.is_empty() {
							m.errors.push(format!("case {}: {}; not repeated alone", idx, what));
						}
					}
					End::Harness(e) => m.errors.push(format!("case {}: {}; then {}", idx, what, e)),
				}
			}
		}
	}
	m.violations.sort();
	fs::remove_dir_all(&out).ok();
	m
}

// ---------------------------------------------------------------- verdict

pub struct Report {
	pub id: String,
	pub seed: u64,
	pub tier: Tier,
	pub started: Instant,
}

impl Report {
	pub fn replay_file(&self, name: &str, v: &Value) -> String {
		let dir = format!("{}/replay", evidence_dir());
		fs::create_dir_all(&dir).ok();
		let path = format!("{}/{}-{}.json", dir, self.id, name);
		fs::write(&path, serde_json::to_string_pretty(v).unwrap()).expect("harness: replay file");
		path
	}

	pub fn evidence(&self, coverage: Value, assumptions: &[&str], violations: usize) {
		let v = json!({
			"property": self.id,
			"tier": tier_name(self.tier),
			"seed": self.seed,
			"level": "exploration",
			"coverage": coverage,
			"assumptions": assumptions,
			"wall_s": (self.started.elapsed().as_secs_f64() * 100.0).round() / 100.0,
			"violations": violations,
		});
		fs::create_dir_all(evidence_dir()).ok();
		let mut f = fs::File::create(format!("{}/{}.json", evidence_dir(), self.id)).expect("harness: evidence");
		f.write_all(serde_json::to_string_pretty(&v).unwrap().as_bytes()).expect("harness: evidence");
	}
}

pub fn check(id: &str) -> i32 {
	let prop = match find(id) {
		Some(p) => p,
		None => {
			eprintln!("no such property: {}", id);
			return 2;
		}
	};
	let rep = Report { id: id.into(), seed: env_seed(), tier: env_tier(), started: Instant::now() };
	let mut m = Merged::default();
	let mut found: Vec<(String, u64, String)> = vec![];
	let mut extra = Map::new();
	for b in primary_builds(id, rep.seed, rep.tier, None, &mut found, &mut m.errors, &mut extra) {
		let s = explore(&b, prop, rep.seed, rep.tier);
		found.extend(s.violations.iter().map(|(i, w)| (b.name.clone(), *i, w.clone())));
		m.join(s);
	}
	for (k, n) in m.buckets.iter().filter(|(k, _)| k.starts_with("known finding: ")) {
		println!("KNOWN-FINDING: property={} {} (seen {} times)", id, &k["known finding: ".len()..], n);
	}
	let mut errors = m.errors.clone();
	let mut builds = Map::new();
	for b in sanitized_builds() {
		if !found.is_empty() {
			break;
		}
		let s = explore(&b, prop, rep.seed ^ 0x5a5a, rep.tier);
		builds.insert(
			b.name.clone(),
			json!({"cases": s.done, "observations": s.evals, "distinct_nontrivial": s.fps.len(), "reports": s.violations.len(), "observed": s.buckets}),
		);
		found.extend(s.violations.iter().map(|(i, w)| (b.name.clone(), *i, w.clone())));
		errors.extend(s.errors.iter().map(|e| format!("{} build: {}", b.name, e)));
		println!("{}: {} build: {} observations in {} cases", id, b.name, s.evals, s.done);
	}
	let cov = json!({
		"sanitized_builds": builds,
		"drivers": extra,
		"evaluations": m.evals,
		"cases": m.done,
		"distinct_nontrivial": m.fps.len(),
		"rule": prop.rule,
		"samples": m.samples,
		"observed": m.buckets,
		"maxima": m.maxima,
		"stopped_early": m.truncated,
	});
	let violations = found.len();
	rep.evidence(cov, prop.assumptions, violations);
	println!(
		"{}: {} observations in {} cases, {} distinct non-trivial, {:.1} s",
		id,
		m.evals,
		m.done,
		m.fps.len(),
		rep.started.elapsed().as_secs_f64()
	);
	if violations > 0 {
		for (build, idx, what) in found.iter().take(5) {
			let path = rep.replay_file(
				&format!("{}-{}-{}", rep.seed, build, idx),
				&json!({
					"property": id, "build": build, "seed": if builds.contains_key(build) { rep.seed ^ 0x5a5a } else { rep.seed }, "tier": tier_name(rep.tier), "case": idx, "what": what,
					"fingerprint": format!("{:016x}", hash_bytes(what.as_bytes())),
					"run": format!("/verif/check.sh replay <this file>"),
				}),
			);
			println!("{}", printable(&clip(what, 4000)));
			println!("VIOLATION property={} replay={}", id, path);
		}
		return 1;
	}
	if !errors.is_empty() {
		errors.iter().for_each(|e| eprintln!("INCONCLUSIVE {}: {}", id, e));
		return 2;
	}
	if scale() >= 1.0 {
		for (b, n) in prop.floors {
			let got = m.buckets.get(*b).copied().unwrap_or(0);
			if got < *n {
				eprintln!("INCONCLUSIVE {}: only {} of at least {} observations of {:?}", id, got, n, b);
				return 2;
			}
		}
	}
	0
}

/// Runs the one case of a replay file.
pub fn replay(path: &str) -> i32 {
	let v: Value = match fs::read_to_string(path).ok().and_then(|s| serde_json::from_str(&s).ok()) {
		Some(v) => v,
		None => {
			eprintln!("cannot read {}", path);
			return 2;
		}
	};
	let id = v["property"].as_str().unwrap_or("").to_string();
	let prop = match find(&id) {
		Some(p) => p,
		None => return 2,
	};
	let (seed, idx) = (v["seed"].as_u64().unwrap_or(1), v["case"].as_u64().unwrap_or(0));
	let tier = parse_tier(v["tier"].as_str().unwrap_or(""));
	let name = v["build"].as_str().unwrap_or("plain");
	let mut m = Merged::default();
	let mut found = vec![];
	let prepared = match id.as_str() {
		"C18" => primary_builds(&id, seed, tier, Some(name), &mut found, &mut m.errors, &mut Map::new()),
		_ => vec![],
	};
	m.violations.extend(found.into_iter().map(|(_, i, w)| (i, w)));
	let build = match sanitized_builds().into_iter().chain(prepared).find(|b| b.name == name) {
		Some(b) => Some(b),
		None if id == "C18" => None,
		None => Some(Build::plain()),
	};
	// what depends on the schedule is tried again
	for build in build.iter().cycle().take(if id == "C19" { 30 } else { 1 }) {
		let out = scratch_dir("replay");
		let mut ch = spawn(build, prop.id, seed, tier, idx, 1, 1, 600, &out, "one");
		match watch(&mut ch, &out, "one", Duration::from_secs(600)) {
			End::Done => absorb(&mut m, &out, "one"),
			End::Report(i, w) | End::Sut(i, w) => m.violations.push((i, w)),
			End::Harness(e) => m.errors.push(e),
		}
		fs::remove_dir_all(&out).ok();
		if !m.violations.is_empty() || !m.errors.is_empty() {
			break;
		}
	}
	for (_, w) in &m.violations {
		println!("{}", printable(&w));
		println!("VIOLATION property={} replay={}", id, path);
	}
	m.errors.iter().for_each(|e| eprintln!("{}", e));
	match (m.violations.is_empty(), m.errors.is_empty()) {
		(false, _) => 1,
		(true, true) => {
			println!("{}: case {} held", id, idx);
			0
		}
		_ => 2,
	}
}

/// A few cases of the properties about values, in this very process: for an interpreter.
pub fn in_process(seed: u64, n: u64) -> i32 {
	install_panic_hook();
	let mut bad = 0;
	for id in ["C19", "C03"] {
		let prop = find(id).unwrap();
		let mut c = Ctx::new(prop.id, seed, Tier::Quick, String::new());
		for i in 0..if id == "C19" { n } else { 2 * n } {
			c.start(i);
			if let Err(e) = (prop.case)(&mut c) {
				println!("{} case {}: {}", id, i, e);
				bad += 1;
			}
		}
		println!("interpreted {}: {} observations {:?}", id, c.cov.evals, c.cov.buckets);
	}
	(bad > 0) as i32
}
