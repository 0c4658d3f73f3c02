//! Observation: the boundary around every call into the code under test (panics, memory, CPU
//! time, journal of the call in progress), and the counters of what was observed.

use crate::rng::{hash_bytes, mix, Rng};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::sync::OnceLock;

pub type Res = Result<(), String>;

// ---------------------------------------------------------------- memory

pub struct Counting;

thread_local! {
	static ACTIVE: Cell<bool> = const { Cell::new(false) };
	static LIVE: Cell<i64> = const { Cell::new(0) };
	static PEAK: Cell<i64> = const { Cell::new(0) };
	static TOTAL: Cell<u64> = const { Cell::new(0) };
	static IN_SUT: Cell<u32> = const { Cell::new(0) };
}
/// A monitored call that holds more than this is stopped (exit code 77, attributed by the parent).
pub static HARD_CAP: AtomicI64 = AtomicI64::new(2 << 30);

fn grow(n: usize) {
	let _ = ACTIVE.try_with(|a| {
		if a.get() {
			let live = LIVE.with(|l| {
				l.set(l.get() + n as i64);
				l.get()
			});
			PEAK.with(|p| p.set(p.get().max(live)));
			TOTAL.with(|t| t.set(t.get() + n as u64));
			if live > HARD_CAP.load(Ordering::Relaxed) {
				a.set(false);
				set_journal_state(3);
				std::process::exit(77);
			}
		}
	});
}
fn shrink(n: usize) {
	let _ = ACTIVE.try_with(|a| {
		if a.get() {
			LIVE.with(|l| l.set(l.get() - n as i64));
		}
	});
}

unsafe impl GlobalAlloc for Counting {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		grow(l.size());
		System.alloc(l)
	}
	unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
		grow(l.size());
		System.alloc_zeroed(l)
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		shrink(l.size());
		System.dealloc(p, l)
	}
	unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
		if n > l.size() {
			grow(n - l.size())
		} else {
			shrink(l.size() - n)
		}
		System.realloc(p, l, n)
	}
}

// ---------------------------------------------------------------- time

#[repr(C)]
struct Timespec(i64, i64);
extern "C" {
	fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
}
pub fn thread_cpu_ns() -> u64 {
	if cfg!(miri) {
		return 0;
	}
	let mut t = Timespec(0, 0);
	unsafe { clock_gettime(3, &mut t) };
	t.0 as u64 * 1_000_000_000 + t.1 as u64
}

// ---------------------------------------------------------------- journal

/// (case, calls into the code under test so far, 0 = outside, 1 = inside, 3 = memory cap hit, 4 = several threads inside)
static JOURNAL: OnceLock<File> = OnceLock::new();
static CALLS: AtomicU64 = AtomicU64::new(0);

pub fn open_journal(path: &str) {
	let f = File::create(path).expect("harness: journal");
	JOURNAL.set(f).ok();
}
pub fn set_journal_case(idx: u64) {
	if let Some(f) = JOURNAL.get() {
		f.write_at(&idx.to_le_bytes(), 0).ok();
	}
}
fn set_journal_state(state: u8) {
	if let Some(f) = JOURNAL.get() {
		let mut b = [0u8; 9];
		b[..8].copy_from_slice(&CALLS.load(Ordering::Relaxed).to_le_bytes());
		b[8] = state;
		f.write_at(&b, 8).ok();
	}
}

// ---------------------------------------------------------------- the monitored call

#[derive(Default, Clone, Copy, Debug)]
pub struct Meter {
	pub peak: u64,
	pub total: u64,
	pub cpu_ns: u64,
}

fn enter() {
	IN_SUT.with(|c| c.set(c.get() + 1));
	CALLS.fetch_add(1, Ordering::Relaxed);
	set_journal_state(1);
	LIVE.with(|l| l.set(0));
	PEAK.with(|l| l.set(0));
	TOTAL.with(|l| l.set(0));
}

fn leave() {
	IN_SUT.with(|c| c.set(c.get() - 1));
	set_journal_state(0);
}

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
	if let Some(s) = e.downcast_ref::<&str>() {
		s.to_string()
	} else if let Some(s) = e.downcast_ref::<String>() {
		s.clone()
	} else {
		"?".into()
	}
}

/// Calls into the code under test. A panic is a violation, whatever the property.
pub fn sut<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
	enter();
	ACTIVE.with(|a| a.set(true));
	let r = catch_unwind(AssertUnwindSafe(f));
	ACTIVE.with(|a| a.set(false));
	leave();
	r.map_err(|e| format!("{} panicked: {}", what, panic_text(e)))
}

/// As `sut`, within a concurrent section: without the journal, which has a single entry.
pub fn sut_quiet<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
	IN_SUT.with(|c| c.set(c.get() + 1));
	let r = catch_unwind(AssertUnwindSafe(f));
	IN_SUT.with(|c| c.set(c.get() - 1));
	r.map_err(|e| format!("{} panicked: {}", what, panic_text(e)))
}

/// Several threads are about to call (or have called) into the code under test.
pub fn concurrent_section(on: bool) {
	CALLS.fetch_add(1, Ordering::Relaxed);
	set_journal_state(if on { 4 } else { 0 });
}

/// As `sut`, and measures the memory and CPU time of the call.
pub fn sut_metered<T>(what: &str, f: impl FnOnce() -> T) -> Result<(T, Meter), String> {
	enter();
	let t0 = thread_cpu_ns();
	ACTIVE.with(|a| a.set(true));
	let r = catch_unwind(AssertUnwindSafe(f));
	ACTIVE.with(|a| a.set(false));
	let cpu_ns = thread_cpu_ns() - t0;
	let m = Meter {
		peak: PEAK.with(|p| p.get()) as u64,
		total: TOTAL.with(|p| p.get()),
		cpu_ns,
	};
	leave();
	r.map(|r| (r, m)).map_err(|e| format!("{} panicked: {}", what, panic_text(e)))
}

/// Panics inside monitored calls are caught and judged; any other panic is a defect of the harness.
pub fn install_panic_hook() {
	let default = std::panic::take_hook();
	std::panic::set_hook(Box::new(move |info| {
		if IN_SUT.with(|c| c.get()) == 0 {
			default(info);
			eprintln!("HARNESS PANIC");
			std::process::exit(70);
		}
	}));
}

// ---------------------------------------------------------------- the case in progress

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
	Quick,
	Thorough,
}

#[derive(Default)]
pub struct Cov {
	pub evals: u64,
	pub buckets: BTreeMap<String, u64>,
	pub maxima: BTreeMap<String, u64>,
	pub fps: HashSet<u64>,
	pub samples: Vec<String>,
}

pub struct Ctx {
	pub prop: &'static str,
	pub seed: u64,
	pub tier: Tier,
	pub idx: u64,
	pub rng: Rng,
	pub cov: Cov,
	pub scratch: String,
}

impl Ctx {
	pub fn new(prop: &'static str, seed: u64, tier: Tier, scratch: String) -> Ctx {
		Ctx { prop, seed, tier, idx: 0, rng: Rng::new(0), cov: Cov::default(), scratch }
	}
	pub fn start(&mut self, idx: u64) {
		self.idx = idx;
		self.rng = Rng::new(mix(self.seed) ^ mix(hash_bytes(self.prop.as_bytes())) ^ mix(idx.wrapping_mul(0x9e37)));
		set_journal_case(idx);
	}
	/// One observation of the code under test was compared with the oracle.
	pub fn obs(&mut self, bucket: &str) {
		self.cov.evals += 1;
		self.count(bucket);
	}
	/// Counts without being an observation.
	pub fn count(&mut self, bucket: &str) {
		match self.cov.buckets.get_mut(bucket) {
			Some(n) => *n += 1,
			None => {
				self.cov.buckets.insert(bucket.to_string(), 1);
			}
		}
	}
	pub fn max(&mut self, what: &str, n: u64) {
		let m = self.cov.maxima.entry(what.to_string()).or_insert(0);
		*m = (*m).max(n);
	}
	/// Fingerprint of a non-trivial case.
	pub fn nontrivial(&mut self, fp: &[u8]) {
		// a lower bound in long runs
		if self.cov.fps.len() < 4_000_000 {
			self.cov.fps.insert(hash_bytes(fp));
		}
	}
	pub fn sample(&mut self, f: impl FnOnce() -> String) {
		if self.cov.samples.len() < 2 && self.idx % 5 == 3 {
			self.cov.samples.push(clip(&f(), 400));
		}
	}
}

pub fn clip(s: &str, n: usize) -> String {
	if s.len() <= n {
		return s.to_string();
	}
	let mut end = n;
	while !s.is_char_boundary(end) {
		end -= 1;
	}
	format!("{}... ({} bytes)", &s[..end], s.len())
}

#[macro_export]
macro_rules! ensure {
	($cond:expr, $($arg:tt)+) => {
		if !$cond {
			return Err(format!($($arg)+));
		}
	};
}

/// Without control characters other than line ends.
pub fn printable(s: &str) -> String {
	s.chars().map(|c| if c.is_control() && c != '\n' { '\u{fffd}' } else { c }).collect()
}
