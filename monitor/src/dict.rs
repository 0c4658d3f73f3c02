//! Dictionary of the literals in the sources under test (numbers, strings), used by the
//! generators like a fuzzer's dictionary: it only steers inputs, never the verdict. Literals that the
//! sources did not have when `literals.txt` was written come up more often.

use crate::rng::Rng;
use std::collections::BTreeSet;
use std::path::Path;
use std::sync::OnceLock;

#[derive(Default)]
pub struct Dict {
	pub nums: Vec<u64>,
	pub strs: Vec<String>,
	/// Those not listed in `literals.txt`.
	pub new_nums: Vec<u64>,
	pub new_strs: Vec<String>,
}

/// A number of the dictionary.
pub fn a_num(r: &mut Rng) -> u64 {
	new_num(r, 1, 2).unwrap_or_else(|| *r.pick(&dict().nums))
}
/// A string of the dictionary.
pub fn a_str(r: &mut Rng) -> &'static str {
	new_str(r, 1, 2).unwrap_or_else(|| r.pick(&dict().strs))
}
/// A number close to a new one, in n of m cases if there is any.
pub fn new_num(r: &mut Rng, n: usize, m: usize) -> Option<u64> {
	let d = dict();
	if d.new_nums.is_empty() || !r.chance(n, m) {
		return None;
	}
	let x = *r.pick(&d.new_nums);
	Some(match r.below(10) {
		0 => x.wrapping_add(1),
		1 => x.wrapping_sub(1),
		2 => x.saturating_mul(32),
		3 => x.saturating_mul(2),
		4 => x.saturating_add(1 + r.below(16) as u64),
		_ => x,
	})
}
/// A new string, in n of m cases if there is any.
pub fn new_str(r: &mut Rng, n: usize, m: usize) -> Option<&'static str> {
	let d = dict();
	if d.new_strs.is_empty() || !r.chance(n, m) {
		return None;
	}
	Some(r.pick(&d.new_strs))
}
/// A new number as a count of at most `max`, in n of m cases if there is any.
pub fn new_count(r: &mut Rng, max: usize, n: usize, m: usize) -> Option<usize> {
	new_num(r, n, m).filter(|x| *x <= max as u64).map(|x| x as usize)
}

/// The dictionary in the format of `literals.txt`.
pub fn write_literals() {
	for n in &dict().nums {
		println!("{}", n);
	}
	for s in &dict().strs {
		println!("{:?}", s);
	}
}

static DICT: OnceLock<Dict> = OnceLock::new();

pub fn dict() -> &'static Dict {
	DICT.get_or_init(|| {
		if cfg!(miri) {
			return Dict { nums: vec![0], strs: vec!["a".into()], ..Dict::default() };
		}
		let mut nums = BTreeSet::new();
		let mut strs = BTreeSet::new();
		for dir in ["/repo/ethabi/src", "/repo/cli/src", "/repo/derive/src", "/repo/contract/src"] {
			scan_dir(Path::new(dir), &mut nums, &mut strs);
		}
		nums.insert(0);
		strs.insert(String::new());
		let known: BTreeSet<&str> = include_str!("../literals.txt").lines().collect();
		Dict {
			new_nums: nums.iter().filter(|n| !known.contains(&*n.to_string())).cloned().collect(),
			new_strs: strs.iter().filter(|s| !known.contains(&*format!("{:?}", s))).cloned().collect(),
			nums: nums.into_iter().collect(),
			strs: strs.into_iter().collect(),
		}
	})
}

fn scan_dir(dir: &Path, nums: &mut BTreeSet<u64>, strs: &mut BTreeSet<String>) {
	let mut entries: Vec<_> = match std::fs::read_dir(dir) {
		Ok(d) => d.flatten().map(|e| e.path()).collect(),
		Err(_) => return,
	};
	entries.sort();
	for p in entries {
		if p.is_dir() {
			scan_dir(&p, nums, strs);
		} else if p.extension().map_or(false, |e| e == "rs") && p.file_name().map_or(true, |n| n != "tests.rs") {
			if let Ok(text) = std::fs::read_to_string(&p) {
				let code = text.split("#[cfg(test)]").next().unwrap_or("");
				scan(code, nums, strs);
			}
		}
	}
}

fn scan(code: &str, nums: &mut BTreeSet<u64>, strs: &mut BTreeSet<String>) {
	for line in code.lines() {
		let line = match line.trim_start() {
			l if l.starts_with("//") => continue,
			l => l,
		};
		let b: Vec<char> = line.chars().collect();
		let mut i = 0;
		let mut last: Option<(usize, u64)> = None;
		while i < b.len() {
			let c = b[i];
			if c == '"' {
				let mut s = String::new();
				i += 1;
				while i < b.len() && b[i] != '"' {
					if b[i] == '\\' && i + 1 < b.len() {
						i += 1;
						s.push(match b[i] {
							'n' => '\n',
							't' => '\t',
							'r' => '\r',
							'0' => '\0',
							c => c,
						});
						i += 1;
						continue;
					}
					s.push(b[i]);
					i += 1;
				}
				if s.len() <= 64 {
					strs.insert(s);
				}
			} else if c == '\'' && i + 2 < b.len() && b[i + 2] == '\'' {
				strs.insert(b[i + 1].to_string());
				i += 2;
			} else if c == '\'' && i + 3 < b.len() && b[i + 1] == '\\' && b[i + 3] == '\'' {
				strs.insert(match b[i + 2] {
					'n' => "\n".into(),
					't' => "\t".into(),
					'r' => "\r".into(),
					'0' => "\0".into(),
					c => c.to_string(),
				});
				i += 3;
			} else if c.is_ascii_digit() && (i == 0 || !(b[i - 1].is_alphanumeric() || b[i - 1] == '_')) {
				let mut s = String::new();
				let start = i;
				while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '_') {
					if b[i] != '_' {
						s.push(b[i]);
					}
					i += 1;
				}
				let s = s.to_lowercase();
				let n = if let Some(h) = s.strip_prefix("0x") {
					u64::from_str_radix(h.trim_end_matches("usize"), 16).ok()
				} else {
					let digits: String = s.chars().take_while(|c| c.is_ascii_digit()).collect();
					digits.parse().ok()
				};
				if let Some(n) = n {
					nums.insert(n);
					// 1 << 16, 32 * 1024
					if let Some((end, m)) = last {
						let between: String = b[end..start].iter().filter(|c| !c.is_whitespace()).collect();
						match &between[..] {
							"<<" if n < 64 => {
								nums.insert(m.checked_shl(n as u32).unwrap_or(0));
							}
							"*" => {
								nums.insert(m.saturating_mul(n));
							}
							".pow(" | "usize.pow(" | "u32.pow(" | "u64.pow(" => {
								nums.insert(m.saturating_pow(n.min(64) as u32));
							}
							_ => {}
						}
					}
					last = Some((i, n));
				}
				continue;
			}
			i += 1;
		}
	}
}
