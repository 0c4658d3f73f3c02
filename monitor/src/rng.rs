//! Deterministic generator: every choice of a case follows from (seed, property, index).

#[derive(Clone)]
pub struct Rng(u64, u64);

pub fn mix(mut z: u64) -> u64 {
	z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
	z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
	z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
	z ^ (z >> 31)
}

pub fn hash_bytes(bytes: &[u8]) -> u64 {
	let mut h = 0xcbf2_9ce4_8422_2325u64;
	for c in bytes.chunks(8) {
		let mut w = [0u8; 8];
		w[..c.len()].copy_from_slice(c);
		h = mix(h ^ u64::from_le_bytes(w) ^ ((c.len() as u64) << 56));
	}
	mix(h ^ bytes.len() as u64)
}

impl Rng {
	pub fn new(seed: u64) -> Rng {
		Rng(mix(seed), mix(seed ^ 0xdead_beef_1234_5678) | 1)
	}
	pub fn next(&mut self) -> u64 {
		let (mut a, b) = (self.0, self.1);
		let r = a.wrapping_add(b);
		a ^= a << 23;
		self.1 = a ^ b ^ (a >> 17) ^ (b >> 26);
		self.0 = b;
		mix(r)
	}
	/// 0 <= x < n
	pub fn below(&mut self, n: usize) -> usize {
		if n == 0 {
			return 0;
		}
		(self.next() % n as u64) as usize
	}
	/// a <= x <= b
	pub fn range(&mut self, a: usize, b: usize) -> usize {
		a + self.below(b - a + 1)
	}
	/// true in n of m cases
	pub fn chance(&mut self, n: usize, m: usize) -> bool {
		self.below(m) < n
	}
	pub fn bool(&mut self) -> bool {
		self.next() & 1 == 1
	}
	pub fn pick<'a, T>(&mut self, of: &'a [T]) -> &'a T {
		&of[self.below(of.len())]
	}
	pub fn bytes(&mut self, n: usize) -> Vec<u8> {
		let mut v = Vec::with_capacity(n + 8);
		while v.len() < n {
			v.extend_from_slice(&self.next().to_le_bytes());
		}
		v.truncate(n);
		v
	}
	pub fn shuffle<T>(&mut self, v: &mut [T]) {
		for i in (1..v.len()).rev() {
			v.swap(i, self.below(i + 1));
		}
	}
}
