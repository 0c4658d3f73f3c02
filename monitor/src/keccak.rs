//! Keccak-256, written from the specification, independent of the crate the code under test uses.

fn f1600(a: &mut [u64; 25]) {
	// round constants from the LFSR of the specification
	let mut lfsr = 1u8;
	for _ in 0..24 {
		// theta
		let mut c = [0u64; 5];
		for x in 0..5 {
			c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
		}
		for x in 0..5 {
			let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
			for y in 0..5 {
				a[x + 5 * y] ^= d;
			}
		}
		// rho and pi
		let (mut x, mut y) = (1usize, 0usize);
		let mut cur = a[x + 5 * y];
		for t in 0..24u32 {
			let (nx, ny) = (y, (2 * x + 3 * y) % 5);
			x = nx;
			y = ny;
			let next = a[x + 5 * y];
			a[x + 5 * y] = cur.rotate_left((t + 1) * (t + 2) / 2 % 64);
			cur = next;
		}
		// chi
		for y in 0..5 {
			let row = [a[5 * y], a[5 * y + 1], a[5 * y + 2], a[5 * y + 3], a[5 * y + 4]];
			for x in 0..5 {
				a[5 * y + x] = row[x] ^ (!row[(x + 1) % 5] & row[(x + 2) % 5]);
			}
		}
		// iota
		for j in 0..7u32 {
			let bit = (1u64 << j) - 1;
			if lfsr & 1 == 1 {
				a[0] ^= 1u64 << bit;
			}
			lfsr = (lfsr << 1) ^ (if lfsr & 0x80 != 0 { 0x71 } else { 0 });
		}
	}
}

pub fn keccak256(data: &[u8]) -> [u8; 32] {
	const RATE: usize = 136;
	let mut a = [0u64; 25];
	let mut absorb = |block: &[u8]| {
		for (i, w) in block.chunks(8).enumerate() {
			let mut b = [0u8; 8];
			b.copy_from_slice(w);
			a[i] ^= u64::from_le_bytes(b);
		}
		f1600(&mut a);
	};
	let mut chunks = data.chunks_exact(RATE);
	for c in &mut chunks {
		absorb(c);
	}
	let rest = chunks.remainder();
	let mut last = [0u8; RATE];
	last[..rest.len()].copy_from_slice(rest);
	last[rest.len()] ^= 1;
	last[RATE - 1] ^= 0x80;
	absorb(&last);
	let mut out = [0u8; 32];
	for i in 0..4 {
		out[8 * i..8 * i + 8].copy_from_slice(&a[i].to_le_bytes());
	}
	out
}

pub fn self_test() {
	assert_eq!(
		crate::model::hex(&keccak256(b"")),
		"c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470"
	);
	assert_eq!(crate::model::hex(&keccak256(b"transfer(address,uint256)")[..4]), "a9059cbb");
	assert_eq!(
		crate::model::hex(&keccak256(b"Transfer(address,address,uint256)")),
		"ddf252ad1be2c89b69c2b068fc378daa952ba7f163c4a11628f55a4df523b3ef"
	);
}
