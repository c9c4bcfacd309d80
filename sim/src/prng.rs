//! The only source of randomness: xoshiro256** seeded through splitmix64.
#[derive(Clone)]
pub struct Rng([u64; 4]);

pub fn splitmix(x: &mut u64) -> u64 {
	*x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
	let mut z = *x;
	z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
	z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
	z ^ (z >> 31)
}

pub fn hash_bytes(mut h: u64, b: &[u8]) -> u64 {
	for &x in b {
		h = (h ^ u64::from(x)).wrapping_mul(0x0000_0100_0000_01b3);
	}
	h
}
pub const FNV: u64 = 0xcbf2_9ce4_8422_2325;

impl Rng {
	pub fn new(seed: u64) -> Self {
		let mut s = seed;
		Rng([splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)])
	}
	pub fn u64(&mut self) -> u64 {
		let s = &mut self.0;
		let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
		let t = s[1] << 17;
		s[2] ^= s[0];
		s[3] ^= s[1];
		s[1] ^= s[2];
		s[0] ^= s[3];
		s[2] ^= t;
		s[3] = s[3].rotate_left(45);
		r
	}
	pub fn below(&mut self, n: usize) -> usize {
		if n == 0 {
			return 0;
		}
		((u128::from(self.u64()) * n as u128) >> 64) as usize
	}
	/// Inclusive range.
	pub fn range(&mut self, lo: usize, hi: usize) -> usize {
		lo + self.below(hi - lo + 1)
	}
	pub fn chance(&mut self, num: usize, den: usize) -> bool {
		self.below(den) < num
	}
	pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
		&v[self.below(v.len())]
	}
	/// Index drawn with the given weights.
	pub fn weighted(&mut self, w: &[usize]) -> usize {
		let total: usize = w.iter().sum();
		let mut x = self.below(total);
		for (i, &v) in w.iter().enumerate() {
			if x < v {
				return i;
			}
			x -= v;
		}
		w.len() - 1
	}
	/// Geometric with the given mean (at least 1).
	pub fn geometric(&mut self, mean: u64) -> u64 {
		let u = ((self.u64() >> 11) as f64 + 1.0) / (1u64 << 53) as f64;
		let x = -(u.ln()) * mean as f64;
		(x as u64).max(1)
	}
}
