//! Own deterministic generator, so that a case is fully given by its seed.
#[derive(Clone)]
pub struct Rng(u64, u64);

pub fn mix(mut z: u64) -> u64 {
	z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
	z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
	z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
	z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
	s.bytes()
		.fold(0xcbf2_9ce4_8422_2325, |h, b| mix(h ^ b as u64))
}

impl Rng {
	pub fn new(seed: u64) -> Self {
		let a = mix(seed);
		Rng(a | 1, mix(a ^ 0xABCD))
	}
	pub fn next(&mut self) -> u64 {
		// xoroshiro128-like
		let (s0, mut s1) = (self.0, self.1);
		let r = s0.wrapping_add(s1).rotate_left(17).wrapping_add(s0);
		s1 ^= s0;
		self.0 = s0.rotate_left(49) ^ s1 ^ (s1 << 21);
		self.1 = s1.rotate_left(28);
		r
	}
	/// Uniform below `n` (`n > 0`).
	pub fn below(&mut self, n: usize) -> usize {
		((self.next() as u128 * n as u128) >> 64) as usize
	}
	/// Uniform in `a..=b`.
	pub fn range(&mut self, a: usize, b: usize) -> usize {
		a + self.below(b - a + 1)
	}
	pub fn chance(&mut self, num: usize, den: usize) -> bool {
		self.below(den) < num
	}
	pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
		xs[self.below(xs.len())]
	}
	pub fn shuffle<T>(&mut self, xs: &mut [T]) {
		for i in (1..xs.len()).rev() {
			let j = self.below(i + 1);
			xs.swap(i, j);
		}
	}
	/// Log-uniform in `1..=max`.
	pub fn logu(&mut self, max: usize) -> usize {
		let bits = usize::BITS - max.leading_zeros();
		let b = self.below(bits as usize) as u32;
		let lo = 1usize << b;
		let hi = ((lo << 1) - 1).min(max);
		self.range(lo.min(hi), hi)
	}
}
