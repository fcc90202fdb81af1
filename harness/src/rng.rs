//! splitmix64 with the generation modes.
pub struct R {
	s: u64,
	/// One value in `bad` (0: none) is one that has no encoding.
	pub bad: u64,
	/// Whether (few) very long collections may be generated.
	pub long: bool,
	/// Whether every other outermost collection is long.
	pub big: bool,
	pub depth: u32,
}

impl R {
	pub fn new(seed: u64) -> Self { R { s: seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x1234_5678_9ABC_DEF1, bad: 0, long: false, big: false, depth: 0 } }
	pub fn u64(&mut self) -> u64 {
		self.s = self.s.wrapping_add(0x9E37_79B9_7F4A_7C15);
		let mut z = self.s;
		z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
		z ^ (z >> 31)
	}
	pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.u64() % n } }
	pub fn one_in(&mut self, n: u64) -> bool { n != 0 && self.below(n) == 0 }
	pub fn is_bad(&mut self) -> bool { let n = self.bad; self.one_in(n) }
	pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T { xs[self.below(xs.len() as u64) as usize] }
	/// Length of a collection.
	pub fn len(&mut self) -> usize {
		if self.depth == 1 && self.big && self.one_in(2) { let n = self.pick(&[60, 130, 256, 300]); return n - self.below(10) as usize }
		if self.depth == 1 && self.one_in(24) { return self.pick(&[15, 16, 17, 64, 127, 128, 129]) }
		if self.depth == 1 && self.long && self.one_in(40) { return self.pick(&[255, 256, 257, 300]) }
		self.pick(&[0, 0, 1, 1, 2, 2, 3, 4, 5])
	}
}
