//! Conformance harness: executes the real `oct` crate and records what it does
//! as NDJSON events that the TLA+ trace specifications validate.
//! Projections (`M`, `EE`, `DE`) read values and errors without using `oct`'s own logic.
pub mod json;
pub mod rng;
pub mod model;
pub mod errs;
pub mod gen;
pub mod reg;
pub mod trace;
pub mod types;
pub mod session;
pub mod redzone;
pub mod item;
pub mod codec;
pub mod sweep;

/// Byte strings much like the given one (itself and rearrangements of it
/// among them), for comparisons.
pub fn neighbours(w: &[u8]) -> Vec<Vec<u8>> {
	let n = w.len();
	let mut v = vec![w.to_vec(), w.iter().map(|x| x ^ 0x20).collect(), w.iter().map(|x| x ^ 0x80).collect()];
	if n > 1 << 14 { return v }
	v.push([w, w].concat());
	let mut with = |f: &dyn Fn(&mut Vec<u8>)| { let mut x = w.to_vec(); f(&mut x); v.push(x) };
	with(&|x| x.reverse());
	with(&|x| x.sort_unstable());
	for k in [2, 4, 8, 16] {
		with(&|x| x[n - n % k..].reverse());
		with(&|x| x[..n - n % k].reverse());
		with(&|x| for c in x.chunks_mut(k) { c.reverse() });
	}
	if n > 0 {
		with(&|x| x.rotate_left(1));
		with(&|x| x.rotate_right(1));
		with(&|x| x.swap(0, n - 1));
	}
	let some = |i: &usize| n <= 40 || *i < 9 || n - *i < 10 || *i % (n / 5) == 0;
	for i in (0..n).filter(some) {
		with(&|x| x[i] ^= 1);
		with(&|x| x[i] = x[i].wrapping_add(0x40));
		if i + 1 < n {
			with(&|x| x.swap(i, i + 1));
			// The same sum, and the same exclusive disjunction.
			with(&|x| { x[i] = x[i].wrapping_add(1); x[i + 1] = x[i + 1].wrapping_sub(1) });
			with(&|x| { x[i] ^= 4; x[i + 1] ^= 4 });
		}
		if i + 8 < n { with(&|x| x.swap(i, i + 8)) }
	}
	v
}
