//! Sweeps: whole ranges of inputs of one type in one event.
//!   all    every value of one or two bytes of an encoding, outcome by outcome
//!   runs   a range of four-byte encodings, as maximal runs of equal behaviour
//!   ints   a range of `usize` or `isize` values encoded, as such runs
//!   lens   every length of a collection in a range, as such runs
//! A run is told by its outcome: accepted (0), refused (1) or anything else (2).
//! Accepted means that the number read is the number written and that encoding
//! it again gives the same bytes; whether it was right to accept or to refuse, and
//! what values and errors look like at the ends of each run, is for the specification.
use crate::errs::{DE, E, EE};
use crate::json::{bytes, i, s, J};
use crate::model::M;
use crate::reg::Case;
use crate::rng::R;
use crate::trace::{call, T};
use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output};
use std::collections::HashMap;
use std::ffi::CString;
use std::net::Ipv4Addr;
use std::num::NonZero;

fn outcome(c: &Case, b: &[u8], buf: &mut [u8]) -> J {
	let mut inp = Input::new(b);
	let r = call(|| (c.dec.unwrap())(&mut inp));
	let p = inp.position().min(1 << 20);
	let (r, v, e, bk) = match r {
		None => (2, J::I(0), E::none().j(), -1),
		Some(Err(e)) => (1, J::I(0), e.j(), -1),
		Some(Ok(o)) => {
			let bk = if c.gen.is_none() { -1 } else {
				call(|| { let mut out = Output::new(buf); o.enc(&mut out).is_ok() && p <= b.len() && out.as_slice() == &b[..p] }).map_or(0, i64::from)
			};
			(0, o.val(), E::none().j(), bk)
		}
	};
	J::O(vec![("r", J::I(r)), ("v", v), ("e", e), ("p", i(p)), ("bk", J::I(bk))])
}

fn all_of(t: &mut T, c: &Case, pre: &[u8], w: u32, suf: &[u8]) {
	t.begin(&format!("decode {} from {pre:?} ++ every {w} bytes ++ {suf:?}", c.name));
	let mut table: HashMap<String, usize> = HashMap::new();
	let mut outs = vec![];
	let mut ix = vec![];
	let mut buf = vec![0; 1 << 16];
	let mut size = 0;
	let mut b = [pre, &vec![0; w as usize], suf].concat();
	for x in 0..1u32 << (8 * w) {
		b[pre.len()..pre.len() + w as usize].copy_from_slice(&x.to_le_bytes()[..w as usize]);
		let o = outcome(c, &b, &mut buf);
		let key = o.to_string();
		let n = *table.entry(key).or_insert_with_key(|k| { size += k.len(); outs.push(o); outs.len() });
		if size > 60_000 << (3 * w) { return } // unwieldy
		ix.push(i(n));
	}
	t.ev("all", vec![("t", s(c.name)), ("pre", bytes(pre)), ("w", J::I(i64::from(w))), ("suf", bytes(suf)), ("outs", J::A(outs)), ("ix", J::A(ix))]);
}

/// Every first byte (behind a prefix) of every type, and `count` sweeps over two bytes.
pub fn all(t: &mut T, cs: &[Case], r: &mut R, count: u32, tag: &str) {
	let pool: Vec<&Case> = cs.iter().filter(|c| c.dec.is_some() && !c.tags.contains(&"huge") && (tag == "any" || c.tags.iter().any(|t| *t == tag))).collect();
	if pool.is_empty() { return }
	let fill = |r: &mut R| -> Vec<u8> { (0..r.pick(&[0, 1, 4, 12, 24])).map(|k| if k == 0 { r.pick(&[0, 0, 0, 1]) } else { r.pick(&[0, 0, 0, 1, 1, 2, 4, 0x41]) }).collect() };
	for c in &pool {
		let pre = if r.one_in(2) { vec![] } else { vec![r.pick(&[0, 1, 2])] };
		if c.name.contains("Set<()>") { continue } // of any length
		let suf = fill(r);
		all_of(t, c, &pre, 1, &suf);
	}
	for _ in 0..count {
		let named = r.pick(&["", "usize", "isize", "u16", "i16", "NonZero<u16>", "NonZero<i16>", "NonZero<usize>", "NonZero<isize>", "Option<u8>", "char", "String", "String", "String", "CString", "Vec<u8>", "SizedStr<4>"]);
		let c = match pool.iter().find(|c| c.name == named) { Some(c) => c, None => pool[r.below(pool.len() as u64) as usize] };
		let (pre, suf): (Vec<u8>, Vec<u8>) = match named {
			"char" => (vec![], vec![r.below(18) as u8, 0]),
			"String" | "SizedStr<4>" => {
				let any = 0xE0 + (r.u64() & 15) as u8;
				let lead = r.pick(&[0xE0, 0xE1, 0xED, 0xEF, any]);
				match r.below(5) {
					0 => (vec![2, 0], vec![]),
					1 => (vec![3, 0, lead], vec![]),
					2 => (vec![4, 0, r.pick(&[0xF0, 0xF1, 0xF3, 0xF4]), r.pick(&[0x80, 0x8F, 0x90, 0xBF])], vec![]),
					3 => (vec![4, 0], vec![r.pick(&[0x80, 0xBF, 0xC0]), r.pick(&[0x80, 0xBF, 0x7F])]),
					_ => (vec![3, 0], vec![r.pick(&[0x80, 0xBF, 0xC0, 0x61])]),
				}
			}
			"CString" | "Vec<u8>" => (vec![2, 0], vec![]),
			"Option<u8>" => (vec![], vec![]),
			_ => (vec![], fill(r)),
		};
		all_of(t, c, &pre, 2, &suf);
	}
}

fn halves(x: u32) -> J { J::A(vec![J::I(i64::from(x >> 16)), J::I(i64::from(x & 0xFFFF))]) }

/// Maximal runs of equal outcomes over from..=to, at most 40 of them.
struct Runs { rs: Vec<(u32, u32, i64)>, full: bool }
impl Runs {
	fn over(from: u32, to: u32, step: u32, mut f: impl FnMut(u32) -> i64) -> (Runs, u32) {
		let mut me = Runs { rs: vec![], full: false };
		let mut x = from;
		loop {
			let r = f(x);
			match me.rs.last_mut() {
				Some(l) if l.2 == r => l.1 = x,
				_ => { if me.rs.len() == 40 { me.full = true; break } me.rs.push((x, x, r)) }
			}
			let Some(y) = x.checked_add(step) else { break };
			if y > to { break }
			x = y;
		}
		let end = me.rs.last().unwrap().1;
		(me, end)
	}
	fn j(&self, mut f: impl FnMut(u32) -> J) -> J {
		J::A(self.rs.iter().map(|&(lo, hi, r)| J::O(vec![("lo", halves(lo)), ("hi", halves(hi)), ("r", J::I(r)), ("a", f(lo)), ("z", f(hi))])).collect())
	}
}


fn find<'a>(cs: &'a [Case], name: &str) -> &'a Case { cs.iter().find(|c| c.name == name).unwrap_or_else(|| panic!("no type {name}")) }

fn runs_of(t: &mut T, c: &Case, from: u32, to: u32, f: impl FnMut(u32) -> i64) {
	t.begin(&format!("decode {} from each of {from}..={to}", c.name));
	let mut buf = vec![0; 64];
	let (rs, end) = Runs::over(from, to, 1, f);
	t.ev("runs", vec![("t", s(c.name)), ("from", halves(from)), ("to", halves(end)), ("rs", rs.j(|x| outcome(c, &x.to_le_bytes(), &mut buf)))]);
}

/// How an input of four bytes is decoded: the value's bits, or what the error says.
fn four<X: Decode + Encode>(x: u32, bits: impl FnOnce(&X) -> u32, err: impl FnOnce(&<X as Decode>::Error) -> bool) -> i64 {
	let b = x.to_le_bytes();
	let mut inp = Input::new(&b);
	match call(|| X::decode(&mut inp)) {
		Some(Ok(v)) => {
			let mut o = [0; 5];
			let mut out = Output::new(&mut o);
			let back = call(|| v.encode(&mut out).is_ok()) == Some(true) && out.position() == 4;
			if bits(&v) == x && inp.position() == 4 && back && o[..4] == b { 0 } else { 2 }
		}
		Some(Err(e)) => if err(&e) { 1 } else { 2 },
		None => 2,
	}
}

pub fn runs(t: &mut T, cs: &[Case], r: &mut R, wide: bool) {
	let ch = |x| four::<char>(x, |v| *v as u32, |e| e.code_point == x);
	let c = find(cs, "char");
	runs_of(t, c, 0, if wide { 0x1FF_FFFF } else { 0x11_3000 }, ch);
	let mut some = |most: u32| { let from = if r.one_in(3) { r.pick(&[0, u32::MAX - most, 0x7FFF_FFFF - most / 2, 0xFFFF - most.min(0xFFFF) / 2]) } else { (r.u64() as u32).min(u32::MAX - most) }; (from, from + most) };
	let n = if wide { 1 << 22 } else { 1 << 17 };
	let (a, z) = some(n);
	runs_of(t, c, a, z, ch);
	let (a, z) = some(n);
	runs_of(t, find(cs, "u32"), a, z, |x| four::<u32>(x, |v| *v, |_| true));
	let (a, z) = some(n);
	runs_of(t, find(cs, "i32"), a, z, |x| four::<i32>(x, |v| *v as u32, |_| true));
	let (a, z) = some(n);
	runs_of(t, find(cs, "f32"), a, z, |x| four::<f32>(x, |v| v.to_bits(), |_| true));
	let (a, z) = some(n);
	runs_of(t, find(cs, "NonZero<u32>"), a, z, |x| four::<NonZero<u32>>(x, |v| v.get(), |_| true));
	let (a, z) = some(n);
	runs_of(t, find(cs, "Ipv4Addr"), a, z, |x| four::<Ipv4Addr>(x, |v| v.to_bits(), |_| true));
}

/// Every value of `usize` and of `isize` in a range, encoded.  `isize` values are counted from -2^20.
pub fn ints(t: &mut T, r: &mut R) {
	fn go<X: Encode<Error: EE> + Decode<Error: DE> + M + PartialEq + Copy>(t: &mut T, name: &str, from: u32, to: u32, make: impl Fn(u32) -> X, low: impl Fn(X) -> u16, named: impl Fn(&<X as Encode>::Error) -> X) {
		t.begin(&format!("encode each of the values {from}..={to} of {name}"));
		let one = |x: u32| {
			let v = make(x);
			let mut b = [0; 8];
			let mut out = Output::new(&mut b);
			let r = call(|| v.encode(&mut out));
			let p = out.position().min(8);
			let o = match &r {
				Some(Ok(())) => {
					let back = call(|| X::decode(&mut Input::new(&b)).ok()).flatten() == Some(v);
					if p == 2 && back && b[..2] == low(v).to_le_bytes() { 0 } else { 2 }
				}
				Some(Err(e)) => if named(e) == v { 1 } else { 2 },
				None => 2,
			};
			(o, r, b[..p].to_vec())
		};
		let (rs, end) = Runs::over(from, to, 1, |x| one(x).0);
		let rs = rs.j(|x| {
			let (_, r, b) = one(x);
			let e = match r { Some(Err(e)) => e.ee(), _ => E::none() };
			J::O(vec![("v", make(x).val()), ("e", e.j()), ("b", bytes(&b))])
		});
		t.ev("ints", vec![("t", s(name)), ("from", halves(from)), ("to", halves(end)), ("rs", rs)]);
	}
	go(t, "usize", 0, 1 << 18, |x| x as usize, |v| v as u16, |e| e.0);
	let from = r.u64() as u32 & 0x7FFF_FFFF;
	go(t, "usize", from, from + (1 << 16), |x| x as usize, |v| v as u16, |e| e.0);
	go(t, "isize", (1 << 20) - (1 << 17), (1 << 20) + (1 << 17), |x| x as isize - (1 << 20), |v| v as u16, |e| e.0);
	go(t, "isize", from, from + (1 << 16), |x| x as isize - (1 << 20), |v| v as u16, |e| e.0);
}

/// Every `step`th length from `from` to `to` of the values `make` makes.
fn lens_of(t: &mut T, name: &str, from: u32, to: u32, step: u32, mut make: impl FnMut(usize) -> Option<Made>) {
	t.begin(&format!("encode {name} of {from} to {to} items"));
	let mut buf = vec![0; 1 << 18];
	let mut one = |n: u32| -> (i64, J) {
		let Some(m) = call(|| make(n as usize)).flatten() else { return (2, E::none().j()) };
		let mut out = Output::new(&mut buf);
		let r = call(|| (m.enc)(&mut out));
		let p = out.position();
		match r {
			Some(Ok(())) => {
				let b = &buf[..p.min(1 << 18)];
				(if b.len() >= 2 && b[..2] == (n as u16).to_le_bytes() && b[2..] == m.bytes[..] && call(|| (m.back)(b)) == Some(true) { 0 } else { 2 }, E::none().j())
			}
			Some(Err(e)) => (1, e.j()),
			None => (2, E::none().j()),
		}
	};
	let (rs, end) = Runs::over(from, to, step, |n| one(n).0);
	let rs = rs.j(|n| one(n).1);
	t.ev("lens", vec![("t", s(name)), ("step", J::I(i64::from(step))), ("from", halves(from)), ("to", halves(end)), ("rs", rs)]);
}
struct Made { enc: Box<dyn FnOnce(&mut Output) -> Result<(), E>>, bytes: Vec<u8>, back: Box<dyn FnOnce(&[u8]) -> bool> }
fn made<X: Encode<Error: EE> + Decode + PartialEq + Clone + 'static>(x: X, bytes: Vec<u8>) -> Option<Made> {
	let y = x.clone();
	Some(Made { enc: Box::new(move |o| x.encode(o).map_err(|e| e.ee())), bytes, back: Box::new(move |b| { let mut i = Input::new(b); X::decode(&mut i).is_ok_and(|z| z == y) && i.remaining() == 0 }) })
}

pub fn lens(t: &mut T, r: &mut R, wide: bool) {
	let text = |n: usize| -> Vec<u8> { (0..n).map(|k| b'a' + ((k * 7 + n) % 26) as u8).collect() };
	let base: Vec<u8> = text(65700);
	let at = move |n: usize| base[..n].to_vec();
	let st = |r: &mut R, q: u32| if wide { (q / 64).max(1) } else { q + r.below(u64::from(q)) as u32 };
	let a = at.clone();
	let step = st(r, 50);
	lens_of(t, "String", r.below(u64::from(step)) as u32, 65_600, step, |n| { let b = a(n); made(String::from_utf8(b.clone()).unwrap(), b) });
	let step = st(r, 60);
	lens_of(t, "CString", r.below(u64::from(step)) as u32, 65_600, step, |n| { let b = a(n); made(CString::new(b.clone()).unwrap(), b) });
	let step = st(r, 40);
	lens_of(t, "Vec<()>", r.below(u64::from(step)) as u32, 65_600, step, |n| made(vec![(); n], vec![]));
	lens_of(t, "Vec<()>", 65_530, 65_545, 1, |n| made(vec![(); n], vec![]));
	lens_of(t, "String", 65_530, 65_545, 1, |n| { let b = a(n); made(String::from_utf8(b.clone()).unwrap(), b) });
	lens_of(t, "CString", 65_530, 65_545, 1, |n| { let b = a(n); made(CString::new(b.clone()).unwrap(), b) });
	let step = st(r, 1000);
	lens_of(t, "Vec<u8>", r.below(u64::from(step)) as u32, 65_600, step, |n| { let b = a(n); made(b.clone(), b) });
	lens_of(t, "Vec<u8>", 0, 600, 1, |n| { let b = a(n); made(b.clone(), b) });
	lens_of(t, "SizedStr<70000>", 0, 65_600, st(r, 400), |n| { let b = a(n); made(std::str::from_utf8(&b).unwrap().parse::<oct::SizedStr<70000>>().unwrap(), b) });
	lens_of(t, "SizedSlice<u8, 700>", 0, 700, 1, |n| { let b = a(n); made(b.iter().copied().collect::<oct::SizedSlice<u8, 700>>(), b) });
	lens_of(t, "LinkedList<u8>", 0, 600, 1, |n| { let b = a(n); made(b.iter().copied().collect::<std::collections::LinkedList<u8>>(), b) });
	lens_of(t, "HashSet<u8>", 0, 256, 1, |n| {
		// In the order of iteration.
		let h: std::collections::HashSet<u8> = (0..n).map(|k| k as u8).collect();
		let b = h.iter().copied().collect();
		made(h, b)
	});
}
