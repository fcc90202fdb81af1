//! Records histories over slots.
//!   slot rand OUT SEED COUNT
//!   slot script IN OUT
use oct::decode::{Decode, Input};
use oct::encode::{Encode, SizedEncode};
use oct::{SizedSlice, SizedStr, Slot};
use oct_verif_harness::errs::{DE, E, EE};
use oct_verif_harness::gen::G;
use oct_verif_harness::json::{bytes, i, s, J};
use oct_verif_harness::neighbours;
use oct_verif_harness::model::M;
use oct_verif_harness::redzone::{faults, tail_ok, Redzone};
use oct_verif_harness::rng::R;
use oct_verif_harness::trace::{call, T};
use oct_verif_harness::types::{Deep, Outer, Shape};
use std::borrow::{Borrow, BorrowMut};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::ffi::CString;
use std::net::IpAddr;
use std::num::NonZero;
use std::sync::Arc;
use std::time::{Duration, SystemTime};

#[global_allocator]
static ALLOC: Redzone = Redzone;

fn flag(b: bool) -> J { J::I(i64::from(b)) }
fn small(x: usize) -> J { J::I(x.min(1 << 30) as i64) }

/// A slot of any type.
trait Sl {
	fn name(&self) -> &'static str;
	fn state(&mut self) -> Vec<(&'static str, J)>;
	/// Writes a value: by value or through a reference.
	fn write(&mut self, t: &mut T, v: Val, by_ref: bool) -> Option<()>;
	fn read(&self) -> (&'static str, J, E);
	fn copy(&mut self, d: &[u8]) -> Option<()>;
	fn set_len(&mut self, n: usize, unchecked: bool) -> Option<()>;
	fn poke(&mut self, via: usize, at: usize, v: u8) -> Option<()>;
	fn view(&self) -> Vec<(&'static str, J)>;
	fn index(&self, via: usize, a: usize, b: usize) -> Option<Vec<u8>>;
	fn dead(&self) -> bool;
}
enum Val<'a> { Gen(&'a mut R), Bytes(&'a [u8]) }

struct Sx<X: 'static> { sl: Slot<X>, name: &'static str, buf: *const u8, cap: usize, dead: bool, h0: usize }

impl<X: M + G + Encode<Error: EE> + Decode<Error: DE> + 'static> Sx<X> {
	fn state_of(&mut self) -> Vec<(&'static str, J)> {
		let (len, cap) = (self.sl.len(), self.sl.capacity());
		let sane = self.sl.as_ptr() == self.buf && cap == self.cap && len <= cap;
		if !sane { self.dead = true }
		let mem = if sane { self.sl.as_mut_slice().to_vec() } else { vec![] };
		let reach = if sane { self.sl.as_mut_slice().len() == cap } else { false };
		vec![("len", small(len)), ("cap", small(cap)), ("mem", bytes(&mem)), ("ok", flag(sane && reach && unsafe { tail_ok(self.buf, self.cap) })), ("heap", i(faults() - self.h0))]
	}
}
impl<X: M + G + Encode<Error: EE> + Decode<Error: DE> + 'static> Sl for Sx<X> {
	fn name(&self) -> &'static str { self.name }
	fn state(&mut self) -> Vec<(&'static str, J)> { self.state_of() }
	fn write(&mut self, t: &mut T, v: Val, by_ref: bool) -> Option<()> {
		let x: X = match v { Val::Gen(r) => call(|| X::gen(r))?, Val::Bytes(b) => call(|| X::decode(&mut Input::new(b)))?.ok()? };
		let val = x.val();
		let (r, e) = match call(|| if by_ref { self.sl.write(&x) } else { self.sl.write(x) }) {
			None => ("panic", E::none()), Some(Ok(())) => ("ok", E::none()), Some(Err(e)) => ("err", e.ee()),
		};
		let mut f = vec![("t", s(self.name)), ("v", val), ("r", s(r)), ("e", e.j())];
		f.extend(self.state_of());
		t.ev("swrite", f);
		Some(())
	}
	fn read(&self) -> (&'static str, J, E) {
		match call(|| self.sl.read()) { None => ("panic", J::A(vec![]), E::none()), Some(Ok(x)) => ("ok", x.val(), E::none()), Some(Err(e)) => ("err", J::A(vec![]), e.de()) }
	}
	fn copy(&mut self, d: &[u8]) -> Option<()> { call(|| self.sl.copy_from_slice(d)) }
	fn set_len(&mut self, n: usize, unchecked: bool) -> Option<()> { call(|| if unchecked { unsafe { self.sl.set_len_unchecked(n) } } else { self.sl.set_len(n) }) }
	fn poke(&mut self, via: usize, at: usize, v: u8) -> Option<()> {
		let sl = &mut self.sl;
		call(|| match via {
			0 => sl.as_mut_slice()[at] = v,
			1 => { let m: &mut [u8] = sl.as_mut(); m[at] = v }
			2 => { let m: &mut [u8] = sl.borrow_mut(); m[at] = v }
			3 => { let m: &mut [u8] = sl; m[at] = v }
			4 => sl[at] = v,
			5 => sl[at..][0] = v,
			_ => { assert!(at < sl.capacity()); unsafe { *sl.as_mut_ptr().add(at) = v } }
		})
	}
	fn view(&self) -> Vec<(&'static str, J)> {
		let sl = &self.sl;
		let a: &[u8] = sl.as_ref();
		let b: &[u8] = sl.borrow();
		let w = sl.as_slice().to_vec();
		let mut longer = w.clone();
		longer.push(0);
		let mut other = w.clone();
		let ne = match other.last_mut() { Some(x) => { *x ^= 1; !(*sl == *other.as_slice()) && !(*sl == other.as_slice()) } None => true };
		let mut same = w.clone();
		// What lies behind the valid part, or short of it, takes no part.
		let all = unsafe { std::slice::from_raw_parts(sl.as_ptr(), sl.capacity()) };
		let others = (0..=all.len()).map(|n| all[..n].to_vec()).chain([longer.clone(), other.clone()]).chain(neighbours(&w));
		let fair = others.into_iter().all(|mut x| {
			let e = x == w;
			(*sl == *x.as_slice()) == e && (*sl == x.as_slice()) == e && (*sl == x.as_mut_slice()) == e && (*sl != *x.as_slice()) != e && (*sl != x.as_slice()) != e && (*sl != x.as_mut_slice()) != e
		});
		let cmp = fair && *sl == *w.as_slice() && *sl == w.as_slice() && *sl == same.as_mut_slice() && !(*sl == *longer.as_slice()) && ne;
		vec![("s", bytes(&w)), ("a", bytes(a)), ("bo", bytes(b)), ("de", bytes(&**sl)), ("p", flag(sl.as_ptr() == self.buf)), ("cmp", flag(cmp)), ("dbg", s(&format!("{sl:?}"))), ("em", flag(sl.is_empty())), ("fu", flag(sl.is_full()))]
	}
	fn index(&self, via: usize, a: usize, b: usize) -> Option<Vec<u8>> {
		let sl = &self.sl;
		call(|| match via { 0 => vec![sl[a]], 1 => sl[a..b].to_vec(), 2 => sl[a..].to_vec(), 3 => sl[..b].to_vec(), _ => sl[..].to_vec() })
	}
	fn dead(&self) -> bool { self.dead }
}

type Make = fn(&'static str, Option<usize>, usize) -> Box<dyn Sl>;
fn open<X: M + G + Encode<Error: EE> + Decode<Error: DE> + 'static>(name: &'static str, cap: Option<usize>, how: usize) -> Box<dyn Sl> {
	let (cap, h0) = (cap.unwrap(), faults());
	let sl = match how {
		0 => Slot::<X>::with_capacity(cap),
		_ => {
			// Raw parts of an allocation of our own, part of it in use.
			let b: Box<[u8]> = (0..cap).map(|x| (x * 7 + 1) as u8).collect();
			let p = Box::into_raw(b).cast::<u8>();
			unsafe { Slot::<X>::from_raw_parts(p, cap, cap - cap / 2) }
		}
	};
	Box::new(Sx { buf: sl.as_ptr(), cap: sl.capacity(), sl, name, dead: false, h0 })
}
fn sized<X: M + G + SizedEncode + Encode<Error: EE> + Decode<Error: DE> + 'static>(name: &'static str, cap: Option<usize>, how: usize) -> Box<dyn Sl> {
	if cap.is_some() { return open::<X>(name, cap, how) }
	let h0 = faults();
	let sl = if how == 0 { Slot::<X>::new() } else { Slot::<X>::default() };
	Box::new(Sx { buf: sl.as_ptr(), cap: sl.capacity(), sl, name, dead: false, h0 })
}
struct Kind { name: &'static str, make: Make, sized: bool }
macro_rules! kinds { ($($f:ident $t:ty;)*) => { vec![$(Kind { name: stringify!($t), make: $f::<$t>, sized: stringify!($f) == "sized" }),*] } }
fn kinds() -> Vec<Kind> {
	kinds! {
		sized u8; sized u16; sized u32; sized usize; sized char; sized (); sized Option<u8>; sized SizedSlice<u16, 2>; sized SizedStr<4>; sized Shape; sized Result<u8, u64>;
		open Vec<u8>; open String; open Vec<usize>; open Deep; sized [usize; 4]; sized SizedSlice<usize, 4>; sized Arc<i8>; open Vec<()>; sized [u16; 3]; sized Duration; sized NonZero<u32>; open HashMap<u8, u16>; open HashSet<u8>; sized Outer; sized RefCell<usize>; sized SystemTime; open CString; sized IpAddr;
	}
}

struct Ses { sl: Box<dyn Sl>, h0: usize }
impl Ses {
	fn new(t: &mut T, k: &Kind, cap: Option<usize>, how: usize) -> Option<Ses> {
		if cap.is_none() && !k.sized { return None }
		let h0 = faults();
		t.begin(&format!("new slot of {} {cap:?}", k.name));
		let sl = (k.make)(k.name, cap, how);
		let mut z = Ses { sl, h0 };
		let mut f = vec![("t", s(k.name)), ("how", s(match (cap, how) { (None, 0) => "new", (None, _) => "default", (_, 0) => "cap", _ => "raw" })), ("want", J::I(cap.map_or(-1, |c| c as i64)))];
		f.extend(z.sl.state());
		t.ev("snew", f);
		Some(z)
	}
	fn put(&mut self, t: &mut T, ev: &str, mut f: Vec<(&'static str, J)>) { let st = self.sl.state(); f.extend(st); t.ev(ev, f) }
	fn write(&mut self, t: &mut T, v: Val, by_ref: bool) { if self.sl.dead() { return } t.begin(&format!("Slot::write of {}", self.sl.name())); self.sl.write(t, v, by_ref); }
	fn read(&mut self, t: &mut T) {
		if self.sl.dead() { return }
		t.begin(&format!("Slot::read of {}", self.sl.name()));
		let (r, v, e) = self.sl.read();
		self.put(t, "sread", vec![("r", s(r)), ("v", v), ("e", e.j())]);
	}
	fn copy(&mut self, t: &mut T, d: &[u8]) {
		if self.sl.dead() { return }
		t.begin("Slot::copy_from_slice");
		let r = self.sl.copy(d);
		self.put(t, "scopy", vec![("d", bytes(d)), ("r", s(if r.is_some() { "ok" } else { "panic" }))]);
	}
	fn set_len(&mut self, t: &mut T, n: usize, unchecked: bool) {
		if self.sl.dead() { return }
		t.begin(&format!("Slot::set_len {n}"));
		let r = self.sl.set_len(n, unchecked);
		self.put(t, "slen", vec![("n", small(n)), ("r", s(if r.is_some() { "ok" } else { "panic" }))]);
	}
	fn poke(&mut self, t: &mut T, via: usize, at: usize, v: u8) {
		if self.sl.dead() { return }
		t.begin(&format!("poke {via} {at}"));
		let r = self.sl.poke(via, at, v);
		self.put(t, "spoke", vec![("at", i(at)), ("b", i(v as usize)), ("r", s(if r.is_some() { "ok" } else { "panic" }))]);
	}
	fn view(&mut self, t: &mut T) {
		if self.sl.dead() { return }
		t.begin("views of a slot");
		let w = self.sl.view();
		self.put(t, "sview", vec![("w", J::O(w))]);
	}
	fn index(&mut self, t: &mut T, via: usize, a: usize, b: usize) {
		if self.sl.dead() { return }
		t.begin(&format!("index {via} {a} {b}"));
		let r = self.sl.index(via, a, b);
		self.put(t, "sidx", vec![("via", i(via)), ("a", i(a)), ("b", i(b)), ("r", s(if r.is_some() { "ok" } else { "panic" })), ("x", bytes(&r.unwrap_or_default()))]);
	}
	fn end(self, t: &mut T) {
		let (h0, dead) = (self.h0, self.sl.dead());
		if dead { std::mem::forget(self) } else { t.begin("drop of a slot"); drop(self) }
		t.ev("send", vec![("heap", i(faults() - h0))]);
	}
}

fn session(t: &mut T, ks: &[Kind], r: &mut R) {
	let k = &ks[r.below(ks.len() as u64) as usize];
	r.bad = if r.one_in(3) { 3 } else { 0 };
	let big = r.one_in(6);
	let cap = if big && r.one_in(2) { Some(r.pick(&[64, 130, 255, 256, 257, 300, 600])) } else if k.sized && r.one_in(3) { None } else { Some(r.pick(&[0, 1, 2, 3, 4, 5, 8, 12, 16, 24, 40])) };
	let Some(mut z) = Ses::new(t, k, cap, r.below(2) as usize) else { return };
	for _ in 0..(4 + r.below(20)) {
		let cap = cap.unwrap_or(6) as u64;
		match r.below(16) {
			0..=4 => { let by = r.one_in(2); let mut q = R::new(r.u64()); q.bad = r.bad; q.big = big; z.write(t, Val::Gen(&mut q), by) }
			5..=7 => z.read(t),
			8 => { let d: Vec<u8> = (0..r.below(cap + 3)).map(|_| r.pick(&[0u8, 0, 1, 2, 3, 65, 255])).collect(); z.copy(t, &d) }
			9 => { let n = if r.one_in(10) { r.pick(&[usize::MAX, 1 << 32]) } else { r.below(cap + 3) as usize }; z.set_len(t, n, false) }
			10 => { let n = r.below(cap + 1) as usize; if n <= cap as usize { if k.sized && r.one_in(2) { z.set_len(t, n, false) } else if n as u64 <= cap && r.one_in(2) { z.set_len(t, n.min(1), false) } } }
			11 => { let v = r.below(7) as usize; let at = r.below(cap + 2) as usize; z.poke(t, v, at, r.u64() as u8) }
			12 | 13 => z.view(t),
			_ => { let v = r.below(5) as usize; let (a, b) = (r.below(cap + 2) as usize, r.below(cap + 2) as usize); z.index(t, v, a, b) }
		}
	}
	z.end(t);
}

/// Lines of steps separated by `;`: `N type|cap|how`, `w by | bytes`, `r`, `c bytes`, `l n`, `u n`, `p via at v`, `v`, `i via a b`.
fn script(t: &mut T, ks: &[Kind], path: &str) {
	let text = std::fs::read_to_string(path).unwrap();
	let mut z: Option<Ses> = None;
	for line in text.lines() {
		for step in line.split(';') {
			let step = step.trim();
			let (cmd, rest) = step.split_once(' ').unwrap_or((step, ""));
			if cmd == "N" {
				if let Some(z) = z.take() { z.end(t) }
				let w: Vec<&str> = rest.split('|').collect();
				let k = ks.iter().find(|k| k.name == w[0]).unwrap_or_else(|| panic!("no slot of {}", w[0]));
				let cap: i64 = w[1].trim().parse().unwrap();
				z = Ses::new(t, k, if cap < 0 { None } else { Some(cap as usize) }, w[2].trim().parse().unwrap());
				continue;
			}
			let n: Vec<usize> = rest.split_whitespace().map(|x| x.parse().unwrap()).collect();
			let b: Vec<u8> = n.iter().map(|x| *x as u8).collect();
			let Some(z) = &mut z else { continue };
			match cmd {
				"w" => z.write(t, Val::Bytes(&b[1..]), n[0] == 1),
				"r" => z.read(t),
				"c" => z.copy(t, &b),
				"l" => z.set_len(t, n[0], false),
				"u" => z.set_len(t, n[0], true),
				"p" => z.poke(t, n[0], n[1], b[2]),
				"v" => z.view(t),
				"i" => z.index(t, n[0], n[1], n[2]),
				"" => {}
				_ => panic!("bad step {step}"),
			}
		}
	}
	if let Some(z) = z.take() { z.end(t) }
}

fn main() {
	let a: Vec<String> = std::env::args().collect();
	let ks = kinds();
	match a[1].as_str() {
		"rand" => {
			let mut t = T::new(&a[2]);
			let mut r = R::new(a[3].parse().unwrap());
			let n: usize = a[4].parse().unwrap();
			while t.n < n { session(&mut t, &ks, &mut r) }
			t.end();
		}
		"script" => { let mut t = T::new(&a[3]); script(&mut t, &ks, &a[2]); t.end() }
		_ => std::process::exit(2),
	}
}
