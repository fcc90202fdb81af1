//! Records histories over bounded strings.
//!   text rand OUT SEED COUNT
//!   text script IN OUT
use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output};
use oct::{SizedSlice, SizedStr};
use oct_verif_harness::errs::{DE, E, EE};
use oct_verif_harness::item::Rec;
use oct_verif_harness::json::{bytes, i, ints, s, J};
use oct_verif_harness::redzone::{faults, tail_ok, Redzone};
use oct_verif_harness::rng::R;
use oct_verif_harness::trace::{call, T};
use std::any::Any;
use std::borrow::{Borrow, BorrowMut};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::ffi::OsStr;
use std::hash::{Hash, Hasher};
use std::net::{SocketAddr, ToSocketAddrs};
use std::path::Path;

#[global_allocator]
static ALLOC: Redzone = Redzone;

fn flag(b: bool) -> J { J::I(i64::from(b)) }
fn cps(x: &str) -> J { J::A(x.chars().map(|c| J::I(i64::from(u32::from(c)))).collect()) }
fn ord(o: Option<Ordering>) -> i64 { match o { None => 9, Some(Ordering::Less) => -1, Some(Ordering::Equal) => 0, Some(Ordering::Greater) => 1 } }
fn rec<X: Hash + ?Sized>(x: &X) -> Vec<u8> { let mut h = Rec::default(); x.hash(&mut h); h.0 }
fn def<X: Hash + ?Sized>(x: &X) -> u64 { let mut h = DefaultHasher::new(); x.hash(&mut h); h.finish() }

type W = Vec<(&'static str, J)>;
trait Tx {
	fn cap(&self) -> usize;
	fn raw(&self) -> &[u8];
	fn guard(&self) -> bool;
	fn dup(&self) -> Box<dyn Tx>;
	fn assign(&mut self, o: &dyn Tx) -> bool;
	fn view(&self) -> W;
	fn cmp_to(&self, o: &dyn Tx) -> W;
	fn cmp_str(&self, o: &str) -> Vec<i64>;
	fn idx(&self, via: i64, a: usize, b: usize) -> Vec<u8>;
	fn change(&mut self, via: i64, a: usize, b: usize, up: bool);
	fn into(self: Box<Self>, how: i64) -> Vec<u8>;
	fn enc(&self, o: &mut Output) -> Result<(), E>;
	fn any(&self) -> &dyn Any;
}
struct Rg<const N: usize>(Box<SizedStr<N>>);

macro_rules! caps { ($m:ident $($x:tt)*) => { $m!($($x)*; 0 1 2 3 4 5 6 8 16 24 40 300) }; }
macro_rules! each { ($n:expr, $N:ident, $e:expr; $($c:literal)*) => { match $n { $($c => { const $N: usize = $c; $e })* _ => panic!("no such capacity") } }; }
macro_rules! with { ($n:expr, $N:ident, $e:expr) => { caps!(each $n, $N, $e) }; }

impl<const N: usize> Tx for Rg<N> {
	fn cap(&self) -> usize { N }
	fn raw(&self) -> &[u8] { let n = self.0.len(); if n > N { &[] } else { unsafe { std::slice::from_raw_parts(self.0.as_ptr(), n) } } }
	fn guard(&self) -> bool {
		let x: &SizedStr<N> = &self.0;
		x.len() <= N && unsafe { tail_ok(std::ptr::from_ref(x).cast(), size_of::<SizedStr<N>>()) }
	}
	fn dup(&self) -> Box<dyn Tx> { Box::new(Rg::<N>(Box::new((*self.0).clone()))) }
	fn assign(&mut self, o: &dyn Tx) -> bool { let Some(o) = o.any().downcast_ref::<Rg<N>>() else { return false }; self.0.clone_from(&o.0); true }
	fn view(&self) -> W {
		let x: &SizedStr<N> = &self.0;
		let w = x.as_str();
		let (a, b, o, p): (&str, &[u8], &OsStr, &Path) = (x.as_ref(), x.as_ref(), x.as_ref(), x.as_ref());
		let c: &str = x.borrow();
		let d: &str = x;
		let at = x.as_ptr();
		let ptr = w.as_ptr() == at && a.as_ptr() == at && b.as_ptr() == at && c.as_ptr() == at && x.as_bytes().as_ptr() == at;
		let plain: String = w.to_owned();
		let sock = match plain.parse::<SocketAddr>() { Err(_) => true, Ok(e) => x.to_socket_addrs().is_ok_and(|v| v.eq([e])) };
		vec![
			("len", i(x.len())), ("cap", i(x.capacity())), ("em", flag(x.is_empty())), ("fu", flag(x.is_full())),
			("b", bytes(x.as_bytes())), ("s", bytes(w.as_bytes())), ("a", bytes(a.as_bytes())), ("ab", bytes(b)), ("os", bytes(o.as_encoded_bytes())), ("pa", bytes(p.as_os_str().as_encoded_bytes())), ("bo", bytes(c.as_bytes())), ("de", bytes(d.as_bytes())),
			("ch", ints(&x.chars().map(|c| i64::from(u32::from(c))).collect::<Vec<_>>())),
			("rc", ints(&x.chars().rev().map(|c| i64::from(u32::from(c))).collect::<Vec<_>>())),
			("ci", J::A(x.char_indices().map(|(k, c)| ints(&[k as i64, i64::from(u32::from(c))])).collect())),
			("pt", flag(ptr)), ("sock", flag(sock)),
			("dbg", cps(&format!("{x:?}"))), ("dis", cps(&format!("{x}"))), ("pad", cps(&format!("{x:>6}|{x:_<4}|{x:.2}|{x:^5.1}"))), ("alt", cps(&format!("{x:#?}"))), ("ts", bytes(x.to_string().as_bytes())),
			("sdbg", cps(&format!("{plain:?}"))),
			("hb", bytes(&rec(x))), ("hs", bytes(&rec::<str>(&plain))), ("hd", flag(def(x) == def::<str>(&plain))),
		]
	}
	fn cmp_to(&self, o: &dyn Tx) -> W {
		let x: &SizedStr<N> = &self.0;
		with!(o.cap(), M, {
			let y: &SizedStr<M> = &o.any().downcast_ref::<Rg<M>>().unwrap().0;
			let c = o.any().downcast_ref::<Rg<N>>().map_or(8, |z| ord(Some(Ord::cmp(x, &z.0))));
			let mm = o.any().downcast_ref::<Rg<N>>().map_or(1, |z| {
				let (p, q) = (x.as_str(), z.0.as_str());
				i64::from(std::cmp::max(x, &*z.0).as_str() == p.max(q) && std::cmp::min(x, &*z.0).as_str() == p.min(q))
			});
			vec![("x", ints(&[i64::from(x == y), i64::from(x != y), ord(x.partial_cmp(y)), i64::from(x < y), i64::from(x <= y), i64::from(x > y), i64::from(x >= y)])), ("oc", J::I(c)), ("mm", J::I(mm)),
				("st", J::A(self.cmp_str(y.as_str()).into_iter().map(J::I).collect()))]
		})
	}
	fn cmp_str(&self, o: &str) -> Vec<i64> {
		let x: &SizedStr<N> = &self.0;
		let z = o.to_string();
		let mut v = vec![i64::from(*x == o), i64::from(*x != o), ord(x.partial_cmp(&o)), i64::from(*x < o), i64::from(*x <= o), i64::from(*x > o), i64::from(*x >= o)];
		v.extend([i64::from(*x == z), i64::from(*x != z), ord(x.partial_cmp(&z)), i64::from(*x < z), i64::from(*x <= z), i64::from(*x > z), i64::from(*x >= z)]);
		v
	}
	fn idx(&self, via: i64, a: usize, b: usize) -> Vec<u8> {
		let x: &SizedStr<N> = &self.0;
		let v: &str = match via { 0 => &x[a..b], 1 => &x[a..], 2 => &x[..b], 3 => &x[..], 4 => &x[..=b], _ => &x[a..=b] };
		v.as_bytes().to_vec()
	}
	fn change(&mut self, via: i64, a: usize, b: usize, up: bool) {
		let x: &mut SizedStr<N> = &mut self.0;
		let v: &mut str = match via { 0 => x.as_mut_str(), 1 => x.as_mut(), 2 => x.borrow_mut(), 3 => &mut *x, 4 => &mut x[a..b], 5 => &mut x[a..], 6 => &mut x[..b], _ => { let n = x.len(); unsafe { std::str::from_utf8_unchecked_mut(std::slice::from_raw_parts_mut(x.as_mut_ptr(), n)) } } };
		if up { v.make_ascii_uppercase() } else { v.make_ascii_lowercase() }
	}
	fn into(self: Box<Self>, how: i64) -> Vec<u8> {
		let x = *self.0;
		match how {
			0 => { let v: SizedSlice<u8, N> = x.into_bytes(); v.as_slice().to_vec() }
			1 => x.into_boxed_str().into_string().into_bytes(),
			2 => x.into_string().into_bytes(),
			3 => Box::<str>::from(x).into_string().into_bytes(),
			4 => String::from(x).into_bytes(),
			_ => { let (b, n) = x.into_raw_parts(); b[..n].to_vec() }
		}
	}
	fn enc(&self, o: &mut Output) -> Result<(), E> { (*self.0).encode(o).map_err(|e| e.ee()) }
	fn any(&self) -> &dyn Any { self }
}

#[derive(Clone, Debug)]
struct Op { op: &'static str, a: usize, b: i64, n: usize, d: Vec<i64> }
const OPS: &[&str] = &["new", "utf8", "unc", "col", "dec", "cln", "view", "cmp", "cst", "idx", "mut", "into", "enc", "drop"];
fn text(d: &[i64]) -> String { d.iter().map(|c| char::from_u32(*c as u32).unwrap()).collect() }
fn raw(d: &[i64]) -> Vec<u8> { d.iter().map(|c| *c as u8).collect() }

struct Z { r: [Option<Box<dyn Tx>>; 2], dead: bool, h0: usize }
enum O { Ok(Vec<u8>, W), Err(E), Skip }

impl Z {
	fn put<const N: usize>(&mut self, a: usize, x: SizedStr<N>) { self.r[a] = Some(Box::new(Rg::<N>(Box::new(x)))) }
	fn step(&mut self, t: &mut T, o: &Op) {
		if self.dead { return }
		t.begin(&format!("{o:?}"));
		let res = call(|| self.run(o));
		let (r, x, e, w) = match res { None => ("panic", vec![], E::none(), vec![]), Some(O::Skip) => return, Some(O::Ok(x, w)) => ("ok", x, E::none(), w), Some(O::Err(e)) => ("err", vec![], e, vec![]) };
		let regs = J::A(self.r.iter().map(|r| match r {
			None => J::O(vec![("k", s("e")), ("n", i(0)), ("b", bytes(&[])), ("g", i(1))]),
			Some(x) => J::O(vec![("k", s("t")), ("n", i(x.cap())), ("b", bytes(x.raw())), ("g", flag(x.guard()))]),
		}).collect());
		self.dead = self.r.iter().flatten().any(|x| !x.guard() || std::str::from_utf8(x.raw()).is_err());
		t.ev("t", vec![("op", s(o.op)), ("a", i(o.a)), ("b", J::I(o.b)), ("n", i(o.n)), ("d", ints(&o.d)), ("r", s(r)), ("x", bytes(&x)), ("e", e.j()), ("w", J::O(w)), ("regs", regs), ("heap", i(faults() - self.h0))]);
	}
	fn run(&mut self, o: &Op) -> O {
		let none = |()| O::Ok(vec![], vec![]);
		let (a, n) = (o.a, o.n);
		let at = |k: usize| o.d.get(k).map_or(0, |x| *x as usize);
		if matches!(o.op, "view" | "cmp" | "cst" | "idx" | "mut" | "into" | "enc" | "drop") && self.r[a].is_none() { return O::Skip }
		match o.op {
			"new" => with!(n, N, {
				let x = text(&o.d);
				let r = match o.b {
					0 => SizedStr::<N>::new(&x), 1 => x.parse::<SizedStr<N>>(), 2 => SizedStr::<N>::try_from(x.as_str()), 3 => SizedStr::<N>::try_from(x),
					4 => { let mut c = x.chars(); let (Some(y), None) = (c.next(), c.next()) else { return O::Skip }; SizedStr::<N>::try_from(y) }
					_ => SizedStr::<N>::from_utf8(x.as_bytes()),
				};
				match r { Ok(x) => none(self.put(a, x)), Err(e) => O::Err(e.de()) }
			}),
			"utf8" => with!(n, N, { match SizedStr::<N>::from_utf8(&raw(&o.d)) { Ok(x) => none(self.put(a, x)), Err(e) => O::Err(e.de()) } }),
			"unc" => with!(n, N, {
				let x = text(&o.d);
				if x.len() > N { return O::Skip }
				match o.b {
					0 => none(self.put(a, unsafe { SizedStr::<N>::from_utf8_unchecked(x.as_bytes()) })),
					1 => { let mut b = [0xEEu8; N]; b[..x.len()].copy_from_slice(x.as_bytes()); none(self.put(a, unsafe { SizedStr::<N>::from_raw_parts(b, x.len()) })) }
					_ => { if !x.is_empty() { return O::Skip } none(self.put(a, SizedStr::<N>::default())) }
				}
			}),
			"col" => with!(n, N, {
				let x = text(&o.d);
				let y: SizedStr<N> = match o.b { 0 => x.chars().collect(), 1 => x.chars().collect::<Vec<_>>().into_iter().collect(), 2 => x.chars().filter(|_| true).collect(), _ => x.chars().chain(std::iter::repeat('z').take(3)).take(x.chars().count()).collect() };
				none(self.put(a, y))
			}),
			"dec" => with!(n, N, {
				let b = raw(&o.d);
				let mut q = Input::new(&b);
				match SizedStr::<N>::decode(&mut q) { Ok(x) => { let p = q.position(); self.put(a, x); O::Ok(vec![p as u8, (p >> 8) as u8], vec![]) } Err(e) => O::Err(e.de()) }
			}),
			"cln" => {
				let src = 1 - a;
				if self.r[src].is_none() { return O::Skip }
				if o.b == 1 {
					let Some(mut x) = self.r[a].take() else { return O::Skip };
					let ok = x.assign(self.r[src].as_deref().unwrap());
					self.r[a] = Some(x);
					if !ok { return O::Skip }
				} else { self.r[a] = Some(self.r[src].as_ref().unwrap().dup()) }
				none(())
			}
			"view" => O::Ok(vec![], self.r[a].as_ref().unwrap().view()),
			"cmp" => match &self.r[o.b as usize] { None => O::Skip, Some(y) => O::Ok(vec![], self.r[a].as_ref().unwrap().cmp_to(&**y)) },
			"cst" => O::Ok(vec![], vec![("st", J::A(self.r[a].as_ref().unwrap().cmp_str(&text(&o.d)).into_iter().map(J::I).collect()))]),
			"idx" => O::Ok(self.r[a].as_ref().unwrap().idx(o.b, n, at(0)), vec![]),
			"mut" => none(self.r[a].as_mut().unwrap().change(o.b, n, at(0), at(1) == 1)),
			"into" => O::Ok(self.r[a].take().unwrap().into(o.b), vec![]),
			"enc" => {
				let x = self.r[a].as_ref().unwrap();
				let mut b = vec![0; x.cap() + 2];
				let mut q = Output::new(&mut b);
				match x.enc(&mut q) { Ok(()) => { let v = q.as_slice().to_vec(); O::Ok(v, vec![]) } Err(e) => O::Err(e) }
			}
			_ => none(self.r[a] = None),
		}
	}
	fn new(t: &mut T) -> Z { t.ev("tnew", vec![]); Z { r: [None, None], dead: false, h0: faults() } }
	fn end(mut self, t: &mut T) {
		if self.dead { std::mem::forget(self); return }
		let h0 = self.h0;
		t.begin("drop of bounded strings");
		self.r = [None, None];
		t.ev("tend", vec![("heap", i(faults() - h0))]);
	}
}

const CHARS: &[u32] = &[0x61, 0x41, 0x7A, 0x30, 0x20, 0x22, 0x5C, 0x27, 0, 0x0A, 0x09, 0x7F, 0x80, 0xE9, 0x7FF, 0x800, 0x20AC, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x1_0000, 0x1_F600, 0x10_FFFF, 0x301];
fn some_text(r: &mut R) -> Vec<i64> {
	if r.long {
		// Mostly narrow, and long enough for what works on several bytes at once.
		let n = match r.below(8) { 0 => 200 + r.below(110), 1 => r.pick(&[31, 32, 33, 63, 64, 65, 127, 128, 129]), _ => 7 + r.below(20) };
		let wide = r.pick(&[0, 4, 20]);
		return (0..n).map(|k| if r.one_in(wide) || (wide != 0 && k + 1 == n && r.one_in(3)) { i64::from(r.pick(CHARS)) } else { 0x61 + (k % 26) as i64 }).collect();
	}
	(0..r.below(7)).map(|_| i64::from(if r.one_in(3) { r.pick(CHARS) } else { r.pick(&[0x61, 0x62, 0xE9, 0x20AC, 0x1_F600]) })).collect()
}
fn near(r: &mut R, x: &[i64]) -> Vec<i64> {
	let mut x = x.to_vec();
	let k = r.below(x.len().max(1) as u64) as usize;
	match (r.below(6), x.is_empty()) {
		(0, _) => x.push(0x20),
		(1, false) => { x.pop(); }
		(2, false) => x[k] = match x[k] { c @ (0x41..=0x5A | 0x61..=0x7A) => c ^ 0x20, 0xE9 => 0xC9, c => c ^ 1 },
		(3, false) => { x.remove(k); }
		(4, false) => { let c = x[k]; x.insert(k, c) }
		_ => {}
	}
	x
}
fn some_bytes(r: &mut R) -> Vec<i64> {
	if !r.long && r.one_in(3) { return (0..r.below(7)).map(|_| r.pick(&[0x61, 0x80, 0xBF, 0xC0, 0xC2, 0xC3, 0xDF, 0xE0, 0x9F, 0xA0, 0xED, 0xEF, 0xF0, 0x90, 0x8F, 0xF4, 0xF5, 0xFF])).collect() }
	let mut b: Vec<i64> = text(&some_text(r)).bytes().map(i64::from).collect();
	if r.one_in(2) && !b.is_empty() { let k = if r.long && r.one_in(2) { b.len() - 1 - r.below(b.len().min(9) as u64) as usize } else { r.below(b.len() as u64) as usize }; match r.below(4) { 0 => { b.remove(k); } 1 => b[k] = r.below(256) as i64, 2 => b[k] |= 0x80, _ => b.truncate(k) } }
	b
}
fn session(t: &mut T, r: &mut R) {
	let mut z = Z::new(t);
	let mut last: Vec<i64> = vec![];
	r.long = r.one_in(4);
	for _ in 0..(4 + r.below(20)) {
		// Something close to the last text.
		let some_text = |r: &mut R| if r.one_in(2) { some_text(r) } else { near(r, &last) };
		let a = r.below(2) as usize;
		let n = if r.long { r.pick(&[16usize, 24, 40, 40, 300, 300]) } else { r.pick(&[0usize, 1, 2, 3, 4, 5, 6, 8, 16, 40]) };
		let far = if r.long { 30 } else { 8 };
		let op = |op, b, n, d| Op { op, a, b, n, d };
		let k = r.below(far) as usize;
		let o = match r.below(20) {
			0 | 1 => op("new", r.below(6) as i64, n, some_text(r)),
			2 | 3 => op("utf8", 0, n, some_bytes(r)),
			4 => op("unc", r.below(3) as i64, n, some_text(r)),
			5 | 6 => op("col", r.below(4) as i64, n, some_text(r)),
			7 => { let b = some_bytes(r); let l = if r.one_in(4) { r.below(9) as i64 } else { b.len() as i64 }; let mut d = vec![l % 256, l / 256]; d.extend(b); op("dec", 0, n, d) }
			8 => op("cln", r.below(2) as i64, 0, vec![]),
			9 | 10 => op("view", 0, 0, vec![]),
			11 | 12 => op("cmp", r.below(2) as i64, 0, vec![]),
			13 => op("cst", 0, 0, some_text(r)),
			14 | 15 => op("idx", r.below(6) as i64, k, vec![r.below(far) as i64]),
			16 => op("mut", r.below(8) as i64, k, vec![r.below(far) as i64, r.below(2) as i64]),
			17 => op("into", r.below(6) as i64, 0, vec![]),
			18 => op("enc", 0, 0, vec![]),
			_ => if r.one_in(3) { op("drop", 0, 0, vec![]) } else { op("new", 0, 8, vec![0x31, 0x2E, 0x32, 0x61]) },
		};
		if matches!(o.op, "new" | "unc" | "col") { last = o.d.clone() }
		z.step(t, &o);
	}
	if r.one_in(10) {
		let addr = r.pick(&["127.0.0.1:80", "[::1]:65535", "10.0.0.255:0"]);
		z.step(t, &Op { op: "new", a: 0, b: 0, n: 16, d: addr.bytes().map(i64::from).collect() });
		z.step(t, &Op { op: "view", a: 0, b: 0, n: 0, d: vec![] });
	}
	z.end(t);
}

/// Histories, one a line: `op a b n | d...` separated by `;`.
fn script(t: &mut T, path: &str) {
	for line in std::fs::read_to_string(path).unwrap().lines() {
		let mut z = Z::new(t);
		for st in line.split(';').map(str::trim).filter(|x| !x.is_empty()) {
			let (l, d) = st.split_once('|').unwrap();
			let w: Vec<&str> = l.split_whitespace().collect();
			let op = OPS.iter().find(|x| **x == w[0]).unwrap_or_else(|| panic!("bad step {st}"));
			z.step(t, &Op { op, a: w[1].parse().unwrap(), b: w[2].parse().unwrap(), n: w[3].parse().unwrap(), d: d.split_whitespace().map(|x| x.parse().unwrap()).collect() });
		}
		z.end(t);
	}
}

fn main() {
	let a: Vec<String> = std::env::args().collect();
	match a[1].as_str() {
		"rand" => {
			let mut t = T::new(&a[2]);
			let mut r = R::new(a[3].parse().unwrap());
			let n: usize = a[4].parse().unwrap();
			while t.n < n { session(&mut t, &mut r) }
			t.end();
		}
		"script" => { let mut t = T::new(&a[3]); script(&mut t, &a[2]); t.end() }
		_ => std::process::exit(2),
	}
}
