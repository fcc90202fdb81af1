//! Records histories over bounded slices and their iterators.
//!   seq rand OUT SEED COUNT
//!   seq script IN OUT
//!   seq nth OUT                 skipping, each probe in a process of its own
//!   seq nth1 N LEN FRONT BACK K
use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output};
use oct::{SizedIter, SizedSlice};
use oct_verif_harness::errs::{DE, E, EE};
use oct_verif_harness::item::*;
use oct_verif_harness::json::{bytes, i, ints, s, J};
use oct_verif_harness::redzone::{faults, Redzone};
use oct_verif_harness::rng::R;
use oct_verif_harness::trace::{call, T};
use std::any::Any;
use std::borrow::{Borrow, BorrowMut, Cow};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::collections::{HashMap, HashSet, LinkedList};
use std::hash::Hash;
use std::mem::MaybeUninit;
use std::ops::{Bound, Range, RangeFrom, RangeInclusive};
use std::rc::Rc;
use std::sync::{Arc, Mutex, RwLock};

#[global_allocator]
static ALLOC: Redzone = Redzone;

const GUARD: [u8; 32] = [0xC7; 32];
/// A container between two guards.
#[repr(C)]
struct Gd<X> { pre: [u8; 32], x: X, post: [u8; 32] }
impl<X> Gd<X> {
	fn new(x: X) -> Self { Gd { pre: GUARD, x, post: GUARD } }
	fn guards(&self) -> bool { std::hint::black_box(&self.pre) == &GUARD && std::hint::black_box(&self.post) == &GUARD }
}

fn pair<X: It>(x: &X) -> J { let (a, b) = x.who(); ints(&[a, b]) }
fn pairs<X: It>(x: &[X]) -> J {
	// A length that cannot be is not followed into memory.
	if x.len() > 64 { return J::A(vec![ints(&[-2, x.len().min(1 << 30) as i64])]) }
	J::A(x.iter().map(pair).collect())
}
fn flag(b: bool) -> J { J::I(i64::from(b)) }
fn ord(o: Option<Ordering>) -> J { J::I(match o { None => 9, Some(Ordering::Less) => -1, Some(Ordering::Equal) => 0, Some(Ordering::Greater) => 1 }) }
fn rec<X: Hash + ?Sized>(x: &X) -> Vec<u8> { let mut h = Rec::default(); x.hash(&mut h); h.0 }

/// A bounded slice of any capacity.
trait Seq<X: It> {
	fn cap(&self) -> usize;
	fn guards(&self) -> bool;
	fn sl(&self) -> &[X];
	fn sl_mut(&mut self) -> &mut [X];
	fn muts(&mut self) -> bool;
	fn view(&self) -> Vec<(&'static str, J)>;
	fn dup(&self) -> Box<dyn Seq<X>>;
	fn assign(&mut self, o: &dyn Seq<X>);
	fn iter(self: Box<Self>) -> Box<dyn Iter<X>>;
	fn boxed(self: Box<Self>, via: i64) -> Box<[X]>;
	fn vec(self: Box<Self>, via: i64) -> Vec<X>;
	fn raw(self: Box<Self>) -> Box<dyn Seq<X>>;
	fn eref(&self) -> J;
	fn emut(&mut self, via: i64);
	fn truncate(&mut self, n: usize) -> Vec<X>;
	fn extend(&mut self, x: Vec<X>);
	fn idx(&self, n: usize) -> J;
	fn rng(&self, via: i64, a: usize, b: usize) -> J;
	fn seti(&mut self, n: usize, v: u8);
	fn cmp_to(&self, o: &dyn Seq<X>) -> Vec<(&'static str, J)>;
	fn cmp_arr(&self, o: &[X]) -> Vec<(&'static str, J)>;
	fn enc(&self, o: &mut Output) -> Result<(), E>;
	fn any(&self) -> &dyn Any;
	fn copy(&mut self, d: &[u8]) -> Option<()>;
}
trait Iter<X: It> {
	fn cap(&self) -> usize;
	fn guards(&self) -> bool;
	fn sl(&self) -> &[X];
	fn sl_mut(&mut self) -> &mut [X];
	fn muts(&mut self) -> bool;
	fn view(&self) -> Vec<(&'static str, J)>;
	fn dup(&self) -> Box<dyn Iter<X>>;
	fn assign(&mut self, o: &dyn Iter<X>);
	fn any(&self) -> &dyn Any;
	fn next(&mut self) -> Option<X>;
	fn back(&mut self) -> Option<X>;
	fn part(&mut self, via: i64, n: usize) -> Vec<X>;
	fn last(self: Box<Self>) -> Option<X>;
	fn count(self: Box<Self>) -> usize;
	fn collect(self: Box<Self>, via: i64) -> Vec<X>;
	fn collect_sized(self: Box<Self>, n: usize) -> Box<dyn Seq<X>>;
}

macro_rules! with_n { ($n:expr, $N:ident => $e:expr) => { match $n { 0 => { const $N: usize = 0; $e } 1 => { const $N: usize = 1; $e } 2 => { const $N: usize = 2; $e } 3 => { const $N: usize = 3; $e } 5 => { const $N: usize = 5; $e } 17 => { const $N: usize = 17; $e } 40 => { const $N: usize = 40; $e } n => panic!("no capacity {n}") } } }
const CAPS: [usize; 7] = [0, 1, 2, 3, 5, 17, 40];

/// Copying is offered for items that may be copied only.
fn at<X>(s: &[X]) -> (usize, usize) { (s.as_ptr() as usize, s.len()) }

trait MaybeCopy: Sized { fn copy<const N: usize>(s: &mut SizedSlice<Self, N>, d: &[u8]) -> Option<()>; }
impl MaybeCopy for Tok { fn copy<const N: usize>(_: &mut SizedSlice<Self, N>, _: &[u8]) -> Option<()> { unreachable!() } }
impl MaybeCopy for Cp {
	fn copy<const N: usize>(s: &mut SizedSlice<Self, N>, d: &[u8]) -> Option<()> { let v: Vec<Cp> = d.iter().map(|x| Cp::make(*x)).collect(); call(|| s.copy_from_slice(&v)) }
}

impl<X: It + MaybeCopy, const N: usize> Seq<X> for Gd<SizedSlice<X, N>> {
	fn cap(&self) -> usize { N }
	fn guards(&self) -> bool { Gd::guards(self) }
	fn sl(&self) -> &[X] { self.x.as_slice() }
	fn sl_mut(&mut self) -> &mut [X] { self.x.as_mut_slice() }
	fn muts(&mut self) -> bool {
		let a = at(self.x.as_slice());
		let x = &mut self.x;
		let b: &mut [X] = x.borrow_mut();
		let b = at(b);
		let c: &mut [X] = x.as_mut();
		let c = at(c);
		let shared: Vec<usize> = x.each_ref().iter().map(|r| *r as *const X as usize).collect();
		let refs: Vec<usize> = x.each_mut().iter_mut().map(|r| &mut **r as *mut X as usize).collect();
		let step = std::mem::size_of::<X>();
		refs == shared && refs == (0..a.1).map(|n| a.0 + n * step).collect::<Vec<_>>() &&
		at(x.as_mut_slice()) == a && b == a && c == a && at(&mut **x) == a && x.as_mut_ptr() as usize == a.0 && at((&mut *x).into_iter().into_slice()) == a
	}
	fn view(&self) -> Vec<(&'static str, J)> {
		let x = &self.x;
		let plain: Vec<P> = x.as_slice().iter().map(|x| P(x.who().1 as u8)).collect();
		let b: &[X] = x.borrow();
		let r: &[X] = x.as_ref();
		let it: Vec<J> = x.into_iter().map(pair).collect();
		let hash_ok = rec(x) == rec(&plain[..]) && rec(&x.each_ref()) == rec(&plain[..]);
		vec![
			("len", i(x.len())), ("cap", i(x.capacity())), ("em", flag(x.is_empty())), ("fu", flag(x.is_full())),
			("ar", pairs(r)), ("bo", pairs(b)), ("de", pairs(&**x)), ("ii", J::A(it)), ("di", J::A(x.iter().map(pair).collect())),
			("pt", flag(x.as_ptr() == x.as_slice().as_ptr())),
			("dbg", s(&format!("{x:?}"))), ("alt", flag(format!("{x:#?}") == format!("{plain:#?}"))), ("hash", flag(hash_ok)), ("hb", bytes(&rec(x))),
		]
	}
	fn dup(&self) -> Box<dyn Seq<X>> { Box::new(Gd::new(self.x.clone())) }
	fn assign(&mut self, o: &dyn Seq<X>) { self.x.clone_from(&o.any().downcast_ref::<Self>().unwrap().x) }
	fn iter(self: Box<Self>) -> Box<dyn Iter<X>> { Box::new(Gd::new(self.x.into_iter())) }
	fn boxed(self: Box<Self>, via: i64) -> Box<[X]> { if via == 0 { self.x.into_boxed_slice() } else { self.x.into() } }
	fn vec(self: Box<Self>, via: i64) -> Vec<X> { if via == 0 { self.x.into_vec() } else { self.x.into() } }
	fn raw(self: Box<Self>) -> Box<dyn Seq<X>> {
		let (buf, len) = self.x.into_raw_parts();
		Box::new(Gd::new(unsafe { SizedSlice::<X, N>::from_raw_parts(buf, len) }))
	}
	fn eref(&self) -> J {
		let r = self.x.each_ref();
		let same = r.iter().zip(self.x.as_slice()).all(|(a, b)| std::ptr::eq(*a, b));
		J::A(vec![i(r.len()), flag(same), J::A(r.iter().map(|x| pair(*x)).collect())])
	}
	fn emut(&mut self, via: i64) {
		let up = |x: &mut X| { let v = x.who().1 as u8; x.set(((u16::from(v) + 1) % 250) as u8) };
		match via {
			0 => self.x.each_mut().into_iter().for_each(up),
			1 => (&mut self.x).into_iter().for_each(up),
			2 => { let m: &mut [X] = self.x.as_mut(); m.iter_mut().for_each(up) }
			3 => { let m: &mut [X] = self.x.borrow_mut(); m.iter_mut().for_each(up) }
			4 => self.x.iter_mut().for_each(up),
			_ => { let p = self.x.as_mut_ptr(); for n in 0..self.x.len() { up(unsafe { &mut *p.add(n) }) } }
		}
	}
	fn truncate(&mut self, n: usize) -> Vec<X> {
		let len = self.x.len();
		let p = self.x.as_ptr();
		let out = (n..len).map(|k| unsafe { p.add(k).read() }).collect();
		unsafe { self.x.set_len(n) }
		out
	}
	fn extend(&mut self, v: Vec<X>) {
		let len = self.x.len();
		let n = v.len();
		let p = self.x.as_mut_ptr();
		for (k, x) in v.into_iter().enumerate() { unsafe { p.add(len + k).write(x) } }
		unsafe { self.x.set_len(len + n) }
	}
	fn idx(&self, n: usize) -> J { pair(&self.x[n]) }
	fn rng(&self, via: i64, a: usize, b: usize) -> J {
		match via { 0 => pairs(&self.x[a..b]), 1 => pairs(&self.x[a..=b]), 2 => pairs(&self.x[a..]), 3 => pairs(&self.x[..b]), _ => pairs(&self.x[..]) }
	}
	fn seti(&mut self, n: usize, v: u8) { self.x[n].set(v) }
	fn cmp_to(&self, o: &dyn Seq<X>) -> Vec<(&'static str, J)> {
		with_n!(o.cap(), M => {
			let o = &o.any().downcast_ref::<Gd<SizedSlice<X, M>>>().unwrap().x;
			let x = &self.x;
			let total = if M == N { let y = (o as &dyn Any).downcast_ref::<SizedSlice<X, N>>().unwrap(); ord(Some(x.cmp(y))) } else { J::I(8) };
			vec![("eq", flag(x == o)), ("ne", flag(x != o)), ("pc", ord(x.partial_cmp(o))), ("lt", flag(x < o)), ("le", flag(x <= o)), ("gt", flag(x > o)), ("ge", flag(x >= o)), ("oc", total)]
		})
	}
	fn cmp_arr(&self, o: &[X]) -> Vec<(&'static str, J)> {
		let x = &self.x;
		let mut f = vec![("es", flag(*x == o)), ("ps", ord(x.partial_cmp(&o)))];
		// Vectors and arrays of the same values, made without cloning items.
		let v: Vec<X> = Vec::from(unsafe { std::slice::from_raw_parts(o.as_ptr().cast::<MaybeUninit<X>>(), o.len()) }.iter().map(|x| unsafe { x.as_ptr().read() }).collect::<Vec<_>>());
		let v = std::mem::ManuallyDrop::new(v);
		f.push(("ev", flag(*x == *v)));
		f.push(("pv", ord(x.partial_cmp(&*v))));
		if CAPS.contains(&o.len()) {
			with_n!(o.len(), M => { let a: &[X; M] = o.try_into().unwrap(); f.push(("ea", flag(*x == *a))); f.push(("pa", ord(x.partial_cmp(a)))); })
		} else { f.push(("ea", f[0].1.clone())); f.push(("pa", f[1].1.clone())); }
		drop(unsafe { Vec::from_raw_parts(v.as_ptr().cast_mut().cast::<MaybeUninit<X>>(), v.len(), v.capacity()) });
		f
	}
	fn enc(&self, o: &mut Output) -> Result<(), E> { self.x.encode(o).map_err(|e| e.ee()) }
	fn any(&self) -> &dyn Any { self }
	fn copy(&mut self, d: &[u8]) -> Option<()> { X::copy(&mut self.x, d) }
}
impl<X: It + MaybeCopy, const N: usize> Iter<X> for Gd<SizedIter<X, N>> {
	fn cap(&self) -> usize { N }
	fn guards(&self) -> bool { Gd::guards(self) }
	fn sl(&self) -> &[X] { self.x.as_slice() }
	fn sl_mut(&mut self) -> &mut [X] { self.x.as_mut_slice() }
	fn muts(&mut self) -> bool { let a = at(self.x.as_slice()); let b: &mut [X] = self.x.as_mut(); at(b) == a && at(self.x.as_mut_slice()) == a }
	fn part(&mut self, via: i64, n: usize) -> Vec<X> {
		match via {
			0 => self.x.by_ref().take(n).collect(),
			1 => self.x.by_ref().rev().take(n).collect(),
			2 => { let mut v = vec![]; let _ = self.x.try_fold(n, |k, x| { v.push(x); if k <= 1 { None } else { Some(k - 1) } }); v }
			3 => { let mut v = vec![]; let _ = self.x.try_rfold(n, |k, x| { v.push(x); if k <= 1 { None } else { Some(k - 1) } }); v }
			4 => self.x.nth_back(n).into_iter().collect(),
			5 => { let mut k = 0; self.x.find(|_| { k += 1; k > n }).into_iter().collect() }
			6 => { let mut k = 0; self.x.rfind(|_| { k += 1; k > n }).into_iter().collect() }
			7 => { let mut k = 0; self.x.position(|_| { k += 1; k > n }); vec![] }
			_ => { let mut k = 0; self.x.all(|_| { k += 1; k <= n }); vec![] }
		}
	}
	fn view(&self) -> Vec<(&'static str, J)> {
		let (lo, hi) = self.x.size_hint();
		let r: &[X] = self.x.as_ref();
		vec![("lo", i(lo.min(1 << 30))), ("hi", J::I(hi.map_or(-1, |x| x.min(1 << 30) as i64))), ("len", J::I(call(|| self.x.len()).map_or(-1, |x| x.min(1 << 30) as i64))), ("ar", pairs(r))]
	}
	fn dup(&self) -> Box<dyn Iter<X>> { Box::new(Gd::new(self.x.clone())) }
	fn assign(&mut self, o: &dyn Iter<X>) { self.x.clone_from(&o.any().downcast_ref::<Self>().unwrap().x) }
	fn any(&self) -> &dyn Any { self }
	fn next(&mut self) -> Option<X> { self.x.next() }
	fn back(&mut self) -> Option<X> { self.x.next_back() }
	fn last(self: Box<Self>) -> Option<X> { self.x.last() }
	fn count(self: Box<Self>) -> usize { self.x.count() }
	fn collect(self: Box<Self>, via: i64) -> Vec<X> {
		match via {
			0 => self.x.collect(),
			1 => self.x.rev().collect(),
			2 => { let mut v = vec![]; self.x.for_each(|x| v.push(x)); v }
			3 => self.x.rfold(vec![], |mut v, x| { v.push(x); v }),
			5 => self.x.fold(vec![], |mut v, x| { v.push(x); v }),
			6 => { let mut v = Vec::new(); v.extend(self.x); v }
			7 => { let mut v = vec![]; self.x.rev().for_each(|x| v.push(x)); v }
			8 => self.x.map(|x| x).collect(),
			_ => { let mut v = vec![]; for x in self.x { v.push(x) } v }
		}
	}
	fn collect_sized(self: Box<Self>, n: usize) -> Box<dyn Seq<X>> { with_n!(n, M => Box::new(Gd::new(self.x.collect::<SizedSlice<X, M>>()))) }
}

enum Reg<X: It> { E, S(Box<dyn Seq<X>>), I(Box<dyn Iter<X>>), V(Vec<X>), B(Box<[X]>) }
impl<X: It> Reg<X> {
	fn j(&mut self) -> J {
		let m = match self { Reg::S(x) => x.muts(), Reg::I(x) => x.muts(), _ => true };
		let (k, n, g, it) = match self {
			Reg::E => ("e", 0, true, J::A(vec![])),
			Reg::S(x) => ("s", x.cap(), x.guards(), pairs(x.sl())),
			Reg::I(x) => ("i", x.cap(), x.guards(), pairs(x.sl())),
			Reg::V(x) => ("v", 0, true, pairs(x)),
			Reg::B(x) => ("b", 0, true, pairs(x)),
		};
		J::O(vec![("k", s(k)), ("n", i(n)), ("g", flag(g)), ("m", flag(m)), ("it", it)])
	}
	fn take(&mut self) -> Reg<X> { std::mem::replace(self, Reg::E) }
	fn kind(&self) -> char { match self { Reg::E => 'e', Reg::S(_) => 's', Reg::I(_) => 'i', Reg::V(_) => 'v', Reg::B(_) => 'b' } }
	fn len(&self) -> usize { match self { Reg::E => 0, Reg::S(x) => x.sl().len(), Reg::I(x) => x.sl().len(), Reg::V(x) => x.len(), Reg::B(x) => x.len() } }
}

/// An iterator that says nothing true about its length, or goes on after its end.
struct Odd<X: It> { v: std::vec::IntoIter<X>, gap: usize, done: usize, hint: bool }
impl<X: It> Iterator for Odd<X> {
	type Item = X;
	fn next(&mut self) -> Option<X> { if self.done == self.gap { self.done = usize::MAX; return None } if self.done != usize::MAX { self.done += 1 } self.v.next() }
	fn size_hint(&self) -> (usize, Option<usize>) { if self.hint { (0, None) } else { (0, Some(self.v.len())) } }
}

#[derive(Clone, Debug)]
struct Op { op: String, a: usize, b: i64, n: usize, d: Vec<u8> }

/// Values decoded by other containers of items and dropped at once.
fn decode_other<X: It>(kind: i64, inp: &mut Input) -> (&'static str, J, E) {
	fn fin<X: It, C, Er: DE>(r: Result<C, Er>, f: impl Fn(&C) -> Vec<&X>) -> (&'static str, J, E) {
		match r { Ok(c) => ("ok", J::A(f(&c).into_iter().map(pair).collect()), E::none()), Err(e) => ("err", J::A(vec![]), e.de()) }
	}
	match kind {
		0 => fin(Vec::<X>::decode(inp), |c| c.iter().collect()),
		1 => fin(<[X; 2]>::decode(inp), |c| c.iter().collect()),
		2 => fin(LinkedList::<X>::decode(inp), |c| c.iter().collect()),
		3 => fin(Option::<X>::decode(inp), |c| c.iter().collect()),
		4 => fin(Box::<X>::decode(inp), |c| vec![&**c]),
		5 => fin(Rc::<X>::decode(inp), |c| vec![&**c]),
		6 => fin(Arc::<X>::decode(inp), |c| vec![&**c]),
		7 => fin(<(X,)>::decode(inp), |c| vec![&c.0]),
		8 => fin(RefCell::<X>::decode(inp), |c| vec![unsafe { &*c.as_ptr() }]),
		9 => fin(Mutex::<X>::decode(inp).map(|m| m.into_inner().unwrap()), |c| vec![c]),
		10 => fin(<[X; 3]>::decode(inp), |c| c.iter().collect()),
		11 => fin(Vec::<Vec<X>>::decode(inp), |c| c.iter().flatten().collect()),
		12 => fin(Vec::<SizedSlice<X, 2>>::decode(inp), |c| c.iter().flat_map(|x| x.as_slice()).collect()),
		13 => fin(HashMap::<X, X>::decode(inp), |c| { let mut v: Vec<_> = c.iter().collect(); v.sort(); v.into_iter().flat_map(|x| [x.0, x.1]).collect() }),
		14 => fin(HashSet::<X>::decode(inp), |c| { let mut v: Vec<_> = c.iter().collect(); v.sort(); v }),
		15 => fin(<(X, X)>::decode(inp), |c| vec![&c.0, &c.1]),
		16 => fin(Result::<X, X>::decode(inp), |c| match c { Ok(x) | Err(x) => vec![x] }),
		17 => fin(Bound::<X>::decode(inp), |c| match c { Bound::Included(x) | Bound::Excluded(x) => vec![x], Bound::Unbounded => vec![] }),
		18 => fin(RwLock::<X>::decode(inp).map(|m| m.into_inner().unwrap()), |c| vec![c]),
		19 => fin(Range::<X>::decode(inp), |c| vec![&c.start, &c.end]),
		20 => fin(Cow::<X>::decode(inp), |c| vec![&**c]),
		21 => fin(Cell::<X>::decode(inp), |c| vec![unsafe { &*c.as_ptr() }]),
		22 => fin(RangeInclusive::<X>::decode(inp), |c| vec![c.start(), c.end()]),
		23 => fin(RangeFrom::<X>::decode(inp), |c| vec![&c.start]),
		24 => fin(Vec::<(X, X)>::decode(inp), |c| c.iter().flat_map(|x| [&x.0, &x.1]).collect()),
		25 => fin(Option::<Vec<X>>::decode(inp), |c| c.iter().flatten().collect()),
		26 => fin(<[LinkedList<X>; 2]>::decode(inp), |c| c.iter().flatten().collect()),
		_ => unreachable!(),
	}
}
const OTHERS: u64 = 27;

struct Ses<X: It> { regs: [Reg<X>; 4], f0: usize }

impl<X: It + MaybeCopy> Ses<X> {
	fn new(t: &mut T, kind: &str) -> Self {
		reset();
		t.ev("qnew", vec![("ty", s(kind))]);
		Ses { regs: [Reg::E, Reg::E, Reg::E, Reg::E], f0: faults() }
	}
	/// Whether the operation can be carried out on the current registers.
	fn can(&self, o: &Op) -> bool {
		let k = self.regs[o.a].kind();
		match o.op.as_str() {
			"new" | "arr" | "col" | "def" | "dec" => k == 'e' && CAPS.contains(&o.n) && (o.op != "arr" || o.d.len() == o.n),
			"cln" => k == 'e' && matches!(self.regs[o.b as usize].kind(), 's' | 'i'),
			"clf" => o.a != o.b as usize && match (&self.regs[o.a], &self.regs[o.b as usize]) { (Reg::S(x), Reg::S(y)) => x.cap() == y.cap(), (Reg::I(x), Reg::I(y)) => x.cap() == y.cap(), _ => false },
			"iter" | "box" | "raw" | "eref" | "emut" | "view" | "idx" | "rng" | "seti" | "enc" => k == 's',
			"trn" => k == 's' && o.n <= self.regs[o.a].len(),
			"ext" => match &self.regs[o.a] { Reg::S(x) => x.sl().len() + o.d.len() <= x.cap(), _ => false },
			"cpy" => k == 's' && std::any::TypeId::of::<X>() == std::any::TypeId::of::<Cp>(),
			"vec" => k == 's' || k == 'b',
			"cov" => (k == 'v' || k == 'b') && CAPS.contains(&o.n),
			"rev" => k == 's' || k == 'i',
			"cmp" => k == 's' && self.regs[o.b as usize].kind() == 's',
			"drop" => k != 'e',
			"nxt" | "bck" | "ivw" | "lst" | "cnt" | "cll" | "prt" => k == 'i',
			"icol" => k == 'i' && CAPS.contains(&o.n),
			"dct" | "zst" => true,
			_ => panic!("operation {}", o.op),
		}
	}
	fn run(&mut self, t: &mut T, o: &Op) {
		t.begin(&format!("{o:?}"));
		let mk = |d: &[u8]| -> Vec<X> { d.iter().map(|v| X::make(*v)).collect() };
		let mut f: Vec<(&'static str, J)> = vec![];
		let mut r = "ok";
		let mut x = J::A(vec![]);
		let mut err = E::none();
		let a = o.a;
		match o.op.as_str() {
			"new" => {
				let src = mk(&o.d);
				PANIC_AT.with(|p| p.set((o.b / 2) as u64));
				let res = with_n!(o.n, N => call(|| if o.b % 2 == 0 { SizedSlice::<X, N>::new(&src) } else { SizedSlice::<X, N>::try_from(&src[..]) }.map(|s| -> Box<dyn Seq<X>> { Box::new(Gd::new(s)) })));
				PANIC_AT.with(|p| p.set(0));
				match res { None => r = "panic", Some(Ok(s)) => self.regs[a] = Reg::S(s), Some(Err(e)) => { r = "err"; err = e.de() } }
			}
			"arr" => {
				let v = mk(&o.d);
				self.regs[a] = Reg::S(with_n!(o.n, N => { let Ok(arr) = <[X; N]>::try_from(v) else { unreachable!() }; Box::new(Gd::new(SizedSlice::<X, N>::from(arr))) }));
			}
			"col" => {
				let v = mk(&o.d).into_iter();
				self.regs[a] = Reg::S(with_n!(o.n, N => Box::new(Gd::new(match o.b { 0 => v.collect::<SizedSlice<X, N>>(), 1 => SizedSlice::<X, N>::from_iter(Odd { v, gap: usize::MAX - 1, done: 0, hint: true }), _ => Odd { gap: v.len() / 2, v, done: 0, hint: false }.collect::<SizedSlice<X, N>>() }))));
			}
			"def" => self.regs[a] = Reg::S(with_n!(o.n, N => Box::new(Gd::new(SizedSlice::<X, N>::default())))),
			"cln" => {
				PANIC_AT.with(|p| p.set(o.n as u64));
				let src = &self.regs[o.b as usize];
				let res = call(|| match src { Reg::S(s) => Reg::S(s.dup()), Reg::I(s) => Reg::I(s.dup()), _ => unreachable!() });
				PANIC_AT.with(|p| p.set(0));
				match res { None => r = "panic", Some(x) => self.regs[a] = x }
			}
			"clf" => {
				let mut to = self.regs[a].take();
				let src = &self.regs[o.b as usize];
				let res = call(|| match (&mut to, src) { (Reg::S(x), Reg::S(y)) => x.assign(&**y), (Reg::I(x), Reg::I(y)) => x.assign(&**y), _ => unreachable!() });
				if res.is_none() { r = "panic" }
				self.regs[a] = to;
			}
			"iter" => { let Reg::S(s) = self.regs[a].take() else { unreachable!() }; self.regs[a] = Reg::I(s.iter()) }
			"box" => { let Reg::S(s) = self.regs[a].take() else { unreachable!() }; self.regs[a] = Reg::B(s.boxed(o.b)) }
			"vec" => { self.regs[a] = Reg::V(match self.regs[a].take() { Reg::S(s) => s.vec(o.b), Reg::B(b) => b.into_vec(), _ => unreachable!() }) }
			"cov" => { let v = match self.regs[a].take() { Reg::V(v) => v, Reg::B(b) => b.into_vec(), _ => unreachable!() }; self.regs[a] = Reg::S(with_n!(o.n, N => Box::new(Gd::new(v.into_iter().collect::<SizedSlice<X, N>>())))) }
			"raw" => { let Reg::S(s) = self.regs[a].take() else { unreachable!() }; self.regs[a] = Reg::S(s.raw()) }
			"eref" => { let Reg::S(s) = &self.regs[a] else { unreachable!() }; x = s.eref() }
			"emut" => { let Reg::S(s) = &mut self.regs[a] else { unreachable!() }; s.emut(o.b) }
			"rev" => match &mut self.regs[a] { Reg::S(s) => s.sl_mut().reverse(), Reg::I(s) => s.sl_mut().reverse(), _ => unreachable!() },
			"trn" => { let Reg::S(s) = &mut self.regs[a] else { unreachable!() }; let out = s.truncate(o.n); x = pairs(&out) }
			"ext" => { let v = mk(&o.d); let Reg::S(s) = &mut self.regs[a] else { unreachable!() }; s.extend(v) }
			"cpy" => { let Reg::S(s) = &mut self.regs[a] else { unreachable!() }; if s.copy(&o.d).is_none() { r = "panic" } }
			"view" => { let Reg::S(s) = &self.regs[a] else { unreachable!() }; f.push(("w", J::O(s.view()))) }
			"ivw" => { let Reg::I(s) = &self.regs[a] else { unreachable!() }; f.push(("w", J::O(s.view()))) }
			"idx" => { let Reg::S(s) = &self.regs[a] else { unreachable!() }; match call(|| s.idx(o.n)) { None => r = "panic", Some(y) => x = y } }
			"rng" => { let Reg::S(s) = &self.regs[a] else { unreachable!() }; match call(|| s.rng(o.b, o.n, o.d[0] as usize)) { None => r = "panic", Some(y) => x = y } }
			"seti" => { let Reg::S(s) = &mut self.regs[a] else { unreachable!() }; if call(|| s.seti(o.n, o.d[0])).is_none() { r = "panic" } }
			"cmp" => {
				let (Reg::S(p), Reg::S(q)) = (&self.regs[a], &self.regs[o.b as usize]) else { unreachable!() };
				let mut w = p.cmp_to(&**q);
				w.extend(p.cmp_arr(q.sl()));
				f.push(("w", J::O(w)));
			}
			"enc" => {
				let Reg::S(s) = &self.regs[a] else { unreachable!() };
				let mut buf = [0u8; 64];
				let mut out = Output::new(&mut buf);
				match call(|| s.enc(&mut out)) { None => r = "panic", Some(Ok(())) => x = bytes(out.as_slice()), Some(Err(e)) => { r = "err"; err = e } }
			}
			"dec" => {
				let res = with_n!(o.n, N => call(|| SizedSlice::<X, N>::decode(&mut Input::new(&o.d)).map(|s| -> Box<dyn Seq<X>> { Box::new(Gd::new(s)) }).map_err(|e| e.de())));
				match res { None => r = "panic", Some(Ok(s)) => self.regs[a] = Reg::S(s), Some(Err(e)) => { r = "err"; err = e } }
			}
			"dct" => match call(|| decode_other::<X>(o.b, &mut Input::new(&o.d))) { None => r = "panic", Some((rr, y, e)) => { r = rr; x = y; err = e } },
			"drop" => drop(self.regs[a].take()),
			"nxt" | "bck" => {
				let Reg::I(s) = &mut self.regs[a] else { unreachable!() };
				let y = if o.op == "nxt" { s.next() } else { s.back() };
				if let Some(y) = y { x = pair(&y) } else { r = "none" }
			}
			"prt" => { let Reg::I(s) = &mut self.regs[a] else { unreachable!() }; x = pairs(&s.part(o.b, o.n)) }
			"lst" => { let Reg::I(s) = self.regs[a].take() else { unreachable!() }; if let Some(y) = s.last() { x = pair(&y) } else { r = "none" } }
			"cnt" => { let Reg::I(s) = self.regs[a].take() else { unreachable!() }; x = i(s.count()) }
			"cll" => { let Reg::I(s) = self.regs[a].take() else { unreachable!() }; self.regs[a] = Reg::V(s.collect(o.b)) }
			"icol" => { let Reg::I(s) = self.regs[a].take() else { unreachable!() }; self.regs[a] = Reg::S(s.collect_sized(o.n)) }
			"zst" => x = zst(o.n, o.b as usize),
			_ => unreachable!(),
		}
		f.splice(0..0, [("op", s(&o.op)), ("a", i(o.a)), ("b", J::I(o.b)), ("n", i(o.n)), ("d", bytes(&o.d)), ("r", s(r)), ("x", x), ("e", err.j())]);
		f.push(("regs", J::A(self.regs.iter_mut().map(Reg::j).collect())));
		f.push(("log", take_log()));
		f.push(("heap", i(faults() - self.f0)));
		self.f0 = faults();
		t.ev("q", f);
	}
	fn end(mut self, t: &mut T) { for a in 0..4 { if self.regs[a].kind() != 'e' { self.run(t, &Op { op: "drop".into(), a, b: 0, n: 0, d: vec![] }) } } }
}

/// Items without a size: counts only.
fn zst(n: usize, len: usize) -> J {
	thread_local! { static GONE: RefCell<usize> = const { RefCell::new(0) }; }
	struct Z;
	impl Drop for Z { fn drop(&mut self) { GONE.with(|g| *g.borrow_mut() += 1) } }
	GONE.with(|g| *g.borrow_mut() = 0);
	let made = std::cell::Cell::new(0);
	let z = || { made.set(made.get() + 1); Z };
	with_n!(n, N => {
		let s: SizedSlice<Z, N> = (0..len).map(|_| z()).collect();
		let l = s.len();
		let v = s.into_vec();
		let vl = v.len();
		drop(v);
		let s: SizedSlice<Z, N> = (0..len).map(|_| z()).collect();
		let mut it = s.into_iter();
		let mut seen = 0;
		while let Some(z) = if seen % 2 == 0 { it.next() } else { it.next_back() } { seen += 1; drop(z) }
		drop(it);
		let balance = flag(GONE.with(|g| *g.borrow()) == made.get());
		// Items without a size, constructed in every other way.
		let all = [(); 8];
		let lens = |s: &SizedSlice<(), N>| J::A(vec![i(s.len()), i(s.iter().count()), i(s.clone().into_iter().count()), i(s.each_ref().len()), flag(s.is_full()), flag(s.is_empty()), i(s.clone().into_boxed_slice().len())]);
		let new = SizedSlice::<(), N>::new(&all[..len]);
		let arr = lens(&SizedSlice::<(), N>::from([(); N]));
		let src = [len as u8, 0, 9];
		let mut inp = Input::new(&src);
		let dec = SizedSlice::<(), N>::decode(&mut inp);
		let mut buf = [0xEE; 4];
		let mut out = Output::new(&mut buf);
		let enc = new.as_ref().map_or(J::A(vec![]), |s| { s.encode(&mut out).unwrap(); bytes(out.as_slice()) });
		J::A(vec![i(l), i(vl), i(seen), balance, new.as_ref().map_or(J::A(vec![]), |s| lens(s)), arr, dec.as_ref().map_or(J::A(vec![]), |s| lens(s)), enc, i(SizedSlice::<(), N>::default().len())])
	})
}

fn random_op(r: &mut R, long: bool) -> Op {
	let ops = ["new", "new", "arr", "col", "col", "def", "cln", "cln", "clf", "clf", "iter", "iter", "iter", "box", "vec", "vec", "cov", "cov", "raw", "eref", "emut", "rev", "trn", "ext", "view", "view", "idx", "rng", "seti", "cmp", "cmp", "enc", "dec", "dec", "dct", "drop", "drop",
		"nxt", "nxt", "nxt", "nxt", "nxt", "bck", "bck", "bck", "bck", "ivw", "ivw", "lst", "cnt", "cll", "icol", "prt", "prt", "prt", "zst", "cpy", "cpy", "cpy"];
	let op = r.pick(&ops).to_string();
	let n = if long { if r.one_in(8) { r.pick(&CAPS) } else { r.pick(&[17, 17, 40]) } } else { r.pick(&CAPS[..5]) };
	let most = if long { n as u64 + 3 } else { 7 };
	let val = |r: &mut R| if r.one_in(30) { 254 } else if r.one_in(40) { 255 } else { r.below(if long { 200 } else { 6 }) as u8 };
	let mut d: Vec<u8> = (0..if long && r.one_in(2) { n as u64 } else { r.below(most) }).map(|_| val(r)).collect();
	let a = r.below(4) as usize;
	let mut b = 0;
	let mut n2 = n;
	match op.as_str() {
		"new" => b = if r.one_in(6) { 2 * (1 + r.below(5) as i64) + r.below(2) as i64 } else { r.below(2) as i64 },
		"arr" => { d.resize(n, 3) }
		"col" => b = r.below(3) as i64,
		"cln" => { b = r.below(4) as i64; n2 = if r.one_in(6) { 1 + r.below(4) as usize } else { 0 } }
		"cmp" | "clf" => b = r.below(4) as i64,
		"box" | "vec" => b = r.below(2) as i64,
		"emut" => b = r.below(6) as i64,
		"trn" | "idx" => n2 = r.below(most.max(6)) as usize,
		"rng" => { b = r.below(5) as i64; n2 = r.below(most.max(6)) as usize; d = vec![r.below(most.max(7)) as u8] }
		"seti" => { n2 = r.below(most.max(6)) as usize; d = vec![r.below(6) as u8] }
		"dec" | "dct" => {
			if op == "dct" { b = r.below(OTHERS) as i64 }
			let mut v = vec![];
			if op == "dec" || matches!(b, 0 | 2 | 11..=14 | 24) { let l = d.len() as u64 + 2; v.extend([r.below(l) as u8, if r.one_in(12) { 1 } else { 0 }]) }
			else if matches!(b, 3 | 16 | 17 | 25) { v.push(r.below(4) as u8); if b == 25 && v[0] != 0 { v.extend([r.below(7) as u8, 0]) } }
			else if b == 26 { let k = r.below(4) as usize; d.truncate(k); v.extend([k as u8, 0]); v.extend(&d); d = vec![r.below(5) as u8, 0, val(r), val(r), val(r)]; if r.one_in(3) { d.truncate(3) } }
			if matches!(b, 13 | 14) { d.extend((0..r.below(4)).map(|_| r.below(4) as u8)); for x in &mut d { if *x == 254 { *x = 4 } } }
			if b == 11 || b == 12 { let mut e = vec![]; for _ in 0..v[0].min(4) { let k = r.below(4) as u8; e.extend([k, 0]); e.extend((0..k).map(|_| val(r))) } d = e }
			v.extend(d);
			d = v;
		}
		"cll" => b = r.below(9) as i64,
		"prt" => { b = r.below(9) as i64; n2 = r.below(most.max(7)) as usize },
		"zst" => b = r.below(7) as i64,
		_ => {}
	}
	Op { op, a, b, n: n2, d }
}

fn session<X: It + MaybeCopy>(t: &mut T, r: &mut R, kind: &str) {
	let mut z = Ses::<X>::new(t, kind);
	let long = r.one_in(4);
	let mut left = 12 + r.below(40);
	while left > 0 {
		let o = random_op(r, long);
		if z.can(&o) { z.run(t, &o); left -= 1 }
	}
	z.end(t);
}

/// Lines: `Q kind` starts a history, `op a b n | d...` is a step.
fn script(t: &mut T, path: &str) {
	enum Any { None, T(Ses<Tok>), C(Ses<Cp>) }
	let text = std::fs::read_to_string(path).unwrap();
	let mut z = Any::None;
	for line in text.lines() {
		for step in line.split(';') {
			let step = step.trim();
			if step.is_empty() { continue }
			if let Some(kind) = step.strip_prefix("Q ") {
				match std::mem::replace(&mut z, Any::None) { Any::T(z) => z.end(t), Any::C(z) => z.end(t), Any::None => {} }
				z = if kind == "t" { Any::T(Ses::new(t, kind)) } else { Any::C(Ses::new(t, kind)) };
				continue;
			}
			let (l, d) = step.split_once('|').unwrap_or((step, ""));
			let w: Vec<&str> = l.split_whitespace().collect();
			let o = Op { op: w[0].into(), a: w[1].parse().unwrap(), b: w[2].parse().unwrap(), n: w[3].parse().unwrap(), d: d.split_whitespace().map(|x| x.parse().unwrap()).collect() };
			match &mut z { Any::T(z) => if z.can(&o) { z.run(t, &o) } else { t.ev("qskip", vec![]) }, Any::C(z) => if z.can(&o) { z.run(t, &o) } else { t.ev("qskip", vec![]) }, Any::None => panic!("no history") }
		}
	}
	match z { Any::T(z) => z.end(t), Any::C(z) => z.end(t), Any::None => {} }
}

/// One probe of `nth`: what it returned and what is left, or how it ended.
fn nth1(n: usize, len: usize, front: usize, back: usize, k: usize) -> String {
	std::panic::set_hook(Box::new(|_| {}));
	with_n!(n, N => {
		let mut it = (0..len).map(|x| 100 + x as u16).collect::<SizedSlice<u16, N>>().into_iter();
		for _ in 0..front { it.next(); }
		for _ in 0..back { it.next_back(); }
		match call(|| it.nth(k)) {
			None => "panic".into(),
			Some(x) => { let rest = it.as_slice(); format!("{} {} {:?}", x.map_or(-1, i64::from), rest.len(), if rest.len() <= N { rest.to_vec() } else { vec![] }) }
		}
	})
}
fn nth(t: &mut T) {
	let me = std::env::current_exe().unwrap();
	for n in [0, 1, 2, 3, 5] { for len in 0..=n { for front in 0..=len { for back in 0..=(len - front).min(1) { for k in 0..=(len - front - back + 1) {
		let a: Vec<String> = [n, len, front, back, k].iter().map(ToString::to_string).collect();
		let out = std::process::Command::new(&me).arg("nth1").args(&a).stderr(std::process::Stdio::null()).output().unwrap();
		let txt = String::from_utf8_lossy(&out.stdout).trim().to_string();
		let (r, x, left, rest) = if !out.status.success() { ("abort", -1, 0, vec![]) } else if txt == "panic" { ("panic", -1, 0, vec![]) } else {
			let mut w = txt.splitn(3, ' ');
			let x: i64 = w.next().unwrap().parse().unwrap();
			let left: i64 = w.next().unwrap().parse::<usize>().unwrap().min(1 << 30) as i64;
			let rest: Vec<i64> = w.next().unwrap().trim_matches(&['[', ']'][..]).split(", ").filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
			("ok", x, left, rest)
		};
		t.ev("qnth", vec![("n", i(n)), ("len", i(len)), ("f", i(front)), ("b", i(back)), ("k", i(k)), ("r", s(r)), ("x", J::I(x)), ("left", J::I(left)), ("rest", ints(&rest))]);
	} } } } }
}

fn main() {
	let a: Vec<String> = std::env::args().collect();
	match a[1].as_str() {
		"rand" => {
			let mut t = T::new(&a[2]);
			let mut r = R::new(a[3].parse().unwrap());
			let n: usize = a[4].parse().unwrap();
			while t.n < n { if r.one_in(4) { session::<Cp>(&mut t, &mut r, "c") } else { session::<Tok>(&mut t, &mut r, "t") } }
			t.end();
		}
		"script" => { let mut t = T::new(&a[3]); script(&mut t, &a[2]); t.end() }
		"nth" => { let mut t = T::new(&a[2]); nth(&mut t); t.end() }
		"nth1" => { let x: Vec<usize> = a[2..].iter().map(|x| x.parse().unwrap()).collect(); println!("{}", nth1(x[0], x[1], x[2], x[3], x[4])) }
		_ => std::process::exit(2),
	}
}
