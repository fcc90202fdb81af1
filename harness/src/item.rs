//! Items that know who they are: every creation, clone and drop is logged.
use crate::errs::{DE, E, EE};
use crate::json::{ints, J};
use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output, SizedEncode};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::fmt::{self, Debug, Formatter};
use std::hash::{Hash, Hasher};

thread_local! {
	static LOG: RefCell<Vec<[i64; 3]>> = const { RefCell::new(Vec::new()) };
	static NEXT: Cell<i64> = const { Cell::new(1) };
	/// The how-manieth clone from now on panics (0: none).
	pub static PANIC_AT: Cell<u64> = const { Cell::new(0) };
}
pub fn reset() { LOG.with(|l| l.borrow_mut().clear()); NEXT.with(|n| n.set(1)); PANIC_AT.with(|n| n.set(0)) }
pub fn take_log() -> J { LOG.with(|l| J::A(l.borrow_mut().drain(..).map(|x| ints(&x)).collect())) }
fn log(x: [i64; 3]) { LOG.with(|l| l.borrow_mut().push(x)) }
fn fresh() -> i64 { NEXT.with(|n| { let x = n.get(); n.set(x + 1); x }) }

const ALIVE: u64 = 0xA11E_7E57_A11E_7E57;
const DEAD: u64 = 0xDEAD_7E57_DEAD_7E57;

/// What the harness needs from an item.
pub trait It: Clone + Debug + Ord + Hash + Encode<Error = BadItem> + Decode<Error = BadItem> + SizedEncode + 'static {
	fn make(val: u8) -> Self;
	/// Identity and value; (-1, -1) when this is no live item.
	fn who(&self) -> (i64, i64);
	fn set(&mut self, val: u8);
}

/// An item with a destructor.
pub struct Tok { magic: u64, id: i64, val: u8 }
impl Drop for Tok {
	fn drop(&mut self) {
		if self.magic == ALIVE { log([2, self.id, 0]); self.magic = DEAD }
		else if self.magic == DEAD { log([2, self.id, 1]) }
		else { log([3, 0, 0]) }
		std::hint::black_box(self);
	}
}
impl Clone for Tok {
	fn clone(&self) -> Self {
		let n = PANIC_AT.with(|n| { let x = n.get(); if x > 0 { n.set(x - 1) } x });
		if n == 1 { panic!("clone") }
		let (src, val) = self.who();
		let id = fresh();
		log([1, src, id]);
		Tok { magic: ALIVE, id, val: val as u8 }
	}
}
impl It for Tok {
	fn make(val: u8) -> Self { let id = fresh(); log([0, id, i64::from(val)]); Tok { magic: ALIVE, id, val } }
	fn who(&self) -> (i64, i64) {
		let magic = unsafe { (&raw const self.magic).read_volatile() };
		if magic == ALIVE || (magic == DEAD && self.id < 1 << 30) { (self.id, i64::from(self.val)) } else { (-1, -1) }
	}
	fn set(&mut self, val: u8) { self.val = val }
}

/// An item that may be copied.
#[derive(Clone, Copy)]
pub struct Cp(u16);
impl It for Cp {
	fn make(val: u8) -> Self { Cp(0x4200 | u16::from(val)) }
	fn who(&self) -> (i64, i64) { if self.0 >> 8 == 0x42 { (0, i64::from(self.0 & 0xFF)) } else { (-1, -1) } }
	fn set(&mut self, val: u8) { *self = Cp::make(val) }
}

/// The plain value of an item, to compare with what slices of items do.
#[derive(Clone, Copy)]
pub struct P(pub u8);

/// 254 is not comparable to anything; 255 can be neither encoded nor decoded.
#[derive(Debug, PartialEq, Eq)]
pub struct BadItem;
impl fmt::Display for BadItem { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("bad item") } }
impl std::error::Error for BadItem {}
impl EE for BadItem { fn ee(&self) -> E { E::root("item", J::A(vec![])) } }
impl DE for BadItem { fn de(&self) -> E { E::root("item", J::A(vec![])) } }

macro_rules! like {
	($($t:ty, |$x:ident| $v:expr;)*) => { $(
		impl $t { fn v(&self) -> u8 { let $x = self; $v } }
		impl Debug for $t { fn fmt(&self, f: &mut Formatter) -> fmt::Result { Debug::fmt(&self.v(), f) } }
		impl PartialEq for $t { fn eq(&self, o: &Self) -> bool { self.v() == o.v() && self.v() != 254 } }
		impl Eq for $t {}
		impl PartialOrd for $t {
			#[allow(clippy::non_canonical_partial_ord_impl)]
			fn partial_cmp(&self, o: &Self) -> Option<Ordering> { if self.v() == 254 || o.v() == 254 { None } else { Some(self.v().cmp(&o.v())) } }
		}
		impl Ord for $t { fn cmp(&self, o: &Self) -> Ordering { self.v().cmp(&o.v()) } }
		impl Hash for $t { fn hash<H: Hasher>(&self, h: &mut H) { self.v().hash(h) } }
	)* };
}
like! { Tok, |x| x.who().1 as u8; Cp, |x| x.who().1 as u8; P, |x| x.0; }
macro_rules! codec {
	($($t:ty)*) => { $(
		impl Encode for $t {
			type Error = BadItem;
			fn encode(&self, o: &mut Output) -> Result<(), BadItem> { if self.v() == 255 { return Err(BadItem) } o.write(&[self.v()]).unwrap(); Ok(()) }
		}
		impl Decode for $t {
			type Error = BadItem;
			fn decode(i: &mut Input) -> Result<Self, BadItem> { let v = i.read(1).unwrap()[0]; if v == 255 { return Err(BadItem) } Ok(<$t>::make(v)) }
		}
		impl SizedEncode for $t { const MAX_ENCODED_SIZE: usize = 1; }
	)* };
}
codec! { Tok Cp }

/// A hasher that shows what it is fed.
#[derive(Default)]
pub struct Rec(pub Vec<u8>);
impl Hasher for Rec {
	fn write(&mut self, b: &[u8]) { self.0.push(b.len() as u8); self.0.extend_from_slice(b) }
	fn finish(&self) -> u64 { 0 }
}
