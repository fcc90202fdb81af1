//! Projection of Rust types and values to the specification's descriptors and values.
use crate::json::{bytes, i, ints, J};
use std::borrow::Cow;
use std::cell::{Cell, LazyCell, RefCell};
use std::collections::{HashMap, HashSet, LinkedList};
use std::convert::Infallible;
use std::ffi::{CStr, CString};
use std::hash::BuildHasher;
use std::marker::{PhantomData, PhantomPinned};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, SocketAddrV4, SocketAddrV6};
use std::num::{NonZero, Saturating, Wrapping};
use std::ops::{Bound, Range, RangeFrom, RangeFull, RangeInclusive, RangeTo, RangeToInclusive};
use std::rc::Rc;
use std::sync::atomic::*;
use std::sync::{Arc, LazyLock, Mutex, RwLock};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

pub trait M {
	fn ty() -> J;
	fn val(&self) -> J;
}

pub fn k(kind: &str) -> J { J::O(vec![("k", J::S(kind.into()))]) }
pub fn kof(kind: &str, of: J) -> J { J::O(vec![("k", J::S(kind.into())), ("of", of)]) }
pub fn kts(kind: &str, ts: Vec<J>) -> J { J::O(vec![("k", J::S(kind.into())), ("ts", J::A(ts))]) }
pub fn var(idx: i64, f: Vec<J>) -> J { J::O(vec![("i", J::I(idx)), ("f", J::A(f))]) }

macro_rules! int {
	($($t:ty, $w:literal, $s:literal;)*) => { $(
		impl M for $t {
			fn ty() -> J { J::O(vec![("k", J::S("int".into())), ("w", J::I($w)), ("s", J::I($s))]) }
			fn val(&self) -> J { bytes(&self.to_be_bytes()) }
		}
	)* };
}
int! { u8,1,0; i8,1,1; u16,2,0; i16,2,1; u32,4,0; i32,4,1; u64,8,0; i64,8,1; u128,16,0; i128,16,1; }
impl M for f32 {
	fn ty() -> J { u32::ty() }
	fn val(&self) -> J { bytes(&self.to_bits().to_be_bytes()) }
}
impl M for f64 {
	fn ty() -> J { u64::ty() }
	fn val(&self) -> J { bytes(&self.to_bits().to_be_bytes()) }
}
impl M for usize {
	fn ty() -> J { k("usize") }
	fn val(&self) -> J { bytes(&(*self as u64).to_be_bytes()) }
}
impl M for isize {
	fn ty() -> J { k("isize") }
	fn val(&self) -> J { bytes(&(*self as i64).to_be_bytes()) }
}
impl M for bool {
	fn ty() -> J { k("bool") }
	fn val(&self) -> J {
		// Read the representation: an invalid `bool` must not pass as a valid one.
		let raw = unsafe { (&raw const *self).cast::<u8>().read() };
		J::I(i64::from(raw))
	}
}
impl M for char {
	fn ty() -> J { k("char") }
	fn val(&self) -> J {
		let raw = unsafe { (&raw const *self).cast::<u32>().read() };
		J::I(i64::from(raw.min(0x7FFF_FFFF)))
	}
}
macro_rules! nonzero {
	($($t:ty)*) => { $(
		impl M for NonZero<$t> {
			fn ty() -> J { kof("nonzero", <$t>::ty()) }
			fn val(&self) -> J {
				let raw = unsafe { (&raw const *self).cast::<$t>().read() };
				raw.val()
			}
		}
	)* };
}
nonzero! { u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 usize isize }

macro_rules! atomic {
	($($a:ty, $t:ty;)*) => { $(
		impl M for $a {
			fn ty() -> J { <$t>::ty() }
			fn val(&self) -> J { self.load(Ordering::SeqCst).val() }
		}
	)* };
}
atomic! {
	AtomicBool, bool; AtomicU8, u8; AtomicI8, i8; AtomicU16, u16; AtomicI16, i16; AtomicU32, u32;
	AtomicI32, i32; AtomicU64, u64; AtomicI64, i64; AtomicUsize, usize; AtomicIsize, isize;
}

macro_rules! tuple {
	($($t:ident $n:tt),+) => {
		impl<$($t: M),+> M for ($($t,)+) {
			fn ty() -> J { kts("tuple", vec![$($t::ty()),+]) }
			fn val(&self) -> J { J::A(vec![$(self.$n.val()),+]) }
		}
	};
}
tuple!(A 0, B 1);
tuple!(A 0, B 1, C 2);
tuple!(A 0, B 1, C 2, D 3);
tuple!(A 0, B 1, C 2, D 3, E 4);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, K 9);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, K 9, L 10);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, K 9, L 10, N 11);

/// Wrappers have the descriptor and value of what they hold.
macro_rules! transparent {
	($([$($g:tt)*] $t:ty, $inner:ty, |$x:ident| $e:expr;)*) => { $(
		impl<$($g)*> M for $t {
			fn ty() -> J { <$inner>::ty() }
			fn val(&self) -> J { let $x = self; $e }
		}
	)* };
}
transparent! {
	[T: M + ?Sized] &T, T, |x| (**x).val();
	[T: M + ?Sized] &mut T, T, |x| (**x).val();
	[T: M + ?Sized] Box<T>, T, |x| (**x).val();
	[T: M + ?Sized] Rc<T>, T, |x| (**x).val();
	[T: M + ?Sized] Arc<T>, T, |x| (**x).val();
	[T: M + ?Sized + ToOwned] Cow<'_, T>, T, |x| { let y: &T = x; y.val() };
	[T: M + Copy] Cell<T>, T, |x| x.get().val();
	[T: M] Mutex<T>, T, |x| x.lock().unwrap_or_else(|e| e.into_inner()).val();
	[T: M] RwLock<T>, T, |x| x.read().unwrap_or_else(|e| e.into_inner()).val();
	[T: M] Wrapping<T>, T, |x| x.0.val();
	[T: M] Saturating<T>, T, |x| x.0.val();
	[T: M] (T,), T, |x| x.0.val();
	[T: M] LazyCell<T>, T, |x| { let y: &T = x; y.val() };
	[T: M] LazyLock<T>, T, |x| { let y: &T = x; y.val() };
	[T: M] RangeFrom<T>, T, |x| x.start.val();
	[T: M] RangeTo<T>, T, |x| x.end.val();
	[T: M] RangeToInclusive<T>, T, |x| x.end.val();
}

macro_rules! unit {
	($([$($g:tt)*] $t:ty;)*) => { $(
		impl<$($g)*> M for $t {
			fn ty() -> J { kts("tuple", vec![]) }
			fn val(&self) -> J { J::A(vec![]) }
		}
	)* };
}
unit! { [] (); [T] PhantomData<T>; [] PhantomPinned; [] RangeFull; }

impl M for Infallible {
	fn ty() -> J { k("never") }
	fn val(&self) -> J { match *self {} }
}
impl<T: M> M for Range<T> {
	fn ty() -> J { kts("tuple", vec![T::ty(), T::ty()]) }
	fn val(&self) -> J { J::A(vec![self.start.val(), self.end.val()]) }
}
impl<T: M> M for RangeInclusive<T> {
	fn ty() -> J { kts("tuple", vec![T::ty(), T::ty()]) }
	fn val(&self) -> J { J::A(vec![self.start().val(), self.end().val()]) }
}
impl<T: M, const N: usize> M for [T; N] {
	fn ty() -> J { J::O(vec![("k", J::S("array".into())), ("n", i(N)), ("of", T::ty())]) }
	fn val(&self) -> J { J::A(self.iter().map(M::val).collect()) }
}
impl<T: M> M for [T] {
	fn ty() -> J { kof("seq", T::ty()) }
	fn val(&self) -> J { J::A(self.iter().map(M::val).collect()) }
}
impl<T: M> M for Vec<T> {
	fn ty() -> J { kof("seq", T::ty()) }
	fn val(&self) -> J { J::A(self.iter().map(M::val).collect()) }
}
impl<T: M> M for LinkedList<T> {
	fn ty() -> J { kof("seq", T::ty()) }
	fn val(&self) -> J { J::A(self.iter().map(M::val).collect()) }
}
impl<T: M, const N: usize> M for oct::SizedSlice<T, N> {
	fn ty() -> J { J::O(vec![("k", J::S("sized".into())), ("cap", i(N)), ("of", T::ty())]) }
	fn val(&self) -> J { J::A(self.as_slice().iter().map(M::val).collect()) }
}
/// Code points of a text; ill-formed text is shown as a negative marker and its bytes.
pub fn text(b: &[u8]) -> J {
	match std::str::from_utf8(b) {
		Ok(s) => J::A(s.chars().map(|c| J::I(i64::from(u32::from(c)))).collect()),
		Err(_) => ints(&std::iter::once(-1).chain(b.iter().map(|x| i64::from(*x))).collect::<Vec<_>>()),
	}
}
impl M for str {
	fn ty() -> J { k("str") }
	fn val(&self) -> J { text(self.as_bytes()) }
}
impl M for String {
	fn ty() -> J { k("str") }
	fn val(&self) -> J { text(self.as_bytes()) }
}
impl<const N: usize> M for oct::SizedStr<N> {
	fn ty() -> J { J::O(vec![("k", J::S("sizedstr".into())), ("cap", i(N))]) }
	fn val(&self) -> J { text(self.as_bytes()) }
}
impl M for CStr {
	fn ty() -> J { k("cstr") }
	fn val(&self) -> J { bytes(self.to_bytes()) }
}
impl M for CString {
	fn ty() -> J { k("cstr") }
	fn val(&self) -> J { bytes(self.as_bytes()) }
}
impl<K: M, V: M, S: BuildHasher> M for HashMap<K, V, S> {
	fn ty() -> J { J::O(vec![("k", J::S("map".into())), ("key", K::ty()), ("val", V::ty())]) }
	fn val(&self) -> J { J::A(self.iter().map(|(a, b)| J::A(vec![a.val(), b.val()])).collect()) }
}
impl<T: M, S: BuildHasher> M for HashSet<T, S> {
	fn ty() -> J { kof("set", T::ty()) }
	fn val(&self) -> J { J::A(self.iter().map(M::val).collect()) }
}
impl<T: M> M for Option<T> {
	fn ty() -> J { kof("opt", T::ty()) }
	fn val(&self) -> J { match self { None => var(1, vec![]), Some(x) => var(2, vec![x.val()]) } }
}
impl<T: M, E: M> M for Result<T, E> {
	fn ty() -> J { kts("result", vec![T::ty(), E::ty()]) }
	fn val(&self) -> J { match self { Ok(x) => var(1, vec![x.val()]), Err(x) => var(2, vec![x.val()]) } }
}
impl<T: M> M for Bound<T> {
	fn ty() -> J { kof("bound", T::ty()) }
	fn val(&self) -> J {
		match self {
			Bound::Included(x) => var(1, vec![x.val()]),
			Bound::Excluded(x) => var(2, vec![x.val()]),
			Bound::Unbounded => var(3, vec![]),
		}
	}
}
impl<T: M> M for RefCell<T> {
	fn ty() -> J { kof("refcell", T::ty()) }
	fn val(&self) -> J {
		let bor = self.try_borrow().is_err();
		let v = unsafe { (*self.as_ptr()).val() };
		J::O(vec![("bor", J::I(i64::from(bor))), ("v", v)])
	}
}
impl M for Duration {
	fn ty() -> J { k("duration") }
	fn val(&self) -> J { J::O(vec![("s", bytes(&self.as_secs().to_be_bytes())), ("n", J::I(i64::from(self.subsec_nanos())))]) }
}
/// Seconds (floored) and nanoseconds relative to the epoch.
pub fn systime(t: &SystemTime) -> (i64, u32) {
	match t.duration_since(UNIX_EPOCH) {
		Ok(d) => (d.as_secs() as i64, d.subsec_nanos()),
		Err(e) => {
			let d = e.duration();
			let s = 0i64.wrapping_sub(d.as_secs() as i64);
			if d.subsec_nanos() == 0 { (s, 0) } else { (s.wrapping_sub(1), 1_000_000_000 - d.subsec_nanos()) }
		}
	}
}
impl M for SystemTime {
	fn ty() -> J { k("time") }
	fn val(&self) -> J {
		let (s, n) = systime(self);
		J::O(vec![("s", bytes(&s.to_be_bytes())), ("n", J::I(i64::from(n)))])
	}
}
impl M for Ipv4Addr {
	fn ty() -> J { u32::ty() }
	fn val(&self) -> J { bytes(&self.octets()) }
}
impl M for Ipv6Addr {
	fn ty() -> J { u128::ty() }
	fn val(&self) -> J { bytes(&self.octets()) }
}
impl M for IpAddr {
	fn ty() -> J { k("ip") }
	fn val(&self) -> J { match self { IpAddr::V4(x) => var(1, vec![x.val()]), IpAddr::V6(x) => var(2, vec![x.val()]) } }
}
impl M for SocketAddrV4 {
	fn ty() -> J { k("sock4") }
	fn val(&self) -> J { J::A(vec![self.ip().val(), self.port().val()]) }
}
impl M for SocketAddrV6 {
	fn ty() -> J { k("sock6") }
	fn val(&self) -> J { J::A(vec![self.ip().val(), self.port().val(), self.flowinfo().val(), self.scope_id().val()]) }
}
impl M for SocketAddr {
	fn ty() -> J { k("sock") }
	fn val(&self) -> J { match self { SocketAddr::V4(x) => var(1, vec![x.val()]), SocketAddr::V6(x) => var(2, vec![x.val()]) } }
}
