//! Seeded generation of values, biased towards boundaries.
use crate::rng::R;
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet, LinkedList};
use std::ffi::{CStr, CString};
use std::hash::{BuildHasher, Hash};
use std::marker::{PhantomData, PhantomPinned};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, SocketAddrV4, SocketAddrV6};
use std::num::{NonZero, Saturating, Wrapping};
use std::ops::{Bound, Range, RangeFrom, RangeFull, RangeInclusive, RangeTo, RangeToInclusive};
use std::rc::Rc;
use std::sync::atomic::*;
use std::sync::{Arc, Mutex, RwLock};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

pub trait G: Sized { fn gen(r: &mut R) -> Self; }

macro_rules! int {
	($($t:ty)*) => { $(
		impl G for $t {
			fn gen(r: &mut R) -> Self {
				match r.below(8) {
					0 => 0,
					1 => <$t>::MAX,
					2 => <$t>::MIN,
					3 => (r.below(5) as $t).wrapping_sub(2),
					4 => r.pick(&[0x7F, 1, 0x40, 9]),
					_ => ((u128::from(r.u64()) << 64) | u128::from(r.u64())) as $t,
				}
			}
		}
	)* };
}
int! { u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 }
impl G for usize {
	fn gen(r: &mut R) -> Self {
		if r.is_bad() { return r.pick(&[65536, 65537, 0x1_0001, 1 << 32, (1 << 32) + 5, usize::MAX, 1 << 63, 0xFFFF_0000, 0xFFFF_FFFF_FFFF_0001]) }
		match r.below(4) { 0 => r.pick(&[0, 1, 255, 256, 65534, 65535, 32767, 32768]), _ => (r.u64() & 0xFFFF) as usize }
	}
}
impl G for isize {
	fn gen(r: &mut R) -> Self {
		if r.is_bad() { return r.pick(&[32768, -32769, 65535, 65536, -65536, isize::MAX, isize::MIN, 1 << 32, -(1 << 32), 40000, -65535]) }
		match r.below(4) { 0 => r.pick(&[0, 1, -1, 127, -128, 255, 256, -256, 32767, -32768]), _ => (r.u64() as i16) as isize }
	}
}
impl G for f32 { fn gen(r: &mut R) -> Self { if r.one_in(2) { f32::from_bits(r.u64() as u32) } else { r.pick(&[0.0, -0.0, 1.5, f32::MAX, f32::INFINITY, f32::NEG_INFINITY, f32::MIN_POSITIVE, f32::from_bits(0x7FC0_1234)]) } } }
impl G for f64 { fn gen(r: &mut R) -> Self { if r.one_in(2) { f64::from_bits(r.u64()) } else { r.pick(&[0.0, -0.0, 1.5, f64::MAX, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, f64::from_bits(0xFFF8_0000_1234_5678)]) } } }
impl G for bool { fn gen(r: &mut R) -> Self { r.one_in(2) } }
impl G for char {
	fn gen(r: &mut R) -> Self {
		match r.below(6) {
			0 => r.pick(&['\0', 'a', '~', '\u{7F}', '\u{80}', '\u{7FF}', '\u{800}', '\u{D7FF}', '\u{E000}', '\u{FFFD}', '\u{FFFF}', '\u{10000}', '\u{10FFFF}']),
			1 => char::from_u32(r.below(0x11_0000) as u32).unwrap_or('\u{E123}'),
			2 => char::from_u32(0x10000 + r.below(0x10_0000) as u32).unwrap_or('\u{10000}'),
			3 => char::from_u32(0x80 + r.below(0x780) as u32).unwrap_or('x'),
			_ => char::from(0x20 + r.below(0x5F) as u8),
		}
	}
}
macro_rules! nonzero {
	($($t:ty)*) => { $(
		impl G for NonZero<$t> { fn gen(r: &mut R) -> Self { loop { if let Some(x) = NonZero::new(<$t>::gen(r)) { return x } } } }
	)* };
}
nonzero! { u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 usize isize }
macro_rules! atomic {
	($($a:ty, $t:ty;)*) => { $( impl G for $a { fn gen(r: &mut R) -> Self { <$a>::new(<$t>::gen(r)) } } )* };
}
atomic! {
	AtomicBool, bool; AtomicU8, u8; AtomicI8, i8; AtomicU16, u16; AtomicI16, i16; AtomicU32, u32;
	AtomicI32, i32; AtomicU64, u64; AtomicI64, i64; AtomicUsize, usize; AtomicIsize, isize;
}
macro_rules! tuple { ($($t:ident),+) => { impl<$($t: G),+> G for ($($t,)+) { fn gen(r: &mut R) -> Self { ($($t::gen(r),)+) } } }; }
tuple!(A);
tuple!(A, B);
tuple!(A, B, C);
tuple!(A, B, C, D);
tuple!(A, B, C, D, E);
tuple!(A, B, C, D, E, F);
tuple!(A, B, C, D, E, F, H);
tuple!(A, B, C, D, E, F, H, I);
tuple!(A, B, C, D, E, F, H, I, J);
tuple!(A, B, C, D, E, F, H, I, J, K);
tuple!(A, B, C, D, E, F, H, I, J, K, L);
tuple!(A, B, C, D, E, F, H, I, J, K, L, M);

macro_rules! via { ($([$($g:tt)*] $t:ty, |$r:ident| $e:expr;)*) => { $( impl<$($g)*> G for $t { fn gen($r: &mut R) -> Self { $e } } )* }; }
via! {
	[T: G] Box<T>, |r| Box::new(T::gen(r));
	[T: G] Rc<T>, |r| Rc::new(T::gen(r));
	[T: G] Arc<T>, |r| Arc::new(T::gen(r));
	[T: G + ToOwned + 'static] Cow<'static, T>, |r| if r.one_in(2) { Cow::Owned(T::gen(r).to_owned()) } else { Cow::Borrowed(Box::leak(Box::new(T::gen(r)))) };
	[T: G] &'static T, |r| Box::leak(Box::new(T::gen(r)));
	[T: G] &'static mut T, |r| Box::leak(Box::new(T::gen(r)));
	[T: G + Copy] Cell<T>, |r| Cell::new(T::gen(r));
	[T: G] Mutex<T>, |r| Mutex::new(T::gen(r));
	[T: G] RwLock<T>, |r| RwLock::new(T::gen(r));
	[T: G] Wrapping<T>, |r| Wrapping(T::gen(r));
	[T: G] Saturating<T>, |r| Saturating(T::gen(r));
	[T: G] Range<T>, |r| T::gen(r)..T::gen(r);
	[T: G] RangeFrom<T>, |r| T::gen(r)..;
	[T: G] RangeTo<T>, |r| ..T::gen(r);
	[T: G] RangeToInclusive<T>, |r| ..=T::gen(r);
	[T: G] RangeInclusive<T>, |r| T::gen(r)..=T::gen(r);
	[] RangeFull, |_r| ..;
	[] (), |_r| ();
	[T] PhantomData<T>, |_r| PhantomData;
	[] PhantomPinned, |_r| PhantomPinned;
	[T: G] Option<T>, |r| if r.one_in(3) { None } else { Some(T::gen(r)) };
	[T: G, E: G] Result<T, E>, |r| if r.one_in(2) { Err(E::gen(r)) } else { Ok(T::gen(r)) };
	[T: G] Bound<T>, |r| match r.below(3) { 0 => Bound::Included(T::gen(r)), 1 => Bound::Excluded(T::gen(r)), _ => Bound::Unbounded };
	[T: G, const N: usize] [T; N], |r| { r.depth += 1; let x = std::array::from_fn(|_| T::gen(r)); r.depth -= 1; x };
	[T: G] Box<[T]>, |r| Vec::<T>::gen(r).into();
	[] Box<str>, |r| String::gen(r).into();
	[] Box<CStr>, |r| CString::gen(r).into();
	[] Duration, |r| {
		let s = match r.below(4) { 0 => r.pick(&[0, 1, u64::MAX, u64::MAX - 1, 1 << 32]), _ => r.u64() };
		Duration::new(s, r.pick(&[0, 1, 255, 256, 999_999_999, 999_999_998, 123_456_789, 500_000_000]))
	};
	[] Ipv4Addr, |r| match r.below(5) {
		0 => r.pick(&[Ipv4Addr::LOCALHOST, Ipv4Addr::UNSPECIFIED, Ipv4Addr::BROADCAST, Ipv4Addr::new(10, 0, 0, 1), Ipv4Addr::new(192, 168, 0, 1), Ipv4Addr::new(169, 254, 1, 1), Ipv4Addr::new(224, 0, 0, 1), Ipv4Addr::new(239, 255, 255, 255), Ipv4Addr::new(192, 0, 2, 1), Ipv4Addr::new(0, 0, 0, 1)]),
		_ => Ipv4Addr::from_bits(u32::gen(r)),
	};
	[] Ipv6Addr, |r| match r.below(8) {
		0 => Ipv4Addr::gen(r).to_ipv6_mapped(),
		1 => Ipv4Addr::gen(r).to_ipv6_compatible(),
		2 => r.pick(&[Ipv6Addr::LOCALHOST, Ipv6Addr::UNSPECIFIED, Ipv6Addr::new(0xFF02, 0, 0, 0, 0, 0, 0, 1), Ipv6Addr::new(0xFE80, 0, 0, 0, 0, 0, 0, 1), Ipv6Addr::new(0x2001, 0xDB8, 0, 0, 0, 0, 0, 1), Ipv6Addr::new(0x64, 0xFF9B, 0, 0, 0, 0, 0x0102, 0x0304), Ipv6Addr::new(0xFC00, 0, 0, 0, 0, 0, 0, 1), Ipv6Addr::new(0x2002, 0x0102, 0x0304, 0, 0, 0, 0, 1)]),
		_ => Ipv6Addr::from_bits(u128::gen(r)),
	};
	[] IpAddr, |r| if r.one_in(2) { IpAddr::V4(G::gen(r)) } else { IpAddr::V6(G::gen(r)) };
	[] SocketAddrV4, |r| SocketAddrV4::new(G::gen(r), G::gen(r));
	[] SocketAddrV6, |r| SocketAddrV6::new(G::gen(r), G::gen(r), G::gen(r), G::gen(r));
	[] SocketAddr, |r| if r.one_in(2) { SocketAddr::V4(G::gen(r)) } else { SocketAddr::V6(G::gen(r)) };
}
impl<T: G> G for RefCell<T> {
	fn gen(r: &mut R) -> Self {
		let x = RefCell::new(T::gen(r));
		// Borrowed for good: the guard is never dropped.
		if r.is_bad() { std::mem::forget(x.borrow_mut()) }
		else if r.one_in(4) { std::mem::forget(x.borrow()) }
		x
	}
}
impl<T: G> G for Vec<T> {
	fn gen(r: &mut R) -> Self {
		r.depth += 1;
		let n = r.len();
		let v = (0..n).map(|_| T::gen(r)).collect();
		r.depth -= 1;
		v
	}
}
impl<T: G> G for LinkedList<T> { fn gen(r: &mut R) -> Self { Vec::gen(r).into_iter().collect() } }
impl<K: G + Eq + Hash, V: G, S: BuildHasher + Default> G for HashMap<K, V, S> {
	fn gen(r: &mut R) -> Self { Vec::<(K, V)>::gen(r).into_iter().take(24).collect() }
}
impl<T: G + Eq + Hash, S: BuildHasher + Default> G for HashSet<T, S> {
	fn gen(r: &mut R) -> Self { Vec::<T>::gen(r).into_iter().take(24).collect() }
}
impl<T: G, const N: usize> G for oct::SizedSlice<T, N> {
	fn gen(r: &mut R) -> Self {
		r.depth += 1;
		let n = match r.below(4) { 0 => 0, 1 => N, 2 => r.below(N as u64 + 1) as usize, _ => (r.below(3) as usize).min(N) };
		let v = (0..n).map(|_| T::gen(r)).collect();
		r.depth -= 1;
		v
	}
}
impl G for String {
	fn gen(r: &mut R) -> Self {
		r.depth += 1;
		let n = r.len();
		let v = (0..n).map(|_| char::gen(r)).collect();
		r.depth -= 1;
		v
	}
}
impl<const N: usize> G for oct::SizedStr<N> {
	fn gen(r: &mut R) -> Self {
		let n = match r.below(4) { 0 => 0, 1 => N, _ => r.below(N as u64 + 1) as usize };
		let mut s = String::new();
		loop {
			let c = char::gen(r);
			if s.len() + c.len_utf8() > n { break }
			s.push(c);
		}
		while r.one_in(2) && s.len() < n { s.push('x') }
		// SAFETY: valid and short enough.
		unsafe { oct::SizedStr::from_utf8_unchecked(s.as_bytes()) }
	}
}
impl G for CString {
	fn gen(r: &mut R) -> Self {
		r.depth += 1;
		let n = r.len();
		let v: Vec<u8> = (0..n).map(|_| r.pick(&[1, 0x41, 0x7F, 0x80, 0xFF, 0xC3, 0x28])).collect();
		r.depth -= 1;
		CString::new(v).unwrap()
	}
}
impl G for SystemTime {
	fn gen(r: &mut R) -> Self {
		let s: i64 = match r.below(6) {
			0 => r.pick(&[0, 1, -1, 2, -2, i64::MAX, i64::MAX - 1, i64::MIN, i64::MIN + 1, 1 << 32, -(1 << 32)]),
			1 | 2 => r.below(100) as i64 - 50,
			_ => r.u64() as i64,
		};
		let n: u32 = r.pick(&[0, 0, 1, 500_000_000, 999_999_999, 250_000_000]);
		// The floored representation is what the platform stores.
		let base = if s >= 0 { UNIX_EPOCH.checked_add(Duration::from_secs(s as u64)) } else { UNIX_EPOCH.checked_sub(Duration::from_secs(s.unsigned_abs())) };
		base.unwrap_or(UNIX_EPOCH).checked_add(Duration::from_nanos(u64::from(n))).unwrap_or(UNIX_EPOCH)
	}
}
