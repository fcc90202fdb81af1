//! Constructs error values of every shape, converts them, walks their sources
//! and reads their messages.
//!   errors rand OUT SEED COUNT
use oct::decode::{Decode, Input};
use oct::encode::Encode;
use oct::error::*;
use oct_verif_harness::errs::{DE, E, EE};
use oct_verif_harness::json::{bytes, i, s, J};
use oct_verif_harness::model::M;
use oct_verif_harness::rng::R;
use oct_verif_harness::trace::{call, T};
use std::cell::{BorrowError, RefCell};
use std::convert::Infallible;
use std::error::Error;
use std::fmt::{Debug, Display};

fn node(k: &str, v: J) -> J { J::O(vec![("k", s(k)), ("v", v), ("e", J::A(vec![]))]) }
fn wrap(k: &str, v: J, e: J) -> J { J::O(vec![("k", s(k)), ("v", v), ("e", J::A(vec![e]))]) }
fn none() -> J { J::A(vec![]) }

/// An error the harness can make, describe and convert.
trait Er: Error + 'static + Sized {
	fn make(r: &mut R) -> Self;
	fn tree(&self) -> J;
	fn generic(self) -> Option<E> { None }
}
/// Those that convert to the generic errors.
trait Enc: Er + EE { }
trait Dec: Er + DE { }

fn index(r: &mut R) -> usize { match r.below(4) { 0 => r.pick(&[0, 1, 2, 255, 256, 65535, 65536, 0x7FFF_FFFE]), _ => (r.u64() % 0x7FFF_FFFF) as usize } }
fn num(n: usize) -> J { bytes(&(n as u64).to_be_bytes()) }
fn any_u64(r: &mut R) -> u64 { match r.below(3) { 0 => r.pick(&[0, 1, 65535, 65536, u64::MAX, 1 << 63, 1 << 32]), _ => r.u64() } }

macro_rules! leaf {
	($($t:ty, $k:literal, |$x:ident| $v:expr, |$r:ident| $m:expr;)*) => { $(
		impl Er for $t {
			fn make($r: &mut R) -> Self { $m }
			fn tree(&self) -> J { let $x = self; node($k, $v) }
			fn generic(self) -> Option<E> { conv::Via(self).generic() }
		}
		impl Leaf for $t { fn leaf(&self) -> J { self.tree() } }
	)* };
}
trait Leaf { fn leaf(&self) -> J; }
leaf! {
	UsizeEncodeError, "usize", |x| J::A(vec![num(x.0)]), |r| UsizeEncodeError(any_u64(r) as usize);
	IsizeEncodeError, "isize", |x| J::A(vec![bytes(&(x.0 as i64).to_be_bytes())]), |r| IsizeEncodeError(any_u64(r) as isize);
	BorrowError, "borrow", |_x| none(), |_r| { let c = RefCell::new(0); let _b = c.borrow_mut(); c.try_borrow().map(|_| ()).unwrap_err() };
	CharDecodeError, "char", |x| J::A(vec![bytes(&x.code_point.to_be_bytes())]), |r| CharDecodeError { code_point: any_u64(r) as u32 };
	NonZeroDecodeError, "nonzero", |_x| none(), |_r| NonZeroDecodeError;
	CStringDecodeError, "nul", |x| J::A(vec![num(x.index)]), |r| CStringDecodeError { index: index(r) };
	Utf8Error, "utf8", |x| J::A(vec![num(x.index), bytes(&[x.value])]), |r| Utf8Error { value: r.u64() as u8, index: index(r) };
	Utf16Error, "utf16", |x| J::A(vec![num(x.index), bytes(&x.value.to_be_bytes())]), |r| Utf16Error { value: r.u64() as u16, index: index(r) };
	LengthError, "len", |x| J::A(vec![num(x.capacity), num(x.len)]), |r| LengthError { capacity: index(r), len: index(r) };
	SystemTimeDecodeError, "time", |x| J::A(vec![bytes(&x.timestamp.to_be_bytes())]), |r| SystemTimeDecodeError { timestamp: any_u64(r) as i64 };
	InputError, "input", |x| J::A(vec![num(x.capacity), num(x.position), num(x.count)]), |r| InputError { capacity: index(r), position: index(r), count: index(r) };
	OutputError, "output", |x| J::A(vec![num(x.capacity), num(x.position), num(x.count)]), |r| OutputError { capacity: index(r), position: index(r), count: index(r) };
}
/// Picks the conversion a type has, if it has one.
mod conv {
	use super::*;
	pub struct Via<X>(pub X);
	macro_rules! enc { ($($t:ty)*) => { $( impl Via<$t> { pub fn generic(self) -> Option<E> { Some(GenericEncodeError::from(self.0).ee()) } } )* }; }
	macro_rules! dec { ($($t:ty)*) => { $( impl Via<$t> { pub fn generic(self) -> Option<E> { Some(GenericDecodeError::from(self.0).de()) } } )* }; }
	macro_rules! not { ($($t:ty)*) => { $( impl Via<$t> { pub fn generic(self) -> Option<E> { None } } )* }; }
	enc! { UsizeEncodeError IsizeEncodeError BorrowError }
	dec! { NonZeroDecodeError CStringDecodeError Utf8Error LengthError SystemTimeDecodeError }
	not! { CharDecodeError Utf16Error InputError OutputError }
}

impl<X: Er> Er for ItemEncodeError<usize, X> where GenericEncodeError: From<Self> {
	fn make(r: &mut R) -> Self { ItemEncodeError { index: index(r), error: X::make(r) } }
	fn tree(&self) -> J { wrap("item", J::A(vec![num(self.index)]), self.error.tree()) }
	fn generic(self) -> Option<E> { Some(GenericEncodeError::from(self).ee()) }
}
impl<X: Er> Er for ItemDecodeError<usize, X> where GenericDecodeError: From<Self> {
	fn make(r: &mut R) -> Self { ItemDecodeError { index: index(r), error: X::make(r) } }
	fn tree(&self) -> J { wrap("item", J::A(vec![num(self.index)]), self.error.tree()) }
	fn generic(self) -> Option<E> { Some(GenericDecodeError::from(self).de()) }
}
impl<L: Er, X: Er> Er for CollectionEncodeError<L, X> where GenericEncodeError: From<Self> {
	fn make(r: &mut R) -> Self { if r.one_in(3) { Self::BadLength(L::make(r)) } else { Self::BadItem(X::make(r)) } }
	fn tree(&self) -> J { match self { Self::BadLength(e) => wrap("clen", none(), e.tree()), Self::BadItem(e) => wrap("citem", none(), e.tree()) } }
	fn generic(self) -> Option<E> { Some(GenericEncodeError::from(self).ee()) }
}
impl<L: Er, X: Er> Er for CollectionDecodeError<L, X> where GenericDecodeError: From<Self> {
	fn make(r: &mut R) -> Self { if r.one_in(3) { Self::BadLength(L::make(r)) } else { Self::BadItem(X::make(r)) } }
	fn tree(&self) -> J { match self { Self::BadLength(e) => wrap("clen", none(), e.tree()), Self::BadItem(e) => wrap("citem", none(), e.tree()) } }
	fn generic(self) -> Option<E> { Some(GenericDecodeError::from(self).de()) }
}
impl<D: Encode<Error: Er + EE> + Debug + Display + 'static, F: Er> Er for EnumEncodeError<D, F> where GenericEncodeError: From<Self> {
	fn make(r: &mut R) -> Self { if r.one_in(3) { Self::BadDiscriminant(Er::make(r)) } else { Self::BadField(F::make(r)) } }
	fn tree(&self) -> J { match self { Self::BadDiscriminant(e) => wrap("edisc", none(), e.tree()), Self::BadField(e) => wrap("efield", none(), e.tree()) } }
	fn generic(self) -> Option<E> { Some(GenericEncodeError::from(self).ee()) }
}
trait Disc: Decode<Error = Infallible> + M + Debug + Display + Copy + 'static { fn some(r: &mut R) -> Self; }
macro_rules! disc { ($($t:ty)*) => { $( impl Disc for $t { fn some(r: &mut R) -> Self { match r.below(4) { 0 => <$t>::MIN, 1 => <$t>::MAX, _ => ((u128::from(r.u64()) << 64) | u128::from(r.u64())) as $t } } } )* }; }
disc! { u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 usize isize }
impl<D: Disc, F: Er> Er for EnumDecodeError<D, F> where GenericDecodeError: From<Self> {
	fn make(r: &mut R) -> Self { if r.one_in(2) { Self::UnassignedDiscriminant { value: D::some(r) } } else { Self::BadField(F::make(r)) } }
	fn tree(&self) -> J {
		match self { Self::InvalidDiscriminant(_) => node("unknown", none()), Self::UnassignedDiscriminant { value } => node("disc", J::A(vec![value.val()])), Self::BadField(e) => wrap("efield", none(), e.tree()) }
	}
	fn generic(self) -> Option<E> { Some(GenericDecodeError::from(self).de()) }
}
impl<X: Er> Er for RefCellEncodeError<X> {
	fn make(r: &mut R) -> Self { if r.one_in(2) { Self::BadBorrow(Er::make(r)) } else { Self::BadValue(X::make(r)) } }
	fn tree(&self) -> J { match self { Self::BadBorrow(e) => wrap("rborrow", none(), e.tree()), Self::BadValue(e) => wrap("rvalue", none(), e.tree()) } }
}
impl Er for StringError {
	fn make(r: &mut R) -> Self { match r.below(3) { 0 => Self::BadUtf16(Er::make(r)), 1 => Self::BadUtf8(Er::make(r)), _ => Self::SmallBuffer(Er::make(r)) } }
	fn tree(&self) -> J { match self { Self::BadUtf16(e) => wrap("str", none(), e.tree()), Self::BadUtf8(e) => wrap("str", none(), e.tree()), Self::SmallBuffer(e) => wrap("str", none(), e.tree()), _ => node("unknown", none()) } }
}
impl Er for GenericEncodeError {
	fn make(r: &mut R) -> Self { match r.below(3) { 0 => Self::BadBorrow(Er::make(r)), 1 => Self::LargeIsize(Er::make(r)), _ => Self::LargeUsize(Er::make(r)) } }
	fn tree(&self) -> J { match self { Self::BadBorrow(e) => wrap("gen", none(), e.tree()), Self::LargeIsize(e) => wrap("gen", none(), e.tree()), Self::LargeUsize(e) => wrap("gen", none(), e.tree()), _ => node("unknown", none()) } }
	fn generic(self) -> Option<E> { Some(self.ee()) }
}
impl Er for GenericDecodeError {
	fn make(r: &mut R) -> Self {
		match r.below(6) { 0 => Self::BadString(Er::make(r)), 1 => Self::NullString(Er::make(r)), 2 => Self::NullInteger(NonZeroDecodeError), 3 => Self::SmallBuffer(Er::make(r)), 4 => Self::NarrowSystemTime(Er::make(r)), _ => Self::UnassignedDiscriminant { value: u128::some(r) } }
	}
	fn tree(&self) -> J {
		match self {
			Self::BadString(e) => wrap("gen", none(), e.tree()), Self::NullString(e) => wrap("gen", none(), e.tree()), Self::NullInteger(e) => wrap("gen", none(), e.tree()),
			Self::SmallBuffer(e) => wrap("gen", none(), e.tree()), Self::NarrowSystemTime(e) => wrap("gen", none(), e.tree()),
			Self::UnassignedDiscriminant { value } => node("disc", J::A(vec![bytes(&value.to_be_bytes())])), _ => node("unknown", none()),
		}
	}
	fn generic(self) -> Option<E> { Some(self.de()) }
}

/// Every number a message names, as 128-bit values (all ways of reading each word).
fn numbers(m: &str) -> J {
	let c: Vec<char> = m.chars().collect();
	let mut out: Vec<u128> = vec![];
	let mut k = 0;
	while k < c.len() {
		if !c[k].is_ascii_alphanumeric() { k += 1; continue }
		let a = k;
		while k < c.len() && c[k].is_ascii_alphanumeric() { k += 1 }
		let w: String = c[a..k].iter().collect();
		let neg = a > 0 && c[a - 1] == '-';
		let mut add = |x: u128| { if !out.contains(&x) && out.len() < 24 { out.push(x) } };
		if let Ok(x) = w.parse::<u128>() { add(x); if neg { add(x.wrapping_neg()) } }
		if let Some(h) = w.strip_prefix("0x").or(w.strip_prefix("0X")) { if let Ok(x) = u128::from_str_radix(h, 16) { add(x) } }
		else if a > 0 && c[a - 1] == '+' { if let Ok(x) = u128::from_str_radix(&w, 16) { add(x) } }
	}
	J::A(out.into_iter().map(|x| bytes(&x.to_be_bytes())).collect())
}

/// The last error of the chain of sources.
fn last<'a>(e: &'a (dyn Error + 'static), n: &mut usize) -> &'a (dyn Error + 'static) {
	let mut x = e;
	*n = 1;
	while let Some(y) = x.source() { x = y; *n += 1; if *n > 50 { break } }
	x
}
fn leaf_tree(x: &(dyn Error + 'static)) -> Option<J> {
	macro_rules! tries { ($($t:ty)*) => { $( if let Some(y) = x.downcast_ref::<$t>() { return Some(y.tree()) } )* }; }
	tries! { UsizeEncodeError IsizeEncodeError BorrowError CharDecodeError NonZeroDecodeError CStringDecodeError Utf8Error Utf16Error LengthError SystemTimeDecodeError InputError OutputError GenericDecodeError }
	macro_rules! enums { ($($d:ty)*) => { $( tries! { EnumDecodeError<$d, GenericDecodeError> EnumDecodeError<$d, Utf8Error> } )* }; }
	enums! { u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 usize isize }
	tries! { EnumDecodeError<u8, EnumDecodeError<i16, GenericDecodeError>> EnumDecodeError<u8, Cd<Id<Utf8Error>>> }
	None
}
type Cd<X> = CollectionDecodeError<LengthError, X>;
type Id<X> = ItemDecodeError<usize, X>;
type Ce<X> = CollectionEncodeError<UsizeEncodeError, X>;
type Ie<X> = ItemEncodeError<usize, X>;

fn probe<X: Er>(t: &mut T, name: &str, r: &mut R) {
	let e = X::make(r);
	let tree = e.tree();
	t.begin(&format!("{name} {tree}"));
	let obs = call(|| {
		let mut n = 0;
		let l = last(&e, &mut n);
		let m = e.to_string();
		let d = format!("{e:?}");
		(leaf_tree(l).unwrap_or(node("unknown", none())), n, numbers(&m), numbers(&l.to_string()), m, d.is_empty())
	});
	let Some((leaf, n, nums, lnums, m, _)) = obs else { t.ev("err", vec![("ty", s(name)), ("tree", tree), ("r", s("panic"))]); return };
	let g = match call(|| e.generic()) { None => J::A(vec![s("panic")]), Some(None) => J::A(vec![]), Some(Some(g)) => J::A(vec![g.j()]) };
	t.ev("err", vec![("ty", s(name)), ("tree", tree), ("r", s("ok")), ("leaf", leaf), ("n", i(n)), ("nums", nums), ("lnums", lnums), ("gen", g), ("msg", s(&m))]);
}
macro_rules! probes { ($($t:ty;)*) => { &[$( (|t, r| probe::<$t>(t, stringify!($t), r)) as fn(&mut T, &mut R) ),*] }; }
fn all() -> &'static [fn(&mut T, &mut R)] {
	probes! {
		UsizeEncodeError; IsizeEncodeError; BorrowError; CharDecodeError; NonZeroDecodeError; CStringDecodeError; Utf8Error; Utf16Error; LengthError; SystemTimeDecodeError; InputError; OutputError;
		StringError; GenericEncodeError; GenericDecodeError;
		Ie<UsizeEncodeError>; Ce<Ie<UsizeEncodeError>>; Ce<Ie<IsizeEncodeError>>; Ce<Ie<Ce<Ie<UsizeEncodeError>>>>; Ce<Ie<GenericEncodeError>>; Ce<BorrowError>;
		RefCellEncodeError<UsizeEncodeError>; RefCellEncodeError<Ce<Ie<IsizeEncodeError>>>; RefCellEncodeError<RefCellEncodeError<UsizeEncodeError>>;
		EnumEncodeError<usize, GenericEncodeError>; EnumEncodeError<isize, GenericEncodeError>; EnumEncodeError<isize, Ce<Ie<UsizeEncodeError>>>; Ce<Ie<EnumEncodeError<usize, GenericEncodeError>>>; EnumEncodeError<usize, EnumEncodeError<isize, UsizeEncodeError>>;
		Id<Utf8Error>; Cd<Utf8Error>; Cd<Id<Utf8Error>>; Cd<Id<NonZeroDecodeError>>; Cd<Id<Cd<Id<CStringDecodeError>>>>; Cd<Id<SystemTimeDecodeError>>; Cd<Id<GenericDecodeError>>; Cd<Cd<LengthError>>;
		EnumDecodeError<u8, GenericDecodeError>; EnumDecodeError<i8, GenericDecodeError>; EnumDecodeError<u16, GenericDecodeError>; EnumDecodeError<i16, GenericDecodeError>; EnumDecodeError<u32, GenericDecodeError>; EnumDecodeError<i32, GenericDecodeError>;
		EnumDecodeError<u64, GenericDecodeError>; EnumDecodeError<i64, GenericDecodeError>; EnumDecodeError<u128, GenericDecodeError>; EnumDecodeError<i128, GenericDecodeError>; EnumDecodeError<usize, GenericDecodeError>; EnumDecodeError<isize, GenericDecodeError>;
		EnumDecodeError<u8, EnumDecodeError<i16, GenericDecodeError>>; Cd<Id<EnumDecodeError<i8, Utf8Error>>>; EnumDecodeError<u8, Cd<Id<Utf8Error>>>; Cd<Id<EnumDecodeError<isize, GenericDecodeError>>>; Id<Id<Cd<Id<LengthError>>>>;
	}
}

fn main() {
	let a: Vec<String> = std::env::args().collect();
	let mut t = T::new(&a[2]);
	let mut r = R::new(a[3].parse().unwrap());
	let n: usize = a[4].parse().unwrap();
	while t.n < n { for p in all() { p(&mut t, &mut r) } }
	t.end();
	let _ = Input::new(&[]);
}
#[allow(unused)] fn _unused<X: Leaf + Enc, Y: Dec>(x: X, y: Y) {}
