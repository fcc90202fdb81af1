//! The universe of types: every implementation the crate offers, alone and nested.
use crate::cases;
use crate::errs::E;
use crate::gen::G;
use crate::json::{i, J};
use crate::model::{var, M};
use crate::reg::Case;
use crate::rng::R;
use oct::decode::Decode;
use oct::encode::{Encode, SizedEncode};
use oct::{SizedSlice, SizedStr};
use std::borrow::Cow;
use std::cell::{Cell, LazyCell, RefCell};
use std::collections::hash_map::DefaultHasher;
use std::collections::{HashMap, HashSet, LinkedList};
use std::convert::Infallible;
use std::ffi::{CStr, CString};
use std::hash::BuildHasherDefault;
use std::marker::{PhantomData, PhantomPinned};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, SocketAddrV4, SocketAddrV6};
use std::num::{NonZero, Saturating, Wrapping};
use std::ops::{Bound, Range, RangeFrom, RangeFull, RangeInclusive, RangeTo, RangeToInclusive};
use std::rc::Rc;
use std::sync::atomic::*;
use std::sync::{Arc, LazyLock, Mutex, RwLock};
use std::time::{Duration, SystemTime};

type FixedMap<K, V> = HashMap<K, V, BuildHasherDefault<DefaultHasher>>;

pub fn strct(fs: Vec<J>) -> J { J::O(vec![("k", J::S("struct".into())), ("fs", J::A(fs))]) }
/// Discriminants are given as sixteen digits, implicit ones as no digits.
pub fn variant(d: Option<u128>, f: Vec<J>) -> J {
	J::O(vec![("d", J::A(d.map_or(vec![], |d| d.to_be_bytes().iter().map(|x| J::I(i64::from(*x))).collect()))), ("f", J::A(f))])
}
pub fn enm(repr: &str, vs: Vec<J>) -> J { J::O(vec![("k", J::S("enum".into())), ("repr", J::S(repr.into())), ("vs", J::A(vs))]) }

// ---- declarations with the derive macros (random ones are generated besides) ----
#[derive(Encode, SizedEncode, Decode)]
pub struct Unit;
impl M for Unit { fn ty() -> J { strct(vec![]) } fn val(&self) -> J { J::A(vec![]) } }
impl G for Unit { fn gen(_: &mut R) -> Self { Unit } }

#[derive(Encode, SizedEncode, Decode)]
pub struct Point { pub x: u16, pub y: i32, pub ok: bool }
impl M for Point { fn ty() -> J { strct(vec![u16::ty(), i32::ty(), bool::ty()]) } fn val(&self) -> J { J::A(vec![self.x.val(), self.y.val(), self.ok.val()]) } }
impl G for Point { fn gen(r: &mut R) -> Self { Point { x: G::gen(r), y: G::gen(r), ok: G::gen(r) } } }

#[derive(Encode, Decode)]
pub struct Deep(pub usize, pub Vec<Shape>, pub String, pub Vec<usize>, pub NonZero<u16>);
impl M for Deep {
	fn ty() -> J { strct(vec![usize::ty(), Vec::<Shape>::ty(), String::ty(), Vec::<usize>::ty(), NonZero::<u16>::ty()]) }
	fn val(&self) -> J { J::A(vec![self.0.val(), self.1.val(), self.2.val(), self.3.val(), self.4.val()]) }
}
impl G for Deep { fn gen(r: &mut R) -> Self { Deep(G::gen(r), G::gen(r), G::gen(r), G::gen(r), G::gen(r)) } }

#[derive(Encode, SizedEncode, Decode)]
#[repr(u8)]
pub enum Shape { Dot = 7, Line(u8, isize), Poly { n: u32, closed: bool } = 200, Tail([u16; 2]) }
impl M for Shape {
	fn ty() -> J { enm("u8", vec![variant(Some(7), vec![]), variant(None, vec![u8::ty(), isize::ty()]), variant(Some(200), vec![u32::ty(), bool::ty()]), variant(None, vec![<[u16; 2]>::ty()])]) }
	fn val(&self) -> J {
		match self { Shape::Dot => var(1, vec![]), Shape::Line(a, b) => var(2, vec![a.val(), b.val()]), Shape::Poly { n, closed } => var(3, vec![n.val(), closed.val()]), Shape::Tail(a) => var(4, vec![a.val()]) }
	}
}
impl G for Shape { fn gen(r: &mut R) -> Self { match r.below(4) { 0 => Shape::Dot, 1 => Shape::Line(G::gen(r), G::gen(r)), 2 => Shape::Poly { n: G::gen(r), closed: G::gen(r) }, _ => Shape::Tail(G::gen(r)) } } }

/// Default representation; the last discriminant does not fit it on the wire.
#[derive(Encode, SizedEncode, Decode, Clone, Copy)]
pub enum Plain { A, B = 300, C, D = 32767, E }
impl M for Plain {
	fn ty() -> J { enm("none", vec![variant(None, vec![]), variant(Some(300), vec![]), variant(None, vec![]), variant(Some(32767), vec![]), variant(None, vec![])]) }
	fn val(&self) -> J { var(match self { Plain::A => 1, Plain::B => 2, Plain::C => 3, Plain::D => 4, Plain::E => 5 }, vec![]) }
}
impl G for Plain { fn gen(r: &mut R) -> Self { if r.is_bad() { return Plain::E } [Plain::A, Plain::B, Plain::C, Plain::D][r.below(4) as usize] } }

/// Default representation, implicit discriminants.
#[derive(Encode, SizedEncode, Decode)]
pub enum Impl { A(u8, u16), B, C { s: SizedStr<2>, o: Option<bool> } }
impl M for Impl {
	fn ty() -> J { enm("none", vec![variant(None, vec![u8::ty(), u16::ty()]), variant(None, vec![]), variant(None, vec![SizedStr::<2>::ty(), Option::<bool>::ty()])]) }
	fn val(&self) -> J { match self { Impl::A(a, b) => var(1, vec![a.val(), b.val()]), Impl::B => var(2, vec![]), Impl::C { s, o } => var(3, vec![s.val(), o.val()]) } }
}
impl G for Impl { fn gen(r: &mut R) -> Self { match r.below(3) { 0 => Impl::A(G::gen(r), G::gen(r)), 1 => Impl::B, _ => Impl::C { s: G::gen(r), o: G::gen(r) } } } }

/// Explicit size representation; the last discriminant does not fit it on the wire.
#[derive(Encode, SizedEncode, Decode)]
#[repr(isize)]
pub enum Wide { A, B(SizedStr<3>), C = 300, D = 32767, E(u8) }
impl M for Wide {
	fn ty() -> J { enm("isize", vec![variant(None, vec![]), variant(None, vec![SizedStr::<3>::ty()]), variant(Some(300), vec![]), variant(Some(32767), vec![]), variant(None, vec![u8::ty()])]) }
	fn val(&self) -> J { match self { Wide::A => var(1, vec![]), Wide::B(s) => var(2, vec![s.val()]), Wide::C => var(3, vec![]), Wide::D => var(4, vec![]), Wide::E(x) => var(5, vec![x.val()]) } }
}
impl G for Wide { fn gen(r: &mut R) -> Self { if r.is_bad() { return Wide::E(7) } match r.below(4) { 0 => Wide::A, 1 => Wide::B(G::gen(r)), 2 => Wide::C, _ => Wide::D } } }

/// Large variants, the largest of them first, in between and last.
macro_rules! large {
	($($name:ident $repr:ident $a:ty, $b:ty, $c:ty;)*) => { $(
		#[derive(Encode, SizedEncode, Decode)]
		#[repr($repr)]
		pub enum $name { A($a), B { x: $b }, C(u8, $c) }
		impl M for $name {
			fn ty() -> J { enm(stringify!($repr), vec![variant(None, vec![<$a>::ty()]), variant(None, vec![<$b>::ty()]), variant(None, vec![u8::ty(), <$c>::ty()])]) }
			fn val(&self) -> J { match self { Self::A(a) => var(1, vec![a.val()]), Self::B { x } => var(2, vec![x.val()]), Self::C(n, a) => var(3, vec![n.val(), a.val()]) } }
		}
		impl G for $name { fn gen(r: &mut R) -> Self { match r.below(3) { 0 => Self::A(G::gen(r)), 1 => Self::B { x: G::gen(r) }, _ => Self::C(G::gen(r), G::gen(r)) } } }
	)* };
}
large! { LargeA u8 [u8; 256], u64, [u8; 254]; LargeB u16 u64, [u8; 256], SizedStr<3>; LargeC u8 [u8; 200], (), [u16; 130]; LargeD u32 SizedStr<65530>, [u64; 40], SizedSlice<u64, 33>; }

/// More fields than a digit can count.
#[derive(Encode, SizedEncode, Decode)]
pub struct Many(pub u8, pub u16, pub u8, pub i8, pub u32, pub u8, pub bool, pub u8, pub u16, pub u8, pub u64, pub u8, pub i16, pub u8, pub u8);
impl M for Many {
	fn ty() -> J { strct(vec![u8::ty(), u16::ty(), u8::ty(), i8::ty(), u32::ty(), u8::ty(), bool::ty(), u8::ty(), u16::ty(), u8::ty(), u64::ty(), u8::ty(), i16::ty(), u8::ty(), u8::ty()]) }
	fn val(&self) -> J { J::A(vec![self.0.val(), self.1.val(), self.2.val(), self.3.val(), self.4.val(), self.5.val(), self.6.val(), self.7.val(), self.8.val(), self.9.val(), self.10.val(), self.11.val(), self.12.val(), self.13.val(), self.14.val()]) }
}
impl G for Many { fn gen(r: &mut R) -> Self { Many(G::gen(r), G::gen(r), G::gen(r), G::gen(r), G::gen(r), G::gen(r), G::gen(r), G::gen(r), G::gen(r), G::gen(r), G::gen(r), G::gen(r), G::gen(r), G::gen(r), G::gen(r)) } }

#[derive(Encode, SizedEncode, Decode)]
pub struct Outer { pub w: Wide, pub s: Option<Shape>, pub m: [Point; 2] }
impl M for Outer { fn ty() -> J { strct(vec![Wide::ty(), Option::<Shape>::ty(), <[Point; 2]>::ty()]) } fn val(&self) -> J { J::A(vec![self.w.val(), self.s.val(), self.m.val()]) } }
impl G for Outer { fn gen(r: &mut R) -> Self { Outer { w: G::gen(r), s: G::gen(r), m: G::gen(r) } } }

#[derive(Encode, SizedEncode, Decode)]
#[repr(i32)]
pub enum Neg { A(u8) = 5, B, C = 2147483647 }
impl M for Neg {
	fn ty() -> J { enm("i32", vec![variant(Some(5), vec![u8::ty()]), variant(None, vec![]), variant(Some(2147483647), vec![])]) }
	fn val(&self) -> J { match self { Neg::A(x) => var(1, vec![x.val()]), Neg::B => var(2, vec![]), Neg::C => var(3, vec![]) } }
}
impl G for Neg { fn gen(r: &mut R) -> Self { match r.below(3) { 0 => Neg::A(G::gen(r)), 1 => Neg::B, _ => Neg::C } } }

#[derive(Encode, Decode)]
pub struct HasNeg(pub Neg, pub Vec<Neg>);
impl M for HasNeg { fn ty() -> J { strct(vec![Neg::ty(), Vec::<Neg>::ty()]) } fn val(&self) -> J { J::A(vec![self.0.val(), self.1.val()]) } }
impl G for HasNeg { fn gen(r: &mut R) -> Self { HasNeg(G::gen(r), G::gen(r)) } }

#[derive(Encode, SizedEncode, Decode)]
pub struct Gen<T, const N: usize>(pub T, pub [u8; N])
where
	T: Encode + Decode,
	<T as Encode>::Error: Into<oct::error::GenericEncodeError>,
	<T as Decode>::Error: Into<oct::error::GenericDecodeError>,
	T: SizedEncode;
impl<T: M, const N: usize> M for Gen<T, N> where T: Encode + Decode + SizedEncode, <T as Encode>::Error: Into<oct::error::GenericEncodeError>, <T as Decode>::Error: Into<oct::error::GenericDecodeError> {
	fn ty() -> J { strct(vec![T::ty(), <[u8; N]>::ty()]) } fn val(&self) -> J { J::A(vec![self.0.val(), self.1.val()]) }
}
impl<T: G, const N: usize> G for Gen<T, N> where T: Encode + Decode + SizedEncode, <T as Encode>::Error: Into<oct::error::GenericEncodeError>, <T as Decode>::Error: Into<oct::error::GenericDecodeError> {
	fn gen(r: &mut R) -> Self { Gen(G::gen(r), G::gen(r)) }
}

#[derive(Encode, SizedEncode)]
pub struct EncOnly { pub c: char, pub r: Range<u8>, pub w: Wrapping<i16> }
impl M for EncOnly { fn ty() -> J { strct(vec![char::ty(), Range::<u8>::ty(), i16::ty()]) } fn val(&self) -> J { J::A(vec![self.c.val(), self.r.val(), self.w.val()]) } }
impl G for EncOnly { fn gen(r: &mut R) -> Self { EncOnly { c: G::gen(r), r: G::gen(r), w: G::gen(r) } } }

impl G for LazyCell<u32> { fn gen(r: &mut R) -> Self { if r.one_in(2) { LazyCell::new(|| 0xDEAD_BEEF) } else { LazyCell::new(|| 7) } } }
impl G for LazyLock<Vec<u8>> { fn gen(r: &mut R) -> Self { if r.one_in(2) { LazyLock::new(|| vec![1, 2, 3]) } else { LazyLock::new(Vec::new) } } }
impl G for LazyLock<u16> { fn gen(r: &mut R) -> Self { if r.one_in(2) { LazyLock::new(|| 0xABCD) } else { LazyLock::new(|| 1) } } }
impl G for Cow<'static, str> { fn gen(r: &mut R) -> Self { if r.one_in(2) { Cow::Owned(G::gen(r)) } else { Cow::Borrowed(Box::leak(String::gen(r).into_boxed_str())) } } }
impl G for Cow<'static, [u16]> { fn gen(r: &mut R) -> Self { if r.one_in(2) { Cow::Owned(G::gen(r)) } else { Cow::Borrowed(Box::leak(Vec::<u16>::gen(r).into_boxed_slice())) } } }
impl G for &'static str { fn gen(r: &mut R) -> Self { Box::leak(String::gen(r).into_boxed_str()) } }
impl G for Rc<str> { fn gen(r: &mut R) -> Self { String::gen(r).into() } }
impl G for Arc<[u32]> { fn gen(r: &mut R) -> Self { Vec::<u32>::gen(r).into() } }
impl G for Rc<CStr> { fn gen(r: &mut R) -> Self { CString::gen(r).into() } }

pub fn all() -> Vec<Case> {
	let mut v = Vec::new();
	cases! { v;
		full [] u8; full [] u16; full [] u32; full [] u64; full [] u128;
		full [] i8; full [] i16; full [] i32; full [] i64; full [] i128;
		full [] f32; full [] f64; full [] usize; full [] isize; full [] bool; full [] char; full [] ();
		full [] NonZero<u8>; full [] NonZero<i8>; full [] NonZero<u16>; full [] NonZero<i16>; full [] NonZero<u32>; full [] NonZero<i32>;
		full [] NonZero<u64>; full [] NonZero<i64>; full [] NonZero<u128>; full [] NonZero<i128>; full [] NonZero<usize>; full [] NonZero<isize>;
		full ["cell" "wrap"] AtomicBool; full ["cell" "wrap"] AtomicU8; full ["cell" "wrap"] AtomicI8; full ["cell" "wrap"] AtomicU16; full ["cell" "wrap"] AtomicI16; full ["cell" "wrap"] AtomicU32;
		full ["cell" "wrap"] AtomicI32; full ["cell" "wrap"] AtomicU64; full ["cell" "wrap"] AtomicI64; full ["cell" "wrap"] AtomicUsize; full ["cell" "wrap"] AtomicIsize;
		full ["wrap"] (u32,);
		full [] (u8, u16); full [] (u8, u16, i32); full [] (u8, u16, i32, u64); full [] (u8, u16, i32, u64, bool);
		full [] (i8, u16, i32, u64, bool, f32); full [] (u8, u16, i32, u64, bool, f32, i8); full [] (u8, u16, i32, u64, bool, f32, i8, u128);
		full [] (u8, u16, i32, u64, bool, f32, i8, i16, f64); full [] (u8, u16, i32, u64, bool, f32, i8, i16, f64, u8);
		full [] (u8, u16, i32, u64, bool, f32, i8, i16, f64, u8, u16); full [] (u8, u16, i32, u64, bool, f32, i8, i16, f64, u8, u16, i128);
		full [] ((u8, u16), (i32,), ()); open [] (String, String); open [] (Vec<u8>, Vec<u8>, Vec<u8>); dec [] (usize, isize);
		full [] [u8; 0]; full [] [u8; 1]; full [] [u16; 3]; full [] [(); 4]; full [] [u128; 2]; full [] [usize; 4]; full [] [[i16; 2]; 3]; full [] [char; 2]; open [] [String; 2]; open [] [Vec<u16>; 3]; full [] [u8; 300]; full [] [NonZero<u8>; 3];
		open [] Vec<u8>; open [] Vec<u32>; open [] Vec<()>; open [] Vec<bool>; open [] Vec<char>; open [] Vec<usize>; open [] Vec<isize>; open [] Vec<String>; open [] Vec<Vec<u8>>; open [] Vec<Vec<usize>>; open [] Vec<Option<u16>>; open [] Vec<(u8, u16)>; open [] Vec<NonZero<u32>>; open [] Vec<SystemTime>; open [] Vec<CString>; open [] Vec<[u8; 2]>; open [] Vec<u128>;
		open [] LinkedList<u16>; open [] LinkedList<usize>; open [] LinkedList<char>; open [] LinkedList<()>; open [] LinkedList<LinkedList<u8>>; open [] LinkedList<String>;
		full [] SizedSlice<u8, 4>; full [] SizedSlice<u16, 3>; full [] SizedSlice<u16, 2>; full [] SizedSlice<u32, 0>; full [] SizedSlice<(), 5>; full [] SizedSlice<usize, 4>; full [] SizedSlice<char, 3>; open [] SizedSlice<String, 3>; full [] SizedSlice<SizedSlice<u8, 2>, 3>; full [] SizedSlice<u8, 300>; full [] SizedSlice<Option<u16>, 2>; open [] SizedSlice<Vec<u8>, 2>; full [] SizedSlice<NonZero<u8>, 4>; full [] SizedSlice<SizedStr<5>, 3>;
		open [] String; full [] SizedStr<0>; full [] SizedStr<1>; full [] SizedStr<4>; full [] SizedStr<16>; full [] SizedStr<300>; open [] CString;
		open [] Vec<SizedStr<4>>; full [] [SizedStr<2>; 2];
		full [] Option<()>; full [] Option<u8>; full [] Option<Option<u16>>; full [] Option<usize>; open [] Option<String>; full [] Option<char>; full [] Option<NonZero<u8>>; full [] Option<SizedSlice<u16, 2>>;
		full [] Result<u16, u8>; full [] Result<(), u128>; full [] Result<u8, ()>; open [] Result<String, String>; full [] Result<u8, u64>; sized_enc [] Result<u16, char>; full [] Result<SizedStr<3>, SizedStr<9>>; full [] Result<NonZero<u8>, NonZero<u64>>; full [] Result<(u8, u64), u16>; full [] Option<Result<u32, u8>>;
		full [] Bound<u16>; full [] Bound<()>; full [] Bound<usize>; full [] Bound<char>; open [] Bound<String>; full [] Bound<Bound<u8>>;
		full [] Range<u16>; full [] Range<usize>; full [] Range<char>; full [] RangeFrom<u32>; full [] RangeTo<i16>; full [] RangeInclusive<u8>; full [] RangeInclusive<i64>; full [] RangeToInclusive<u64>; full [] RangeFull; open [] Range<String>;
		open [] HashMap<u8, u16>; open [] HashMap<String, String>; open [] HashMap<usize, usize>; open [] HashMap<u16, Option<u8>>; open [] FixedMap<u32, ()>; open [] HashMap<bool, u64>; open [] HashMap<isize, isize>; dec [] HashMap<u8, usize>;
		open [] HashSet<u8>; open [] HashSet<u32>; open [] HashSet<String>; open [] HashSet<usize>; open [] HashSet<NonZero<u8>>; open [] HashSet<()>; open [] HashSet<char>;
		open [] Vec<HashMap<u8, u8>>; open [] Option<HashSet<u16>>; open [] (HashSet<u8>, HashSet<u8>);
		full [] Duration; full [] SystemTime; full [] Ipv4Addr; full [] Ipv6Addr; full [] IpAddr; full [] SocketAddr; full [] SocketAddrV4; full [] SocketAddrV6;
		full [] Option<SystemTime>; full [] [Duration; 2]; open [] Vec<IpAddr>; open [] Vec<SocketAddr>; full [] Option<IpAddr>;
		never [] Infallible; full [] PhantomData<String>; open [] PhantomPinned; dec [] Option<Infallible>;
		full ["wrap"] Wrapping<i32>; full ["wrap"] Saturating<u16>; full ["wrap" "cell"] Cell<u32>; full ["wrap"] Box<u64>; full ["wrap"] Rc<u16>; full ["wrap"] Arc<i8>; open ["wrap"] Box<Vec<u16>>; full ["wrap"] Box<SizedStr<4>>; open ["wrap"] Rc<String>; full ["wrap"] Arc<[u16; 2]>; full ["wrap"] Cow<'static, u32>; full ["wrap"] Box<Box<usize>>; full ["wrap"] Wrapping<u128>; full ["wrap"] Cell<isize>; full ["wrap"] Box<char>; full ["wrap"] Arc<NonZero<u8>>;
		full ["wrap" "cell"] Mutex<u32>; open ["wrap" "cell"] Mutex<Vec<u8>>; full ["wrap" "cell"] RwLock<i16>; open ["wrap" "cell"] RwLock<String>; full ["wrap" "cell"] Mutex<usize>; full ["wrap" "cell"] RwLock<usize>; open ["wrap" "cell"] Arc<Mutex<Vec<usize>>>;
		full ["cell"] RefCell<u16>; open ["cell"] RefCell<String>; full ["cell"] RefCell<usize>; full ["cell"] [RefCell<u8>; 3]; open ["cell"] Vec<RefCell<usize>>; full ["cell"] RefCell<RefCell<u8>>; full ["cell"] Option<RefCell<u8>>;
		sized_enc ["wrap" "cell"] LazyCell<u32>; enc ["wrap" "cell"] LazyLock<Vec<u8>>; sized_enc ["wrap" "cell"] LazyLock<u16>;
		uns ["wrap"] [u16]; uns ["wrap"] [usize]; uns ["wrap"] [()]; uns ["wrap"] [char]; uns [] str; uns [] CStr; enc ["wrap"] Cow<'static, str>; enc ["wrap"] Cow<'static, [u16]>; sized_enc ["wrap"] &'static u32; enc ["wrap"] &'static str; sized_enc ["wrap"] &'static mut i16; enc ["wrap"] Box<[u16]>; enc ["wrap"] Box<str>; enc ["wrap"] Rc<str>; enc ["wrap"] Arc<[u32]>; enc ["wrap"] Rc<CStr>; sized_enc ["wrap"] &'static [u16; 3];
		full ["huge"] SizedSlice<(), 70000>; full ["huge"] SizedStr<70000>; full ["huge"] [(); 70000]; full ["huge"] SizedSlice<usize, 700>; full ["huge"] [usize; 300]; full ["huge"] [char; 300]; full ["huge"] Option<[u16; 200]>; full ["huge"] Result<[u16; 130], [u8; 300]>; full ["huge"] Result<u64, (u64, u128)>; full ["huge"] Result<[u8; 256], [u8; 8]>; full ["huge"] ([u16; 3], [u32; 70]); full ["huge"] Option<SizedStr<65530>>; full ["huge"] SizedSlice<[u8; 40], 7>; full ["huge"] Bound<[u8; 255]>;
		full ["derived"] Unit; full ["derived"] Many; full ["huge"] LargeA; full ["huge"] LargeB; full ["huge"] LargeC; full ["huge"] LargeD; full ["derived"] Point; open ["derived"] Deep; full ["derived"] Shape; full ["derived"] Wide; full ["derived"] Plain; full ["derived"] Impl; open ["derived"] Vec<Plain>; full ["derived"] Outer; full ["derived"] Neg; open ["derived"] HasNeg; full ["derived"] Gen<u16, 3>; full ["derived"] Gen<NonZero<u8>, 0>; full ["derived"] Gen<usize, 1>; sized_enc ["derived"] EncOnly; open ["derived"] Vec<Shape>; open ["derived"] Vec<Wide>; full ["derived"] SizedSlice<Point, 2>; full ["derived"] Option<Outer>; open ["derived"] Vec<Vec<Outer>>; full ["derived"] Result<Neg, Neg>;
	}
	v
}

/// The types file: name -> descriptor, with the declared maximum where there is one.
/// Types with equal keys read what the others write.
pub fn group_key(ty: &J) -> String {
	let J::O(f) = ty else { return String::new() };
	let get = |n: &str| f.iter().find(|(k, _)| *k == n).map(|(_, v)| v);
	let Some(J::S(k)) = get("k") else { return String::new() };
	match k.as_str() {
		"seq" | "sized" => format!("seq {}", get("of").unwrap()),
		"str" | "sizedstr" | "cstr" => "seq {\"k\":\"int\",\"w\":1,\"s\":0}".into(),
		_ => ty.to_string(),
	}
}
pub fn types_json(cs: &[Case]) -> String {
	let mut s = String::from("{");
	for (n, c) in cs.iter().enumerate() {
		if n > 0 { s.push_str(",\n") }
		let max = c.max.map_or(J::I(-1), i);
		let slot = c.slot.map_or(J::I(-1), i);
		let key = group_key(&c.ty);
		let mates = cs.iter().filter(|d| d.name != c.name && d.dec.is_some() && c.dec.is_some() && group_key(&d.ty) == key).map(|d| J::S(d.name.into())).collect();
		let tags = J::A(c.tags.iter().map(|t| J::S((*t).into())).collect());
		s.push_str(&format!("{}:{}", J::S(c.name.into()), J::O(vec![("ty", c.ty.clone()), ("max", max), ("slot", slot), ("tags", tags), ("mates", J::A(mates))])));
	}
	s.push('}');
	s
}
#[allow(unused)] fn _unused(_: E) {}
