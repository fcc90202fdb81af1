//! The registry of types under test.
use crate::errs::{DE, E, EE};
use crate::gen::G;
use crate::json::J;
use crate::model::M;
use crate::rng::R;
use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output, SizedEncode};

pub trait Obj {
	fn val(&self) -> J;
	fn enc(&self, o: &mut Output) -> Result<(), E>;
}
pub struct W<T>(pub T);
impl<T: M + Encode<Error: EE>> Obj for W<T> {
	fn val(&self) -> J { self.0.val() }
	fn enc(&self, o: &mut Output) -> Result<(), E> { self.0.encode(o).map_err(|e| e.ee()) }
}
/// Unsized values, encoded through the unsized type's own implementation.
pub struct U<T: ?Sized>(pub Box<T>);
impl<T: ?Sized + M + Encode<Error: EE>> Obj for U<T> {
	fn val(&self) -> J { self.0.val() }
	fn enc(&self, o: &mut Output) -> Result<(), E> { T::encode(&self.0, o).map_err(|e| e.ee()) }
}

pub type GenFn = fn(&mut R) -> Box<dyn Obj>;
pub type DecFn = fn(&mut Input) -> Result<Box<dyn Obj>, E>;
pub struct Case {
	pub name: &'static str,
	pub ty: J,
	pub max: Option<usize>,
	pub slot: Option<usize>,
	pub gen: Option<GenFn>,
	pub dec: Option<DecFn>,
	pub tags: &'static [&'static str],
}

pub fn gen_w<T: G + M + Encode<Error: EE> + 'static>(r: &mut R) -> Box<dyn Obj> { Box::new(W(T::gen(r))) }
pub fn gen_u<T: ?Sized + M + Encode<Error: EE> + 'static>(r: &mut R) -> Box<dyn Obj> where Box<T>: G { Box::new(U::<T>(G::gen(r))) }
pub fn dec_w<T: M + Encode<Error: EE> + Decode<Error: DE> + 'static>(i: &mut Input) -> Result<Box<dyn Obj>, E> {
	match T::decode(i) { Ok(x) => Ok(Box::new(W(x))), Err(e) => Err(e.de()) }
}
/// Decoded values that cannot be encoded.
pub struct D<T>(pub T);
impl<T: M> Obj for D<T> {
	fn val(&self) -> J { self.0.val() }
	fn enc(&self, _o: &mut Output) -> Result<(), E> { unreachable!() }
}
pub fn dec_d<T: M + Decode<Error: DE> + 'static>(i: &mut Input) -> Result<Box<dyn Obj>, E> {
	match T::decode(i) { Ok(x) => Ok(Box::new(D(x))), Err(e) => Err(e.de()) }
}
pub fn max_of<T: SizedEncode>() -> Option<usize> { Some(T::MAX_ENCODED_SIZE) }
pub fn slot_of<T: SizedEncode>() -> Option<usize> { Some(oct::Slot::<T>::new().capacity()) }

#[macro_export]
macro_rules! cases {
	($v:ident; $($mode:ident [$($tag:literal)*] $t:ty;)*) => { $( $v.push($crate::case!($mode [$($tag)*] $t)); )* };
}
#[macro_export]
macro_rules! case {
	// full: sized, both directions
	(full [$($tag:literal)*] $t:ty) => { $crate::reg::Case { name: stringify!($t), ty: <$t as $crate::model::M>::ty(), max: $crate::reg::max_of::<$t>(), slot: $crate::reg::slot_of::<$t>(), gen: Some($crate::reg::gen_w::<$t>), dec: Some($crate::reg::dec_w::<$t>), tags: &[$($tag),*] } };
	// unsized encoding bound, both directions
	(open [$($tag:literal)*] $t:ty) => { $crate::reg::Case { name: stringify!($t), ty: <$t as $crate::model::M>::ty(), max: None, slot: None, gen: Some($crate::reg::gen_w::<$t>), dec: Some($crate::reg::dec_w::<$t>), tags: &[$($tag),*] } };
	// encoding only
	(sized_enc [$($tag:literal)*] $t:ty) => { $crate::reg::Case { name: stringify!($t), ty: <$t as $crate::model::M>::ty(), max: $crate::reg::max_of::<$t>(), slot: $crate::reg::slot_of::<$t>(), gen: Some($crate::reg::gen_w::<$t>), dec: None, tags: &[$($tag),*] } };
	(enc [$($tag:literal)*] $t:ty) => { $crate::reg::Case { name: stringify!($t), ty: <$t as $crate::model::M>::ty(), max: None, slot: None, gen: Some($crate::reg::gen_w::<$t>), dec: None, tags: &[$($tag),*] } };
	// encoding only, of an unsized type
	(uns [$($tag:literal)*] $t:ty) => { $crate::reg::Case { name: stringify!($t), ty: <$t as $crate::model::M>::ty(), max: None, slot: None, gen: Some($crate::reg::gen_u::<$t>), dec: None, tags: &[$($tag),*] } };
	// decoding only
	(dec [$($tag:literal)*] $t:ty) => { $crate::reg::Case { name: stringify!($t), ty: <$t as $crate::model::M>::ty(), max: None, slot: None, gen: None, dec: Some($crate::reg::dec_d::<$t>), tags: &[$($tag),*] } };
	// no values
	(never [$($tag:literal)*] $t:ty) => { $crate::reg::Case { name: stringify!($t), ty: <$t as $crate::model::M>::ty(), max: $crate::reg::max_of::<$t>(), slot: $crate::reg::slot_of::<$t>(), gen: None, dec: Some($crate::reg::dec_d::<$t>), tags: &[$($tag),*] } };
}
