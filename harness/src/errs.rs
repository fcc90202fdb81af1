//! Projection of error values: the path of wrappers and the root cause.
use crate::json::{bytes, i, s, J};
use crate::model::M;
use oct::decode::Decode;
use oct::encode::Encode;
use oct::error::*;
use std::cell::BorrowError;
use std::convert::Infallible;

pub struct E { pub p: Vec<i64>, pub c: J }
impl E {
	pub fn root(kind: &str, v: J) -> E { E { p: vec![], c: J::O(vec![("k", s(kind)), ("v", v)]) } }
	pub fn none() -> E { E::root("none", J::A(vec![])) }
	pub fn under(mut self, x: i64) -> E { self.p.insert(0, x); self }
	pub fn j(self) -> J { J::O(vec![("p", J::A(self.p.into_iter().map(J::I).collect())), ("c", self.c)]) }
}

pub const FIELD: i64 = -1;
pub const DISC: i64 = -2;
pub const LEN: i64 = -3;
pub const CONTENT: i64 = -4;
pub const BORROW: i64 = -5;

/// Encode errors.
pub trait EE { fn ee(&self) -> E; }
/// Decode errors.
pub trait DE { fn de(&self) -> E; }

impl EE for Infallible { fn ee(&self) -> E { match *self {} } }
impl DE for Infallible { fn de(&self) -> E { match *self {} } }
impl EE for UsizeEncodeError { fn ee(&self) -> E { E::root("usize", self.0.val()) } }
impl EE for IsizeEncodeError { fn ee(&self) -> E { E::root("isize", self.0.val()) } }
impl EE for BorrowError { fn ee(&self) -> E { E::root("borrow", J::A(vec![])) } }
impl<L: EE, I: EE> EE for CollectionEncodeError<L, I> {
	fn ee(&self) -> E {
		match self {
			CollectionEncodeError::BadLength(e) => e.ee().under(LEN),
			CollectionEncodeError::BadItem(e) => e.ee(),
		}
	}
}
fn idx(n: usize) -> i64 { i64::from((n as u64).min(0x7FFF_FFFF) as u32) }
impl<X: EE> EE for ItemEncodeError<usize, X> { fn ee(&self) -> E { self.error.ee().under(idx(self.index)) } }
impl<X: EE> EE for (usize, X) { fn ee(&self) -> E { self.1.ee().under(idx(self.0)) } }
impl<D: Encode<Error: EE>, F: EE> EE for EnumEncodeError<D, F> {
	fn ee(&self) -> E {
		match self {
			EnumEncodeError::BadDiscriminant(e) => e.ee().under(DISC),
			EnumEncodeError::BadField(e) => e.ee().under(FIELD),
		}
	}
}
impl<X: EE> EE for RefCellEncodeError<X> {
	fn ee(&self) -> E {
		match self {
			RefCellEncodeError::BadBorrow(e) => e.ee().under(BORROW),
			RefCellEncodeError::BadValue(e) => e.ee().under(CONTENT),
		}
	}
}
impl EE for GenericEncodeError {
	fn ee(&self) -> E {
		match self {
			GenericEncodeError::BadBorrow(e) => e.ee(),
			GenericEncodeError::LargeIsize(e) => e.ee(),
			GenericEncodeError::LargeUsize(e) => e.ee(),
			_ => E::root("unknown", J::A(vec![])),
		}
	}
}

impl DE for CharDecodeError { fn de(&self) -> E { E::root("char", bytes(&self.code_point.to_be_bytes())) } }
impl DE for NonZeroDecodeError { fn de(&self) -> E { E::root("nonzero", J::A(vec![])) } }
impl DE for CStringDecodeError { fn de(&self) -> E { E::root("nul", J::A(vec![J::I(idx(self.index))])) } }
impl DE for Utf8Error { fn de(&self) -> E { E::root("utf8", J::A(vec![J::I(idx(self.index)), i(self.value as usize)])) } }
impl DE for Utf16Error { fn de(&self) -> E { E::root("utf16", J::A(vec![J::I(idx(self.index)), i(self.value as usize)])) } }
impl DE for LengthError { fn de(&self) -> E { E::root("len", J::A(vec![J::I(idx(self.capacity)), J::I(idx(self.len))])) } }
impl DE for SystemTimeDecodeError { fn de(&self) -> E { E::root("time", bytes(&self.timestamp.to_be_bytes())) } }
impl DE for StringError {
	fn de(&self) -> E {
		match self {
			StringError::BadUtf16(e) => e.de(),
			StringError::BadUtf8(e) => e.de(),
			StringError::SmallBuffer(e) => e.de().under(LEN),
			_ => E::root("unknown", J::A(vec![])),
		}
	}
}
impl<L: DE, I: DE> DE for CollectionDecodeError<L, I> {
	fn de(&self) -> E {
		match self {
			CollectionDecodeError::BadLength(e) => e.de().under(LEN),
			CollectionDecodeError::BadItem(e) => e.de(),
		}
	}
}
impl<X: DE> DE for ItemDecodeError<usize, X> { fn de(&self) -> E { self.error.de().under(idx(self.index)) } }
impl<D: Decode<Error: DE> + M, F: DE> DE for EnumDecodeError<D, F> {
	fn de(&self) -> E {
		match self {
			EnumDecodeError::InvalidDiscriminant(e) => e.de().under(DISC),
			EnumDecodeError::UnassignedDiscriminant { value } => E::root("disc", value.val()).under(DISC),
			EnumDecodeError::BadField(e) => e.de().under(FIELD),
		}
	}
}
impl DE for GenericDecodeError {
	fn de(&self) -> E {
		match self {
			GenericDecodeError::BadString(e) => e.de(),
			GenericDecodeError::NullString(e) => e.de(),
			GenericDecodeError::NullInteger(e) => e.de(),
			GenericDecodeError::SmallBuffer(e) => e.de(),
			GenericDecodeError::UnassignedDiscriminant { value } => E::root("disc", bytes(&value.to_be_bytes())),
			GenericDecodeError::NarrowSystemTime(e) => e.de(),
			_ => E::root("unknown", J::A(vec![])),
		}
	}
}
