//! A minimal JSON value with a writer.
use std::fmt::{self, Display, Formatter};

#[derive(Clone, Debug, PartialEq)]
pub enum J { I(i64), S(String), A(Vec<J>), O(Vec<(&'static str, J)>) }

impl Display for J {
	fn fmt(&self, f: &mut Formatter) -> fmt::Result {
		match self {
			J::I(x) => write!(f, "{x}"),
			J::S(s) => {
				f.write_str("\"")?;
				for c in s.chars() {
					match c {
						'"' => f.write_str("\\\"")?,
						'\\' => f.write_str("\\\\")?,
						c if (c as u32) < 0x20 || (c as u32) > 0x7E => write!(f, "?")?,
						c => write!(f, "{c}")?,
					}
				}
				f.write_str("\"")
			}
			J::A(v) => {
				f.write_str("[")?;
				for (i, x) in v.iter().enumerate() {
					if i > 0 { f.write_str(",")? }
					write!(f, "{x}")?;
				}
				f.write_str("]")
			}
			J::O(v) => {
				f.write_str("{")?;
				for (i, (k, x)) in v.iter().enumerate() {
					if i > 0 { f.write_str(",")? }
					write!(f, "\"{k}\":{x}")?;
				}
				f.write_str("}")
			}
		}
	}
}

pub fn s(x: &str) -> J { J::S(x.to_string()) }
pub fn i(x: usize) -> J { J::I(x as i64) }
pub fn bytes(b: &[u8]) -> J { J::A(b.iter().map(|x| J::I(i64::from(*x))).collect()) }
pub fn ints(b: &[i64]) -> J { J::A(b.iter().map(|x| J::I(*x)).collect()) }
/// Numbers that may exceed TLC's 32-bit integers are written as eight digits.
pub fn big(x: usize) -> J { bytes(&(x as u64).to_be_bytes()) }
