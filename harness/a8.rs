//@ unit
//! An address type of eight bits, on which the program's generic code can be examined over a complete address space.
pub use crate::ut::*;
use std::fmt;
use std::ops::{BitAnd, BitOr, BitXor};

#[derive(Clone, Copy, Debug, Default, Eq, Hash, Ord, PartialEq, PartialOrd)]
pub struct A8(pub u8);
impl BitAnd for A8 { type Output = A8; fn bitand(self, o: A8) -> A8 { A8(self.0 & o.0) } }
impl BitOr for A8 { type Output = A8; fn bitor(self, o: A8) -> A8 { A8(self.0 | o.0) } }
impl BitXor for A8 { type Output = A8; fn bitxor(self, o: A8) -> A8 { A8(self.0 ^ o.0) } }
impl fmt::Display for A8 { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.0) } }
fn fit(v: i64) -> Option<A8> { if v < 0 || v > 255 { None } else { Some(A8(v as u8)) } }
impl IpAddress for A8 {
    fn byte_count(&self) -> usize { 1 }
    fn count_ones(&self) -> u32 { self.0.count_ones() }
    fn count_zeros(&self) -> u32 { self.0.count_zeros() }
    fn to_bytes(&self) -> Vec<u8> { vec![self.0] }
    fn from_bytes(b: &[u8]) -> Option<A8> { if b.len() == 1 { Some(A8(b[0])) } else { None } }
    fn bitwise_negate(&self) -> A8 { A8(!self.0) }
    fn add_addr(&self, o: &A8) -> Option<A8> { fit(self.0 as i64 + o.0 as i64) }
    fn add_offset(&self, o: i32) -> Option<A8> { fit(self.0 as i64 + o as i64) }
    fn subtract_addr(&self, o: &A8) -> Option<A8> { fit(self.0 as i64 - o.0 as i64) }
    fn subtract_offset(&self, o: i32) -> Option<A8> { fit(self.0 as i64 - o as i64) }
}

impl H for A8 { const BITS: u32 = 8; fn mk(v: u128) -> A8 { A8(v as u8) } }
