//@ unit
//! The program's address types, seen as integers.
#![allow(dead_code)]
pub use crate::addr::{IpAddress, Ipv4Address, Ipv6Address};
pub use crate::net::IpNetwork;
pub use crate::vf::*;
pub use crate::vflib::*;

/// An address as an integer of BITS bits.
pub trait H: IpAddress {
    const BITS: u32;
    fn mk(v: u128) -> Self;
    fn val(&self) -> u128 { let mut r = 0; for b in self.to_bytes() { r = r << 8 | b as u128; } r }
    fn full() -> u128 { if Self::BITS == 128 { u128::MAX } else { (1u128 << Self::BITS) - 1 } }
    /// mask with p leading ones
    fn pmask(p: u32) -> u128 { if p == 0 { 0 } else { (u128::MAX << (Self::BITS - p)) & Self::full() } }
    fn symval() -> u128 { let mut r = 0; for _ in 0..Self::BITS / 8 { r = r << 8 | sym8() as u128; } r }
}
impl H for Ipv4Address { const BITS: u32 = 32; fn mk(v: u128) -> Ipv4Address { Ipv4Address::new(v as u32) } }
impl H for Ipv6Address { const BITS: u32 = 128; fn mk(v: u128) -> Ipv6Address { Ipv6Address::new((v >> 64) as u64, v as u64) } }

/// network as pair (base, mask)
pub fn nv<A: H>(n: &IpNetwork<A>) -> (u128, u128) { (n.base_addr().val(), n.subnet_mask().val()) }

/// Reference: bits of x at the ones of mask (most significant first), packed into the low bits.
pub fn pick(x: u128, mask: u128, bits: u32) -> u128 { let mut r = 0u128; for i in (0..bits).rev() { if mask >> i & 1 == 1 { r = r << 1 | (x >> i & 1); } } r }
/// Reference: compaction, the bits of x at the ones of mask followed by those at its zeros.
pub fn compact(x: u128, mask: u128, bits: u32) -> u128 {
    let z = mask_zeros(mask, bits);
    let h = pick(x, !mask, bits);
    if z >= 128 { h } else { pick(x, mask, bits) << z | h }
}
pub fn mask_zeros(mask: u128, bits: u32) -> u32 { let mut z = 0; for i in 0..bits { if mask >> i & 1 == 0 { z += 1; } } z }
/// A concrete mask on every path: one byte of it arbitrary, the others 00, ff or a mixed byte depending on the context number.
pub fn window_mask<A: H>(contexts: u64) -> u128 {
    let n = (A::BITS / 8) as u64;
    let pos = shard(n);
    let c = if n == 1 { 0 } else { choose(contexts) };
    let w = choose(256) as u128;
    let mut m = 0u128;
    for i in 0..n {
        let b = if i == pos { w } else {
            let above = i < pos;
            match c { 0 => if above { 0xff } else { 0 }, 1 => if above { 0 } else { 0xff }, 2 => 0, 3 => 0xff, 4 => if (i & 1) == 0 { 0xff } else { 0 }, 5 => 0xa5, 6 => if (i & 1) == 0 { 0 } else { 0xff }, _ => [0x80, 0x7f, 0x3c, 0x01][(i & 3) as usize] }
        };
        m = m << 8 | b;
    }
    m
}
