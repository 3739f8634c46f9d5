//@ unit
//! C12, C13 on the resizing function itself: any base address; all masks of a complete eight-bit address space, selected ones of the real widths.
use crate::ut::*;
use crate::a8::A8;
use crate::cmds::resize::resize_network;
use std::cmp::Ordering;
/// the low n bits of x, most significant first, put at the ones of mask (n of them)
pub fn spread(x: u128, mask: u128, bits: u32) -> u128 { let mut r = 0; let mut k = 0; for i in 0..bits { if mask >> i & 1 == 1 { if k < 128 { r |= (x >> k & 1) << i; } k += 1; } } r }
pub fn ones(mask: u128) -> u32 { let mut n = 0; for i in 0..128 { n += (mask >> i & 1) as u32; } n }
pub fn go<A: H>(base: u128, old: u128, new: u128) {
    let (no, nn) = (ones(old), ones(new));
    let (r, o) = resize_network(IpNetwork::new_with_mask(A::mk(base), A::mk(old)), A::mk(new));
    let bits = pick(base, old, A::BITS);
    check(o == if nn < no { Ordering::Less } else if nn == no { Ordering::Equal } else { Ordering::Greater }, "which of the three cases applies");
    if nn <= no {
        check(r.len() == 1, "one resulting network"); if r.is_empty() { return; }
        let v = nv(&r[0]);
        check(v.1 == new, "the requested mask");
        check(v.0 == spread(if no - nn >= 128 { 0 } else { bits >> (no - nn) }, new, A::BITS), "the network bits are kept in order and cut off at the end");
        cover(if nn < no { "larger" } else { "same" });
    } else {
        let d = nn - no; let n = 1usize << d;
        check(r.len() == n, "as many networks as there are values of the additional bits"); if r.len() != n { return; }
        for i in 0..n {
            let v = nv(&r[i]);
            check(v.1 == new, "the requested mask");
            check(v.0 == spread(if d >= 128 { i as u128 } else { bits << d | i as u128 }, new, A::BITS), "the network bits in order, followed by the additional bits counting up");
        }
        cover("smaller");
    }
    cover("end");
}
fn prefixes<A: H>() {
    let b = A::BITS; let p = shard(b as u64 + 1) as u32; let q = choose(b as u64 + 1) as u32;
    assume(q <= p || (q - p) as u64 <= param(0)); assume(q >= p || (p - q) as u64 % param(1) == 0 || q < 3);
    go::<A>(A::symval(), A::pmask(p), A::pmask(q));
}
fn masks<A: H>() {
    // one mask with an arbitrary byte somewhere, the other one of few; either way round
    let w = window_mask::<A>(param(0)); assume(param(1) < 2 || (w ^ w >> 8 ^ w >> 16) % param(1) as u128 == choose(1) as u128);
    let b = A::BITS; let f = A::full();
    let t = [A::pmask(b / 2), A::pmask(3), f & !0x15, f / 3, f & !(f / 0xff), f, 0][choose(7) as usize];
    let (x, y) = if choose(2) == 0 { (w, t) } else { (t, w) };
    assume(ones(y) <= ones(x) + 5);
    go::<A>(A::symval(), x, y);
}
/// one mask of the other with a bit moved, added or removed
fn near<A: H>() {
    let w = window_mask::<A>(param(0)); assume(param(1) < 2 || (w ^ w >> 8 ^ w >> 16 ^ w >> 32) & 0xff % param(1) as u128 == 0);
    let i = choose(A::BITS as u64 / param(2)) as u32 * param(2) as u32; let j = choose(3); let y = w ^ 1 << i ^ if j == 0 { 0 } else { 1 << (i + j as u32) % A::BITS };
    assume(ones(y) <= ones(w) + 2);
    go::<A>(A::symval(), w, y);
}
harnesses! {
    vf_h_c12_a8_prefixes { prefixes::<A8>() }
    vf_h_c12_v4_prefixes { prefixes::<Ipv4Address>() }
    vf_h_c12_v6_prefixes { prefixes::<Ipv6Address>() }
    vf_h_c13_a8 { let x = shard(256) as u128; let y = choose(256) as u128; assume((x * 7 + y * 11) % param(0) as u128 == 0); go::<A8>(A8::symval(), x, y) }
    vf_h_c13_v4_masks { masks::<Ipv4Address>() }
    vf_h_c13_v6_masks { masks::<Ipv6Address>() }
    vf_h_c13_v4_near { near::<Ipv4Address>() }
}
