//@ parent cmds/enumerate.rs
//! C14 on the iterator itself: every mask of a complete eight-bit address space, masks with few host bits of the real widths; any base address.
use crate::ut::*;
use crate::a8::A8;
use super::NetworkIter;
fn spread(x: u128, mask: u128, bits: u32) -> u128 { let mut r = 0; let mut k = 0; for i in 0..bits { if mask >> i & 1 == 1 { r |= (x >> k & 1) << i; k += 1; } } r }
fn go<A: H>(base: u128, m: u128) {
    let w = !m & A::full(); let z = mask_zeros(m, A::BITS); let n = 1u64 << z;
    let mut it = NetworkIter::new(IpNetwork::new_with_mask(A::mk(base), A::mk(m)));
    for i in 0..n {
        match it.next() { Some(a) => check(a.val() == (base & m) | spread(i as u128, w, A::BITS), "the addresses in ascending order, none left out"), None => { check(false, "no address is left out"); return; } }
    }
    check(it.next().is_none() && it.next().is_none(), "nothing after the last address");
    cover("end");
}
/// masks whose host bits are param neighbouring bits and one anywhere, or all low
fn few<A: H>() {
    let i = shard(A::BITS as u64) as u32; let j = choose(A::BITS as u64) as u32; let k = choose(param(0)) as u32; let b = A::BITS;
    assume(param(1) < 2 || (i * 3 + j) as u64 % param(1) == 0 || j == i || i + j == b - 1);
    let w = (1u128 << i | 1 << j | ((1u128 << k) - 1) << if i + k <= b { i } else { b - k }) & A::full();
    go::<A>(A::symval(), !w & A::full());
}
crate::harnesses! {
    vf_h_c14_a8 { go::<A8>(A8::symval(), shard(256) as u128) }
    vf_h_c14_v4 { few::<Ipv4Address>() }
    vf_h_c14_v6 { few::<Ipv6Address>() }
    vf_h_c14_it_first {
        // the first addresses of networks of any prefix length; any base address
        let v6 = shard(2) == 1; fn first<A: H>() { let p = choose(A::BITS as u64 + 1) as u32; let m = A::full() & !if p == 0 { u128::MAX } else { (1u128 << (A::BITS - p)) - 1 };
            let b = A::symval(); let mut it = NetworkIter::new(IpNetwork::new_with_mask(A::mk(b), A::mk(m)));
            for i in 0..9u128 { if p + 4 > A::BITS && i >> (A::BITS - p) != 0 { check(it.next().is_none(), "nothing after the last address"); } else { check(it.next().map(|a| a.val()) == Some((b & m) + i), "the addresses in ascending order, none left out"); } }
            cover("end"); }
        if v6 { first::<Ipv6Address>() } else { first::<Ipv4Address>() }
    }
    vf_h_c14_it_long {
        // networks of 2^param addresses, in one run or spread over the whole address
        let z = param(0) as u32; let k = shard(4); let v6 = k >= 2; let b = if v6 { 128 } else { 32 };
        let w: u128 = if k & 1 == 0 { (1u128 << z) - 1 } else { let mut w = 0; for i in 0..z { w |= 1u128 << (i * b / z); } w };
        if v6 { go::<Ipv6Address>(0x2001_0db8_9a31_8425_b6c7_d8e9_f1a2_9300 | sym8() as u128, Ipv6Address::full() & !w) } else { go::<Ipv4Address>(0xc9c8_6400 | sym8() as u128, 0xffff_ffff & !w) }
    }
}
