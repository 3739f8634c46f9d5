//@ unit
//! C08, C09 on the function that turns a range into networks: the complete eight-bit address space, and windows of the real widths.
use crate::ut::*;
use crate::a8::A8;
use crate::cmds::derange::range_to_subnets;
/// assertions that belong to one of the two properties only
fn c8(c: bool, m: &str) { if judged(8) { check(c, m) } }
fn c9(c: bool, m: &str) { if judged(9) { check(c, m) } }
/// Judges a list of networks against the range from a to b (either order).
pub fn judge<A: H>(a: u128, b: u128, r: &[(u128, u128)]) {
    let (lo, hi) = (if a <= b { a } else { b }, if a <= b { b } else { a });
    check(!r.is_empty(), "a range is never empty");
    let mut next = lo;
    for i in 0..r.len() {
        let (n, m) = r[i]; let wild = !m & A::full();
        c8(wild & wild.wrapping_add(1) == 0 && n & wild == 0, "a prefix-length network without host bits");
        c8(n == next, "the networks follow each other without gap or overlap"); c9(n >= next && (i == 0 || next != 0), "no address is covered twice");
        c8((n | wild) <= hi, "no address beyond the range");
        // the next larger network around it would leave the range
        let p = m & (m << 1) & A::full();
        if m != 0 { c9((n & p) < lo || (n | (!p & A::full())) > hi, "no network could be larger"); }
        if i + 1 == r.len() { c8(n | wild == hi, "the last address of the range is reached"); }
        next = (n | wild).wrapping_add(1) & A::full();
    }
}
fn go<A: H>(a: u128, b: u128) {
    conc((b < a) as u64);
    let r: Vec<(u128, u128)> = range_to_subnets(A::mk(a), A::mk(b)).iter().map(|n| nv(n)).collect();
    judge::<A>(a, b, &r);
    cover("end");
}
/// w arbitrary bits at any place of both addresses; the same arbitrary bits above them, few values below
fn window<A: H>() {
    let w = param(0) as u32; let pos = shard((A::BITS - w + 1) as u64) as u32; assume(param(3) < 2 || pos as u64 % param(3) == 0);
    let wm = (1u128 << w) - 1; let lm = (1u128 << pos) - 1;
    let lows = |k: u64| match k { 0 => 0, 1 => lm, 2 => 1 & lm, _ => lm & !1 };
    let ka = choose(param(1)); let kb = choose(param(1));
    assume(pos > 0 || ka == 0 && kb == 0);
    let hi = A::symval() & !(wm << pos) & !lm;
    let hi = if param(2) == 1 { A::full() & !(wm << pos) & !lm } else { hi };
    let (x, y) = (sym16() as u128 & wm, sym16() as u128 & wm);
    go::<A>(hi | x << pos | lows(ka), hi | y << pos | lows(kb));
}
/// any first address, at most `param` addresses
fn short<A: H>() {
    let a = A::symval(); let d = choose(param(0)) as u128;
    let b = a.wrapping_add(d) & A::full(); assume(b >= a);
    if choose(2) == 0 { go::<A>(a, b) } else { go::<A>(b, a) }
}
/// ranges from the first address, and to the last
fn ends<A: H>() {
    let k = shard(A::BITS as u64 - 7) as u32; assume(param(0) < 2 || k as u64 % param(0) == 0); let x = (sym8() as u128) << k | if choose(2) == 0 { 0 } else { (1 << k) - 1 };
    match choose(3) { 0 => go::<A>(0, x), 1 => go::<A>(A::full() - x, A::full()), _ => go::<A>(A::full(), x) }
}
/// two arbitrary bits at any two places of both addresses, all other bits one of three patterns each
fn scatter<A: H>() {
    let i = shard(A::BITS as u64) as u32; let j = choose(A::BITS as u64) as u32; assume(j < i && (i as u64 * i as u64 * 5 + j as u64 * 11) % param(0) == 0);
    let m = 1u128 << i | 1 << j; let at = |v: u64| (v as u128 & 1) << i | (v as u128 >> 1 & 1) << j;
    let p = [0x5555_5555_5555_5555_5555_5555_5555_5555u128, 0x2001_0db8_0a0b_0c0d_5e6f_7081_0a01_0203, 0xfe80_7ffe_0000_ffff_8000_0001_00ff_00f1, 0xaaaa_aaaa_aaaa_aaaa_aaaa_aaaa_aaaa_aaaa, 0xf123_4567_89ab_cdef_0246_8ace_c0a8_9876, !0];
    let (x, y) = (sym(0, 3), sym(0, 3));
    let k = choose(3) as usize; let l = 3 + choose(3) as usize;
    let a = p[k] & A::full() & !m | at(x); let b = p[l] & A::full() & !m | at(y);
    go::<A>(a, b);
}
harnesses! {
    vf_h_c08_v4_scatter { scatter::<Ipv4Address>() }
    vf_h_c08_v6_scatter { scatter::<Ipv6Address>() }
    vf_h_c08_a8 { let (a, b) = (A8::symval(), A8::symval()); go::<A8>(a, b) }
    vf_h_c08_v4_window { window::<Ipv4Address>() }
    vf_h_c08_v6_window { window::<Ipv6Address>() }
    vf_h_c08_v4_short { short::<Ipv4Address>() }
    vf_h_c08_v6_short { short::<Ipv6Address>() }
    vf_h_c08_v4_ends { ends::<Ipv4Address>() }
    vf_h_c08_v6_ends { ends::<Ipv6Address>() }
}
