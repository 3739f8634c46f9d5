//@ unit
//! C06, C07 on the minimizing function itself: any base addresses, masks over a complete eight-bit address space and selected ones of the real widths.
use crate::ut::*;
use crate::a8::A8;
use crate::cmds::minimize::minimize_subnets;
pub type Net = (u128, u128);
fn has(n: Net, x: u128) -> bool { x & n.1 == n.0 }
fn any_has(l: &[Net], x: u128) -> bool { let mut r = false; for n in l { r |= has(*n, x); } r }
pub fn go<A: H>(l: &[Net]) -> Vec<Net> {
    let v: Vec<IpNetwork<A>> = l.iter().map(|n| IpNetwork::new_with_mask(A::mk(n.0), A::mk(n.1))).collect();
    minimize_subnets(v).iter().map(|n| nv(n)).collect()
}
pub fn judge<A: H>(l: &[Net], r: &[Net]) {
    let x = A::symval();
    if judged(6) { check(any_has(l, x) == any_has(r, x), "exactly the given addresses"); }
    if !judged(7) { return; }
    for i in 0..r.len() {
        check(r[i].0 & !r[i].1 == 0, "no host bits in a network");
        for j in i + 1..r.len() {
            check(r[i] < r[j], "ascending order");
            let (a, b) = (r[i], r[j]);
            check(!((b.0 & a.1 == a.0) & (a.1 & b.1 == a.1)) & !((a.0 & b.1 == b.0) & (a.1 & b.1 == b.1)), "no network is contained in another");
            if a.1 == b.1 { check(a.0 ^ b.0 != low(a.1), "no two networks can be joined"); }
        }
    }
}
/// a mask, concrete on every path: kind 0 all prefixes, 1 all masks in 8 bits (else selected ones), 2 few
fn mask<A: H>(kind: u64, first: bool) -> u128 {
    let ch = |n: u64| if first { shard(n) } else { choose(n) };
    let b = A::BITS;
    match kind {
        0 if b == 8 => A::pmask(ch(9) as u32),
        0 => { let p = [0, 1, 2, b / 2 - 1, b / 2, b / 2 + 1, b - 2, b - 1, b]; A::pmask(p[ch(9) as usize]) },
        1 if b == 8 => ch(256) as u128,
        1 => { let p = ch(b as u64 + 1) as u32; A::pmask(p) },
        2 => [A::full() & !5, A::full() & !4, A::full() & !1, A::full() & !0xa, A::full() >> 1, A::pmask(b - 3) | 2][ch(6) as usize],
        _ => if b == 8 { [0xffu128, 0xfe, 0xfc, 0x80, 0xfd, 0x55][ch(6) as usize] } else { [A::full(), A::full() & !1, A::pmask(b - 8), A::pmask(1), A::full() & !2, A::full() & !0xf0f][ch(6) as usize] },
    }
}
fn nets<A: H>(n: usize, kind: u64, same: bool) -> Vec<Net> {
    let mut v: Vec<Net> = Vec::new();
    for i in 0..n { let m = if same && i > 0 { v[0].1 } else { mask::<A>(kind, i == 0) }; v.push((A::symval() & m, m)); }
    v
}
fn any<A: H>() {
    hash(param(2));
    let l = nets::<A>(param(0) as usize, param(1), false);
    let r = go::<A>(&l); judge::<A>(&l, &r);
    cover("end");
}
fn same<A: H>() {
    // all of the same mask: joining can cascade
    hash(param(2));
    let l = nets::<A>(param(0) as usize, param(1), true);
    let r = go::<A>(&l); judge::<A>(&l, &r);
    if r.len() == 1 { cover("joined"); }
    cover("end");
}
fn order<A: H>() {
    hash(1);
    let n = param(0) as usize; let l = nets::<A>(n, param(1), param(3) == 1);
    let r = go::<A>(&l);
    hash(param(2));
    match choose(3) {
        0 => { let mut k = l.clone(); let i = choose(n as u64) as usize; let j = choose(n as u64) as usize; k.swap(i, j); k.push(l[i]); k.rotate_left(j); check(go::<A>(&k) == r, "order and repetition do not matter"); },
        1 => check(go::<A>(&r) == r, "minimizing again changes nothing"),
        _ => check(go::<A>(&l) == r, "hash order does not matter"),
    }
    cover("end");
}
harnesses! {
    vf_h_c06_a8_any { any::<A8>() }
    vf_h_c06_a8_same { same::<A8>() }
    vf_h_c06_v4_any { any::<Ipv4Address>() }
    vf_h_c06_v4_same { same::<Ipv4Address>() }
    vf_h_c06_v6_any { any::<Ipv6Address>() }
    vf_h_c06_v6_same { same::<Ipv6Address>() }
    vf_h_c07_a8_order { order::<A8>() }
    vf_h_c07_v4_order { order::<Ipv4Address>() }
}
