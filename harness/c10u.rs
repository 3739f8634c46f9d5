//@ unit
//! C10 on the splitting function itself, with any host counts, over a complete eight-bit address space and the real widths.
use crate::ut::*;
use crate::a8::A8;
use crate::cmds::split::split_subnet;
use num_bigint::BigInt;
/// host bits of the smallest network with at least n hosts
fn need(n: u128) -> u32 { let mut z = 1; for k in 1..20 { if (1u128 << k) - 2 < n { z = k + 1; } } z }
pub fn go<A: H>(base: u128, p: u32, counts: &[u64]) {
    let m = A::pmask(p); let b = base & m;
    let net = IpNetwork::new_with_prefix(A::mk(base), p as usize);
    let r = split_subnet(net, counts.iter().map(|c| BigInt::from(*c)).collect());
    let z: Vec<u32> = counts.iter().map(|c| conc(need(*c as u128) as u64) as u32).collect();
    let h = A::BITS - p; let mut sum = 0u128; for k in &z { sum += 1 << k; }
    // slices whose sizes are powers of two can all be placed in a network exactly if their sum is not larger
    let room = h >= 127 || sum <= 1 << h;
    let r = match r { Some(r) => r, None => { if judged(11) { check(!room, "a split that fits succeeds"); } cover("refused"); return; } };
    if !judged(10) { cover("end"); return; }
    check(r.len() == counts.len(), "one slice per request");
    for i in 0..r.len() {
        let (n, k) = nv(&r[i]);
        check(k == A::pmask(A::BITS - z[i]), "the smallest prefix length that offers enough hosts");
        check(n & !k == 0, "no host bits");
        if room { check(n & m == b, "the slice lies in the network"); }
        for j in 0..i { let (q, w) = nv(&r[j]); check((q ^ n) & w & k != 0, "slices do not overlap"); }
    }
    cover("end");
}
/// One or two requests of any size at all (in a network that is just large enough, too small, or the whole address space).
fn any<A: H>(step: u32, n: u64) {
    let z = 1 + shard(A::BITS as u64) as u32; assume(z % step == 0 || z + 2 > A::BITS || z < 3 || z >= 62 && z <= 66);
    let f = |z: u32| { let one = 1u128; let lo = if z == 1 { 0 } else { (one << (z - 1)) - 1 }; let hi = if z == 128 { u128::MAX - 1 } else { (one << z) - 2 };
        let c = if A::BITS > 32 { sym128() } else { sym32() as u128 }; assume(c >= lo && c <= hi); c };
    let h = match choose(4) { 0 => z, 1 => A::BITS, 2 => { assume(z < A::BITS); z + 1 }, _ => { assume(z > 1); z - 1 } };
    let p = A::BITS - h; let base = A::symval(); let m = A::pmask(p); let b = base & m;
    let mut zs = vec![z];
    if n > 1 { let y = match choose(3) { 0 => z, 1 => { assume(z > 1); z - 1 }, _ => { assume(z > 3); z / 2 } }; if choose(2) == 0 { zs.push(y); } else { zs.insert(0, y); } }
    let counts: Vec<u128> = zs.iter().map(|z| f(*z)).collect();
    let net = IpNetwork::new_with_prefix(A::mk(base), p as usize);
    let r = split_subnet(net, counts.iter().map(|c| BigInt::from(*c)).collect());
    let room = h >= z + if n > 1 { 1 } else { 0 };
    let r = match r { Some(r) => r, None => { if judged(11) { check(!room, "a split that fits succeeds"); } cover("refused"); return; } };
    if !judged(10) { cover("end"); return; }
    check(r.len() == counts.len(), "one slice per request");
    for i in 0..r.len() {
        let (n, k) = nv(&r[i]);
        check(k == A::pmask(A::BITS - zs[i]), "the smallest prefix length that offers enough hosts");
        check(n & !k == 0, "no host bits");
        if room { check(n & m == b, "the slice lies in the network"); }
        for j in 0..i { let (q, w) = nv(&r[j]); check((q ^ n) & w & k != 0, "slices do not overlap"); }
    }
    cover("end");
}
fn sizes(n: usize, mx: u64) -> Vec<u64> { (0..n).map(|_| sym(0, mx)).collect() }
harnesses! {
    vf_h_c10_v4_any { hash(0); any::<Ipv4Address>(param(1) as u32, param(0)); }
    vf_h_c10_v6_any { hash(0); any::<Ipv6Address>(param(1) as u32, param(0)); }
    vf_h_c10_a8 { hash(param(1)); let p = shard(9) as u32; go::<A8>(A8::symval(), p, &sizes(param(0) as usize, 255)) }
    vf_h_c10_v4 { hash(param(1)); let h = shard(12) as u32; go::<Ipv4Address>(Ipv4Address::symval(), 32 - h, &sizes(param(0) as usize, 2047)) }
    vf_h_c10_v6 { hash(param(1)); let h = shard(12) as u32; go::<Ipv6Address>(Ipv6Address::symval(), 128 - h, &sizes(param(0) as usize, 2047)) }
}
