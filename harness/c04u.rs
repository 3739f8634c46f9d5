//@ unit
//! C04: first and last host, broadcast, counts (the network type itself).
use crate::ut::*;
fn facts<A: H>(n: IpNetwork<A>, a: u128, m: u128) {
    let full = A::full(); let wild = !m & full; let net = a & m; let bc = net | wild; let z = mask_zeros(m, A::BITS);
    check(n.base_addr().val() == net && n.subnet_mask().val() == m, "base address and mask");
    check(n.cisco_wildcard().val() == wild, "wildcard");
    let p = (0..=A::BITS).find(|&p| A::pmask(p) == m);
    check(n.cidr_prefix() == p.map(|p| p as usize), "prefix length exactly for prefix masks");
    check(n.first_host_addr().map(|x| x.val()) == if z >= 2 { Some(net | low(wild)) } else { None }, "first host");
    check(n.last_host_addr().map(|x| x.val()) == if z >= 2 { Some(bc & !low(wild)) } else { None }, "last host");
    check(n.broadcast_addr().map(|x| x.val()) == if z >= 1 { Some(bc) } else { None }, "broadcast");
    check(n.last_addr_of_subnet().val() == bc, "last address");
    // the network that follows in the order of the network bits
    let up = pick(net, m, A::BITS);
    let top = z == A::BITS || up == (if A::BITS - z == 128 { u128::MAX } else { (1u128 << (A::BITS - z)) - 1 });
    match n.next_subnet_base_addr() { Some(x) => { check(!top, "the last network has no successor"); check(x.val() & wild == 0 && pick(x.val(), m, A::BITS) == up + 1, "next network"); }, None => check(top, "every other network has a successor") }
    cover("end");
}
fn any<A: H>(ctx: u64) { let m = window_mask::<A>(ctx); let a = A::symval(); facts(IpNetwork::new_with_mask(A::mk(a), A::mk(m)), a, m); }
fn pre<A: H>() { let p = shard(A::BITS as u64 + 1) as u32; let a = A::symval(); facts(IpNetwork::new_with_prefix(A::mk(a), p as usize), a, A::pmask(p)); }
harnesses! {
    vf_h_c04_u4 { any::<Ipv4Address>(param(0)); }
    vf_h_c04_u6 { any::<Ipv6Address>(param(0)); }
    vf_h_c04_u4p { pre::<Ipv4Address>(); }
    vf_h_c04_u6p { pre::<Ipv6Address>(); }
}
