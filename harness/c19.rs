//@ unit
//! C19: masks and prefix lengths convert both ways.
use crate::ut::*;
use crate::cidr::{prefix_from_subnet_mask_bytes, subnet_mask_bytes_from_prefix};

fn to_mask<A: H>() {
    let p = sym(0, A::BITS as u64); let p = conc(p) as u32;
    let b = subnet_mask_bytes_from_prefix(p as usize, (A::BITS / 8) as usize);
    check(b.len() == (A::BITS / 8) as usize, "number of mask bytes");
    let mut v = 0u128; for x in &b { v = v << 8 | *x as u128; }
    check(v == A::pmask(p), "prefix to mask");
    check(prefix_from_subnet_mask_bytes(&b) == Some(p as usize), "prefix to mask and back");
    cover("end");
}
pub fn from_mask<A: H>() {
    let m = A::symval();
    let r = prefix_from_subnet_mask_bytes(&A::mk(m).to_bytes());
    // reference: a prefix mask has no zero bit before a one bit
    let inv = !m & A::full();
    let is_prefix = inv & inv.wrapping_add(1) == 0;
    match r {
        Some(p) => { check(is_prefix && p <= A::BITS as usize && A::pmask(p as u32) == m, "recognised mask has exactly this prefix"); cover("prefix mask"); },
        None => { check(!is_prefix, "prefix mask is recognised"); cover("mixed mask"); },
    }
    cover("end");
}
fn alike<A: H>() {
    let a = A::symval(); let p = sym(0, A::BITS as u64); let p = conc(p) as u32;
    let m = A::pmask(p);
    let x = IpNetwork::new_with_mask(A::mk(a), A::mk(m)); let y = IpNetwork::new_with_prefix(A::mk(a), p as usize);
    check(x == y, "network by mask equals network by prefix");
    check(x.cidr_prefix() == Some(p as usize) && y.cidr_prefix() == Some(p as usize), "prefix length of both");
    check(x.subnet_mask().val() == m && y.subnet_mask().val() == m, "mask of both");
    check(x.base_addr().val() == a & m && y.base_addr().val() == a & m, "base address of both");
    check(x.cisco_wildcard().val() == !m & A::full() && y.cisco_wildcard().val() == !m & A::full(), "wildcard of both");
    check(x.broadcast_addr() == y.broadcast_addr() && x.first_host_addr() == y.first_host_addr() && x.last_host_addr() == y.last_host_addr(), "special addresses of both");
    check(x.last_addr_of_subnet() == y.last_addr_of_subnet() && x.next_subnet_base_addr() == y.next_subnet_base_addr(), "ends of both");
    check(x.last_addr_of_subnet().val() == (a & m) | (!m & A::full()), "last address");
    match x.next_subnet_base_addr() { Some(n) => check(n.val() == ((a & m) | (!m & A::full())).wrapping_add(1), "following address"), None => check((a & m) | (!m & A::full()) == A::full(), "end of the address space") }
    cover("end");
}
harnesses! {
    vf_h_c19_v4_to { to_mask::<Ipv4Address>() }
    vf_h_c19_v6_to { to_mask::<Ipv6Address>() }
    vf_h_c19_v4_from { from_mask::<Ipv4Address>() }
    vf_h_c19_v6_from { from_mask::<Ipv6Address>() }
    vf_h_c19_v4_alike { alike::<Ipv4Address>() }
    vf_h_c19_v6_alike { alike::<Ipv6Address>() }
}
