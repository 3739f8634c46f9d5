//@ unit
//! C17: containment and overlap answers match the address sets.
use crate::ut::*;

struct N<A: H> { n: IpNetwork<A>, b: u128, m: u128 }
fn has(b: u128, m: u128, x: u128) -> bool { x & m == b & m }
/// an arbitrary network: any mask at all, or (by_prefix) any prefix length
fn net<A: H>(by_prefix: bool) -> N<A> {
    let b = A::symval();
    if by_prefix {
        let p = sym(0, A::BITS as u64) as u32; let p = conc(p as u64) as u32;
        let m = A::pmask(p);
        N { n: IpNetwork::new_with_prefix(A::mk(b), p as usize), b: b & m, m }
    } else {
        let m = A::symval();
        N { n: IpNetwork::new_with_mask(A::mk(b), A::mk(m)), b: b & m, m }
    }
}
fn contains_<A: H>(by_prefix: bool) {
    let a = net::<A>(by_prefix);
    let x = A::symval();
    check(a.n.base_addr().val() == a.b && a.n.subnet_mask().val() == a.m, "network as given");
    check(a.n.contains(&A::mk(x)) == has(a.b, a.m, x), "contains");
    check(a.n.contains(&A::mk(a.b)), "contains its base address");
    check(a.n.is_superset_of(&a.n) && a.n.is_subset_of(&a.n) && a.n.intersects(&a.n), "superset and subset of itself");
    cover("end");
}
pub fn pair<A: H>(p1: bool, p2: bool) {
    let a = net::<A>(p1); let b = net::<A>(p2);
    let x = A::symval(); // any address
    let (ina, inb) = (has(a.b, a.m, x), has(b.b, b.m, x));
    // an address of b outside a, if there is one
    let out = if has(a.b, a.m, b.b) { b.b ^ (a.m & !b.m) } else { b.b };
    if a.n.is_superset_of(&b.n) { check(!inb || ina, "superset: no address of the other lies outside"); cover("superset"); }
    else { check(has(b.b, b.m, out) && !has(a.b, a.m, out), "not a superset: some address of the other lies outside"); cover("no superset"); }
    if b.n.is_subset_of(&a.n) { check(!inb || ina, "subset: no address lies outside the other"); }
    else { check(has(b.b, b.m, out) && !has(a.b, a.m, out), "not a subset: some address lies outside the other"); }
    let common = (a.b & a.m) | (b.b & !a.m);
    if a.n.intersects(&b.n) { check(has(a.b, a.m, common) && has(b.b, b.m, common), "intersects: a common address exists"); cover("overlap"); }
    else { check(!(ina && inb), "does not intersect: no common address"); cover("no overlap"); }
    check((a.n == b.n) == (a.b == b.b && a.m == b.m), "equality of networks");
    cover("end");
}
fn strict<A: H>() {
    let x = A::symval();
    if choose(2) == 0 {
    let m = A::symval();
    let s = IpNetwork::new_with_mask_strict(A::mk(x), A::mk(m));
    check(s.is_some() == (x & !m & A::full() == 0), "strict construction by mask");
    if let Some(n) = s { check(nv(&n) == (x, m), "strictly constructed network"); cover("strict"); }
    } else {
    let p = sym(0, A::BITS as u64) as u32; let p = conc(p as u64) as u32;
    let s = IpNetwork::new_with_prefix_strict(A::mk(x), p as usize);
    let m = A::pmask(p);
    check(s.is_some() == (x & !m & A::full() == 0), "strict construction by prefix");
    if let Some(n) = s { check(nv(&n) == (x, m), "strictly constructed network"); }
    }
    cover("end");
}
harnesses! {
    vf_h_c17_v4_contains { contains_::<Ipv4Address>(choose(2) == 1) }
    vf_h_c17_v6_contains { contains_::<Ipv6Address>(choose(2) == 1) }
    vf_h_c17_v4_pair { pair::<Ipv4Address>(false, false) }
    vf_h_c17_v4_mixed { pair::<Ipv4Address>(true, false) }
    vf_h_c17_v6_pair { pair::<Ipv6Address>(false, false) }
    vf_h_c17_v4_strict { strict::<Ipv4Address>() }
    vf_h_c17_v6_strict { strict::<Ipv6Address>() }
}
