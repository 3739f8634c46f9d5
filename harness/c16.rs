//@ unit
//! C16: address arithmetic is exact integer arithmetic.
use crate::ut::*;

fn exact<A: H>(sum: Option<u128>) -> Option<u128> { match sum { Some(s) if s <= A::full() => Some(s), _ => None } }
fn same<A: H>(got: Option<A>, want: Option<u128>, m: &str) {
    match (got, want) { (Some(g), Some(w)) => check(g.val() == w, m), (None, None) => cover("outside the address space"), _ => check(false, m) }
}
fn addsub<A: H>() {
    let x = A::symval(); let y = A::symval();
    let (a, b) = (A::mk(x), A::mk(y));
    same::<A>(a.add_addr(&b), exact::<A>(x.checked_add(y)), "sum of two addresses");
    same::<A>(a.subtract_addr(&b), x.checked_sub(y), "difference of two addresses");
    cover("end");
}
fn offset<A: H>() {
    let x = A::symval(); let o = sym32() as i32;
    let a = A::mk(x);
    let mag = o.unsigned_abs() as u128;
    let (plus, minus) = if o < 0 { (x.checked_sub(mag), exact::<A>(x.checked_add(mag))) } else { (exact::<A>(x.checked_add(mag)), x.checked_sub(mag)) };
    same::<A>(a.add_offset(o), plus, "address plus offset");
    same::<A>(a.subtract_offset(o), minus, "address minus offset");
    cover("end");
}
fn bytes<A: H>() {
    let x = A::symval(); let a = A::mk(x);
    let n = (A::BITS / 8) as usize;
    check(a.byte_count() == n, "byte count");
    let b = a.to_bytes();
    check(b.len() == n, "number of bytes");
    for i in 0..n { check(b[i] == (x >> (A::BITS as usize - 8 - 8 * i)) as u8, "byte of an address"); }
    match A::from_bytes(&b) { Some(c) => check(c == a && c.val() == x, "address from its bytes"), None => check(false, "address from its bytes") }
    let k = choose(2 * n as u64 + 2) as usize;
    if k != n { check(A::from_bytes(&vec![sym8(); k]).is_none(), "wrong number of bytes"); }
    cover("end");
}
fn bits<A: H>() {
    let x = A::symval(); let y = A::symval();
    let (a, b) = (A::mk(x), A::mk(y));
    check((a & b).val() == x & y, "and"); check((a | b).val() == x | y, "or"); check((a ^ b).val() == x ^ y, "exclusive or");
    check(a.bitwise_negate().val() == x ^ A::full(), "negation");
    check((a < b) == (x < y), "ordering"); check((a == b) == (x == y), "equality"); check((a <= b) == (x <= y), "ordering");
    check(std::cmp::max(a, b).val() == std::cmp::max(x, y), "maximum"); check(std::cmp::min(a, b).val() == std::cmp::min(x, y), "minimum");
    cover("end");
}
fn counts<A: H>() {
    let x = A::symval(); let a = A::mk(x);
    let mut n = 0u32; for i in 0..A::BITS { n += (x >> i & 1) as u32; }
    check(a.count_ones() == n, "number of one bits"); check(a.count_zeros() == A::BITS - n, "number of zero bits");
    cover("end");
}
harnesses! {
    vf_h_c16_v4_addsub { addsub::<Ipv4Address>() }
    vf_h_c16_v4_offset { offset::<Ipv4Address>() }
    vf_h_c16_v4_bytes { bytes::<Ipv4Address>() }
    vf_h_c16_v4_bits { bits::<Ipv4Address>() }
    vf_h_c16_v4_counts { counts::<Ipv4Address>() }
    vf_h_c16_v6_addsub { addsub::<Ipv6Address>() }
    vf_h_c16_v6_offset { offset::<Ipv6Address>() }
    vf_h_c16_v6_bytes { bytes::<Ipv6Address>() }
    vf_h_c16_v6_bits { bits::<Ipv6Address>() }
    vf_h_c16_v6_counts { counts::<Ipv6Address>() }
    vf_h_c16_v6_chunks {
        let x = sym128(); let a = Ipv6Address::mk(x);
        let c = a.to_chunks();
        check(c.len() == 8, "number of groups");
        for i in 0..8 { check(c[i] == (x >> (112 - 16 * i)) as u16, "group of an address"); }
        match Ipv6Address::from_chunks(&c) { Some(b) => check(b.val() == x, "address from its groups"), None => check(false, "address from its groups") }
        let k = choose(18) as usize;
        if k != 8 { check(Ipv6Address::from_chunks(&vec![sym16(); k]).is_none(), "wrong number of groups"); }
        cover("end");
    }
}
