//@ unit
//! C18: compacting address bits by a mask is reversible and orderly.
use crate::ut::*;
use crate::bit_manip::{bits_to_bytes, bytes_to_binary, bytes_to_bits, unravel_address, weave_address};

pub fn both<A: H>(m: u128) {
    let x = A::symval(); let y = A::symval();
    let mask = A::mk(m);
    let ux = unravel_address(A::mk(x), mask);
    check(ux.val() == compact(x, m, A::BITS), "network bits first, then host bits, each in order");
    check(weave_address(ux, mask).val() == x, "weaving undoes unravelling");
    let wx = weave_address(A::mk(x), mask);
    check(compact(wx.val(), m, A::BITS) == x, "weaving puts each bit back in order");
    check(unravel_address(wx, mask).val() == x, "unravelling undoes weaving");
    let uy = unravel_address(A::mk(y), mask);
    check(x & m != y & m || (ux < uy) == (x < y), "addresses of one network keep their order");
    let prefix = { let z = mask_zeros(m, A::BITS); m == A::pmask(A::BITS - z) };
    if prefix { check(ux.val() == x && wx.val() == x, "prefix masks leave addresses alone"); cover("prefix mask"); } else { cover("mixed mask"); }
    cover("end");
}
harnesses! {
    vf_h_c18_v4 { both::<Ipv4Address>(window_mask::<Ipv4Address>(param(0))) }
    vf_h_c18_v6 { both::<Ipv6Address>(window_mask::<Ipv6Address>(param(0))) }
    // masks with few changes between ones and zeros, at arbitrary places
    vf_h_c18_v4_runs { let a = shard(33) as u32; let b = choose(33) as u32; let c = choose(33) as u32; assume(a <= b && b <= c); let m = Ipv4Address::pmask(a) | (Ipv4Address::pmask(c) & !Ipv4Address::pmask(b)); both::<Ipv4Address>(if choose(2) == 1 { m } else { !m & 0xffff_ffff }) }
    vf_h_c18_v6_runs { let a = shard(129) as u32; let b = choose(129) as u32; assume(a <= b); let m = Ipv6Address::pmask(a) | (u128::MAX & !Ipv6Address::pmask(b)); both::<Ipv6Address>(if choose(2) == 1 { m } else { !m }) }
    // several uneven bytes
    vf_h_c18_v4_mix { let b = [0xffu32, 0, 0xf0, 0x0f, 0xaa, 0x55, 0x80, 0x01, 0x7f, 0xfe]; let (i, j) = (shard(10), shard(10)); let (k, l) = (choose(10), choose(10)); assume(param(0) < 2 || (i + 3 * j + 7 * k + 9 * l) % param(0) == 0); both::<Ipv4Address>((b[i as usize] << 24 | b[j as usize] << 16 | b[k as usize] << 8 | b[l as usize]) as u128) }
    vf_h_c18_v6_mix { let b = [0x5au128, 0xf0, 0x0f, 0x80, 0x01, 0x7f, 0xfe]; let (i, j) = (shard(16), shard(16)); assume(i < j); let (k, l) = (choose(7), choose(7)); assume(param(0) < 2 || (i + 3 * j + 5 * k + 9 * l) % param(0) == 0); let (x, y) = (8 * (15 - i), 8 * (15 - j)); let c = if choose(2) == 1 { u128::MAX } else { 0 }; both::<Ipv6Address>(c & !(0xff << x | 0xff << y) | b[k as usize] << x | b[l as usize] << y) }
    vf_h_c18_bits {
        // every length that addresses have or could have; one byte of the sequence is arbitrary, at any place
        let n = choose(18) as usize; let p = choose(18) as usize; assume(p < n || (n == 0 && p == 0));
        let b: Vec<u8> = (0..n).map(|i| if i == p { sym8() } else { (i as u8).wrapping_mul(73) ^ 0x5a }).collect();
        let bits = bytes_to_bits(&b);
        check(bits.len() == 8 * n, "number of bits");
        for i in 0..8 * n { check(bits[i] == (b[i / 8] >> (7 - i % 8) & 1 == 1), "bit of a byte sequence"); }
        check(bits_to_bytes(&bits) == b, "bytes from their bits");
        let s = bytes_to_binary(&b); let s = s.as_bytes();
        check(s.len() == 8 * n, "number of digits");
        for i in 0..8 * n { check(s[i] == b'0' + (b[i / 8] >> (7 - i % 8) & 1), "binary digit"); }
        cover("end");
    }
}
