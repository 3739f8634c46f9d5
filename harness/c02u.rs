//@ unit
//! C02: printed addresses denote the address they stand for (the formatters themselves).
use crate::ut::*;
use std::str::FromStr;
harnesses! {
    vf_h_c02_u4 {
        let a = sym32(); let x = Ipv4Address::new(a);
        let s = x.to_string();
        check(s.as_bytes() == &t4(a)[..], "canonical text");
        match Ipv4Address::from_str(&s) { Ok(y) => check(y == x, "printed address means the same"), Err(_) => check(false, "printed address is accepted") }
        cover("end");
    }
    vf_h_c02_u6 {
        // every pattern of zero groups; any one or two groups of any value, the others of four digits
        let zeros = shard(256); let w1 = choose(9) as usize; let w2 = choose(9) as usize;
        assume(w1 == 8 || zeros >> w1 & 1 == 0); assume(if param(0) == 1 { w2 == 8 } else { w1 < w2 && w2 < 8 && zeros >> w2 & 1 == 0 });
        let mut a = 0u128;
        for i in 0..8 { let v = if zeros >> i & 1 == 1 { 0 } else if i == w1 || i == w2 { let v = sym16(); assume(v != 0); v } else { let v = sym16(); assume(v >= 0x1000); v }; a = a << 16 | v as u128; }
        let x = Ipv6Address::mk(a);
        let s = x.to_string();
        check(s.as_bytes() == &t6(a)[..], "canonical text");
        match Ipv6Address::from_str(&s) { Ok(y) => check(y == x, "printed address means the same"), Err(_) => check(false, "printed address is accepted") }
        cover("end");
    }
}
