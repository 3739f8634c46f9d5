//@ unit
//! C01: address text is read exactly as written (the parsers themselves).
use crate::ut::*;
use std::str::FromStr;
harnesses! {
    vf_h_c01_u4_all {
        // every number of digits from 1 to param in each of the four parts, all digits arbitrary
        let mut t = Vec::new(); let mut a = 0u128; let mut ok = true;
        for i in 0..4 {
            if i > 0 { t.push(b'.'); }
            let w = 1 + (if i == 0 { shard(param(0)) } else { choose(param(0)) });
            let mut v = 0u32; for _ in 0..w { let d = sym(0, 9) as u8; t.push(b'0' + d); v = v * 10 + d as u32; }
            if v > 255 { ok = false; }
            a = a << 8 | (v & 255) as u128;
        }
        let s = unsafe { std::str::from_utf8_unchecked(&t) };
        match Ipv4Address::from_str(s) { Ok(x) => { check(ok && x.val() == a, "address denoted by the text"); cover("accepted"); }, Err(_) => { check(!ok, "well-formed text is accepted"); cover("refused"); } }
        cover("end");
    }
    vf_h_c01_u4_any {
        // every ASCII string of a given length
        let n = param(0) as usize; let t: Vec<u8> = (0..n).map(|_| sym(1, 127) as u8).collect();
        let s = unsafe { std::str::from_utf8_unchecked(&t) };
        note(&t);
        let r = Ipv4Address::from_str(s); let w = r4(&t);
        match (r, w) { (Ok(x), Some(a)) => { check(x.val() == a as u128, "address denoted by the text"); cover("accepted"); }, (Err(_), None) => cover("refused"), (Ok(_), None) => check(false, "text that is no address is refused"), _ => check(false, "well-formed text is accepted") }
        cover("end");
    }
    vf_h_c01_u6_shapes {
        // every position and extent of ::, every group with one to four arbitrary digits
        let front = shard(9) as usize; let back = choose(10) as usize; let n = if back == 9 { front } else { front + back };
        if back == 9 { assume(front == 8); } else { assume(n <= 7); }
        let mut t = Vec::new(); let mut g = Vec::new();
        for i in 0..n {
            if i == front { t.extend_from_slice(b"::"); } else if i > 0 { t.push(b':'); }
            let width = if i == 0 || i + 1 == n { 1 + choose(4) } else { 1 + (i as u64 * 3 + front as u64) % 4 };
            let mut v = 0u16; for _ in 0..width { let (c, x) = symhex(); t.push(c); v = v << 4 | x as u16; } g.push(v);
        }
        if back == 0 { t.extend_from_slice(b"::"); }
        let mut r = 0u128; for i in 0..front { r = r << 16 | g[i] as u128; }
        if back != 9 { for _ in 0..8 - n { r = r << 16; } for i in front..n { r = r << 16 | g[i] as u128; } }
        let s = unsafe { std::str::from_utf8_unchecked(&t) };
        match Ipv6Address::from_str(s) { Ok(x) => check(x.val() == r, "address denoted by the text"), Err(_) => check(false, "well-formed text is accepted") }
        cover("end");
    }
    vf_h_c01_u6_any {
        let n = param(0) as usize; let t: Vec<u8> = (0..n).map(|_| sym(1, 127) as u8).collect();
        for g in splitb(&t, b':') { assume(g.len() <= 4); }
        let s = unsafe { std::str::from_utf8_unchecked(&t) };
        note(&t);
        let r = Ipv6Address::from_str(s); let w = p6(&t);
        match (r, w) { (Ok(x), Some(a)) => { check(x.val() == a, "address denoted by the text"); cover("accepted"); }, (Err(_), None) => cover("refused"), (Ok(_), None) => check(false, "text that is no address is refused"), _ => check(false, "well-formed text is accepted") }
        cover("end");
    }
}
