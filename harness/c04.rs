//! C04: show mode states the true facts of a network. (C05 uses the same runs for the bit columns and class labels.)
use crate::vf::*;
use crate::vflib::*;
/// spec of a network with the given mask, written in the way that costs the fewest paths
pub fn spec(v6: bool, a: u128, m: u128) -> Vec<u8> { match plen(v6, m) { Some(p) => cat(&[&wr(v6, a), b"/", &dec(p as u64)]), None => cat(&[&wr(v6, a), b"/", &wr(v6, m)]) } }
pub fn show(v6: bool, a: u128, m: u128, cols: u32) {
    let t = spec(v6, a, m); note(&t);
    let o = run(&[&t]);
    fine(&o); check(worked(&o), "the network is accepted");
    let l = lines(&o.out);
    let e = describe(v6, &l, 0, Some(a), a & m, m, cols);
    if cols & 1 != 0 { check(e == l.len(), "nothing else is printed"); }
    cover("end");
}
/// the address bits around a mask's uneven places arbitrary, the rest fixed
pub fn nearaddr(v6: bool, m: u128) -> u128 {
    if !v6 { return symaddr(false); }
    let mut r = 0u128; let mut n = 0;
    for i in 0..8 { let g = (m >> (112 - 16 * i)) & 0xffff; let v = if n < 2 && g != 0 && g != 0xffff { n += 1; (sym(0x10, 255) << 8 | sym(0, 255)) as u128 } else { 0x1a2b + 0x1111 * i as u128 }; r = r << 16 | v; }
    r
}
harnesses! {
    vf_h_c04_v4_prefix {
        // one octet (the one in which the prefix ends) of any value
        warm(); let p = shard(33) as u32; let k = if p == 32 { 3 } else { p / 8 };
        let mut a = 0u128; for i in 0..4 { a = a << 8 | (if i == k { sym(0, 255) } else { sym(100, 255) }) as u128; }
        show(false, a, pmask(false, p), 1);
    }
    vf_h_c04_v4_mask { warm(); let m = winmask(false, param(0), param(1)); assume(plen(false, m).is_none()); let a = symaddr(false); show(false, a, m, 1); }
    vf_h_c04_v6_prefix { warm(); let p = shard(129) as u32; let a = symaddr(true); show(true, a, pmask(true, p), 1); }
    vf_h_c04_v6_mask { warm(); let m = winmask(true, param(0), param(1)); assume(plen(true, m).is_none()); let a = nearaddr(true, m); show(true, a, m, 1); }
    vf_h_c04_several {
        // several networks: each described as if it were the only one, in the order given, an empty line between them
        warm();
        let n = 2 + shard(2) as usize; let mut specs: Vec<Vec<u8>> = Vec::new(); let mut v = Vec::new();
        for i in 0..n { let v6 = i < 2 && choose(2) == 1; let k = if i < 2 { choose(3) } else { 1 }; let a = if i == 1 { symaddr(v6) } else { [0xc0a80017u128, 0x20010db8000000000000000000000017][v6 as usize] };
            let m = match (v6, k) { (false, 0) => pmask(false, 24), (false, 1) => 0xff00ff00, (false, _) => pmask(false, 32), (true, 0) => pmask(true, 64), (true, 1) => pmask(true, 127), (true, _) => 0xffff0000ffff0000ffff0000ffff0000 };
            specs.push(spec(v6, a, m)); v.push((v6, a, m)); }
        let r: Vec<&[u8]> = specs.iter().map(|s| &s[..]).collect();
        for t in &r { note(t); }
        let o = run(&r);
        check(worked(&o), "the networks are accepted");
        let l = lines(&o.out); let mut k = 0;
        for i in 0..n {
            if i > 0 { check(k < l.len() && l[k].is_empty(), "an empty line between networks"); k += 1; }
            k = describe(v[i].0, &l, k, Some(v[i].1), v[i].1 & v[i].2, v[i].2, 1);
        }
        check(k == l.len(), "nothing else is printed");
        cover("end");
    }
    vf_h_c04_mix {
        // irregular masks of all kinds
        warm();
        let v6 = shard(2) == 1; let f = full(v6); let c = shard(param(0)); let mut r = c.wrapping_mul(0x9e37_79b9_7f4a_7c15).wrapping_add(99);
        let mut rnd = |n: u64| { r = r.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (r >> 33) % n };
        let k = c % 6; let mut m = 0u128; for _ in 0..16 { let x = rnd(256) as u128; let y = rnd(256) as u128; m = m << 8 | match k { 0 => x, 1 => x | y, 2 => x & y, 3 => if x & 3 == 0 { y } else { 255 }, 4 => if x & 3 == 0 { y } else { 0 }, _ => if x & 1 == 0 { 255 } else { 0 } }; }
        let m = m & f; let fixed = { let mut a = 0u128; for _ in 0..16 { a = a << 8 | rnd(256) as u128; } a & f };
        let i = if v6 { 4 } else { 0 } + rnd(if v6 { 12 } else { 4 }) as u32;
        show(v6, match choose(4) { 0 => fixed & !(0xff << (8 * i)) | (sym(0x80, 255) as u128) << (8 * i), 1 => f, 2 => fixed, _ => 0 }, m, param(1) as u32);
    }
    vf_h_c04_many {
        // many networks, some alike
        warm();
        let n = param(0) as usize + shard(3) as usize * param(1) as usize; let at = if param(3) == 1 { n - 1 } else if param(2) == 0 { [0, n / 2, n - 1][choose(3) as usize] } else { choose(n as u64) as usize }; let v6 = choose(2) == 1; let a = symaddr(v6); let k = if param(3) == 1 { 1 } else { choose(3) };
        let v: Vec<(bool, u128, u128)> = (0..n).map(|i| if i == at || k == 0 && i == (at + 1) % n { (v6, a, pmask(v6, bits(v6) - 8)) } else { match (i + k as usize) % 4 { 0 => (false, 0xc0a8_0017, pmask(false, 24)), 1 => (true, 0x20010db8000000000000000000000017, pmask(true, 128)), 2 => (false, 0xffff_ffff, pmask(false, 31)), _ => (true, 0, pmask(true, 0)) } }).collect();
        let specs: Vec<Vec<u8>> = v.iter().map(|x| spec(x.0, x.1, x.2)).collect(); let r: Vec<&[u8]> = specs.iter().map(|s| &s[..]).collect();
        let o = run(&r); check(worked(&o), "the networks are accepted");
        let l = lines(&o.out); let mut k = 0;
        for i in 0..n { if i > 0 { check(k < l.len() && l[k].is_empty(), "an empty line between networks"); k += 1; } k = describe(v[i].0, &l, k, Some(v[i].1), v[i].1 & v[i].2, v[i].2, 1); }
        check(k == l.len(), "nothing else is printed");
        cover("end");
    }
}
