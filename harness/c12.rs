//! C12, C13: --resize yields the right networks, with its three cases and numbering (through the command line).
use crate::vf::*;
use crate::vflib::*;
pub fn pick(x: u128, mask: u128, n: u32) -> u128 { let mut r = 0u128; for i in (0..n).rev() { if mask >> i & 1 == 1 { r = r << 1 | (x >> i & 1); } } r }
pub fn spread(x: u128, mask: u128, n: u32) -> u128 { let mut r = 0; let mut k = 0; for i in 0..n { if mask >> i & 1 == 1 { r |= (x >> k & 1) << i; k += 1; } } r }
/// how the new mask is written: 0 prefix length, 1 mask
pub fn resize(v6: bool, a: u128, old: u128, new: u128, how: u64) {
    let b = bits(v6);
    let t = cat(&[&wr(v6, a), b"/", &match plen(v6, old) { Some(p) => dec(p as u64), None => if v6 { t6(old) } else { t4(old as u32) } }]);
    let u = if how == 0 { dec(plen(v6, new).unwrap() as u64) } else if v6 { t6(new) } else { t4(new as u32) };
    note(&t); note(&u);
    let o = run(&[b"--resize", &t, &u]);
    fine(&o); check(worked(&o), "the network is resized");
    let l = lines(&o.out);
    let (no, nn) = (b - zeros(v6, old), b - zeros(v6, new));
    if l.is_empty() || l[0] != b"Original network:" { check(false, "the original network comes first"); return; }
    let mut k = describe(v6, &l, 1, None, a & old, old, 8);
    let v = pick(a, old, b); let n = if nn <= no { 1 } else { 1usize << (nn - no) };
    for i in 0..n {
        check(k + 2 < l.len() && l[k].is_empty(), "an empty line, then the next network"); if k + 2 >= l.len() { return; }
        let title = if nn < no { b"Supernet:".to_vec() } else if nn == no { b"Same-sized net:".to_vec() } else { cat(&[b"Subnet ", &dec(i as u64 + 1), b":"]) };
        check(l[k + 1] == &title[..], "the title names the case and the number");
        let x = if nn <= no { if no - nn >= 128 { 0 } else { v >> (no - nn) } } else if nn - no >= 128 { i as u128 } else { v << (nn - no) | i as u128 };
        k = describe(v6, &l, k + 2, None, spread(x, new, b), new, 8);
    }
    check(k + 1 == l.len() && l[k].is_empty(), "nothing else is printed");
    cover(if nn < no { "larger" } else if nn == no { "same" } else { "smaller" }); cover("end");
}
/// an address of arbitrary low bits in one byte or group
fn addr(v6: bool, k: u64) -> u128 { match k { 0 => symaddr(v6), 1 => full(v6), _ => 0 } }
harnesses! {
    vf_h_c12_cli_many {
        // many subnets: 2^param of them
        warm();
        let v6 = shard(2) == 1; let b = bits(v6); let d = param(0) as u32; let k = shard(4);
        let p = match k { 0 => 0, 1 => b / 2 - 3, 2 => b - d, _ => b - d - 5 };
        resize(v6, if v6 { 0x9a31_8425_b6c7_d8e9_f1a2_93b4_85c6_0000 } else { 0xc9c8_0000 } | (sym(100, 255) as u128) << 8 | sym(100, 255) as u128, pmask(v6, p), pmask(v6, p + d), 0);
    }
    vf_h_c12_cli_huge {
        // very many subnets: 2^param of them
        warm();
        let v6 = shard(2) == 1; let b = bits(v6); let d = param(0) as u32; let p = b - 8 - d;
        resize(v6, if v6 { 0x9a31_8425_b6c7_d8e9_f1a2_93b4_0000_0000 | (sym(0x10, 255) as u128) << 40 } else { (sym(100, 255) as u128) << 24 }, pmask(v6, p), pmask(v6, p + d), 0);
    }
    vf_h_c13_cli_huge {
        // very many subnets by masks with holes: 2^param of them
        warm();
        let v6 = shard(2) == 1; let f = full(v6); let host = 0x1f_dbf5u128; let mut new = host;
        let mut i = 1; let mut n = 0; while n < param(0) { if new >> i & 1 == 1 { new &= !(1u128 << i); n += 1; } i += 1; }
        resize(v6, if v6 { 0x9a31_8425_b6c7_d8e9_f1a2_93b4_0000_0000 | (sym(0x10, 255) as u128) << 40 } else { (sym(100, 255) as u128) << 24 }, f & !host, f & !new, 1);
    }
    vf_h_c13_cli_many {
        // many subnets by masks with holes
        warm();
        let v6 = shard(2) == 1; let f = full(v6); let d = param(0); let k = choose(4);
        let host = match k { 0 => f / 3 & 0xffff, 1 => 0xff00, 2 => 0x1f1f, _ => (f >> 8 & !(f >> 16)) | 0x55 };
        // the new mask takes d of the old mask's host bits as network bits, from the bottom or every other one
        let mut new = host; let mut i = 0; let mut n = 0; let how = choose(2); while n < d && i < 120 { if new >> i & 1 == 1 && (how == 0 || i % 2 == 1) { new &= !(1u128 << i); n += 1; } i += 1; }
        resize(v6, if v6 { 0x9a31_8425_b6c7_d8e9_f1a2_93b4_85c6_0000 } else { 0xc9c8_0000 } | (sym(100, 255) as u128) << 8 | sym(100, 255) as u128, f & !host, f & !new, 1);
    }
    vf_h_c13_cli_mix {
        // irregular masks of all kinds
        warm();
        let v6 = shard(2) == 1; let b = bits(v6); let f = full(v6); let c = shard(param(0)); let mut r = c.wrapping_mul(0x9e37_79b9_7f4a_7c15).wrapping_add(777);
        let mut rnd = |n: u64| { r = r.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (r >> 33) % n };
        let mut mask = |k: u64| { let mut m = 0u128; for _ in 0..16 { let x = rnd(256) as u128; let y = rnd(256) as u128; m = m << 8 | match k { 0 => x, 1 => x | y, 2 => x & y, 3 => if x & 3 == 0 { y } else { 255 }, 4 => if x & 3 == 0 { y } else { 0 }, _ => if x & 1 == 0 { 255 } else { 0 } }; } m & f };
        let old = mask(c % 6); let mut new = mask(c / 6 % 6);
        // at most four bits more
        let mut i = 0; while b - zeros(v6, new) > b - zeros(v6, old) + (c % 5) as u32 { let k = (i * 7 + c as u32) % b; new &= !(1u128 << k); i += 1; }
        let how = choose(2); if how == 0 && plen(v6, new).is_none() { assume(false); }
        resize(v6, match choose(3) { 0 => (if v6 { 0x9a31_8425_b6c7_d8e9_f1a2_93b4_85c6_1000 } else { 0xc9c8_0000 }) | (sym(100, 255) as u128) << 8 | sym(100, 255) as u128, 1 => f, _ => 0 }, old, new, how);
    }
    vf_h_c12_cli {
        // any prefix length to any other (all larger ones, up to 2^param smaller ones)
        warm();
        let v6 = param(0) == 6; let b = bits(v6); let p = shard(b as u64 + 1) as u32; let q = choose(b as u64 + 1) as u32;
        assume(q <= p || (q - p) as u64 <= param(1)); assume(param(2) < 2 || (p * 5 + q) as u64 % param(2) == 0 || p.max(q) - p.min(q) < 2 && (p + q) as u64 % 8 == 0);
        let how = choose(2); assume(how == 0 || (p + q) % 3 == 0);
        resize(v6, addr(v6, if (p + q) % 4 == 0 { choose(3) } else { 0 }), pmask(v6, p), pmask(v6, q), how);
    }
    vf_h_c12_cli_pairs {
        // every pair of prefix lengths (all larger networks, up to 2^param smaller ones), one byte of the address arbitrary
        warm();
        let v6 = param(0) == 6; let b = bits(v6); let p = shard(b as u64 + 1) as u32; let q = choose(b as u64 + 1) as u32;
        assume(q <= p || (q - p) as u64 <= param(1)); assume(param(2) < 2 || (p * 5 + q) as u64 % param(2) == 0 || p + 2 > b || q < 2);
        resize(v6, if v6 { 0x9a31_8425_b6c7_d8e9_f1a2_93b4_85c6_a700 | sym(0x10, 255) as u128 } else { 0xd6a7_cb00 | sym(100, 255) as u128 }, pmask(v6, p), pmask(v6, q), 0);
    }
    vf_h_c13_cli {
        // masks with an arbitrary byte, to and from a few others
        warm();
        let v6 = param(0) == 6; let m = winmask(v6, 2, param(1)); let f = full(v6); let b = bits(v6);
        let t = [pmask(v6, b / 2), f & !(f / 0xff), f & !0x50, f / 3][choose(4) as usize];
        let (x, y) = if choose(2) == 0 { (m, t) } else { (t, m) };
        let (zx, zy) = (zeros(v6, x), zeros(v6, y)); assume(zx <= zy + 3);
        let a = if v6 { 0x9a31_8425_b6c7_d8e9_f1a2_93b4_85c6_0000 | (sym(0x10, 255) as u128) << 8 | sym8() as u128 } else { 0xc9c8_0000 | (sym(100, 255) as u128) << 8 | sym(100, 255) as u128 };
        resize(v6, a, x, y, 1);
    }
}
