//! C08, C09: --derange prints the fewest networks that cover exactly the given range (through the command line).
use crate::vf::*;
use crate::vflib::*;
/// assertions that belong to one of the two properties only
fn c8(c: bool, m: &str) { if judged(8) { check(c, m) } }
fn c9(c: bool, m: &str) { if judged(9) { check(c, m) } }
/// the range from a to b, given in the order a, b
pub fn derange(v6: bool, a: u128, b: u128) {
    let (ta, tb) = (wr(v6, a), wr(v6, b)); note(&ta); note(&tb);
    conc((b < a) as u64);
    let o = run(&[b"-d", &ta, &tb]);
    fine(&o); check(worked(&o), "the range is accepted");
    let (lo, hi) = (if a <= b { a } else { b }, if a <= b { b } else { a });
    let l = lines(&o.out);
    check(!l.is_empty(), "a range is never empty");
    let mut next = lo; let f = full(v6);
    for i in 0..l.len() {
        let k = match only(l[i], b'/') { Some(k) => k, None => { check(false, "every line is a network"); return; } };
        let p = match cnum(&l[i][k + 1..]) { Some(p) if p <= bits(v6) as u64 => p as u32, _ => { check(false, "every line is a prefix-length network"); return; } };
        let n = match rd(v6, &l[i][..k]) { Some(n) => n, None => { check(false, "every line is a network"); return; } };
        let wild = !pmask(v6, p) & f;
        c8(n & wild == 0, "no host bits in a printed network");
        c8(n == next, "the networks follow each other without gap or overlap"); c9(n >= next && (i == 0 || next != 0), "no address is covered twice");
        c8((n | wild) <= hi, "no address beyond the range");
        if p > 0 { let w2 = wild << 1 | 1; c9((n & !w2) < lo || (n | w2) > hi, "no network could be larger"); }
        if i + 1 == l.len() { c8(n | wild == hi, "the last address of the range is reached"); }
        next = (n | wild).wrapping_add(1) & f;
    }
    cover("end");
}
harnesses! {
    vf_h_c08_cli_window {
        // w arbitrary bits at a place, the same fixed bits above, 0 or 1 below
        warm();
        let v6 = param(0) == 6; let b = bits(v6); let w = param(1) as u32; let pos = shard(b as u64 / param(2)) as u32 * param(2) as u32; assume(pos + w <= b);
        let lm = (1u128 << pos) - 1; let wm = (1u128 << w) - 1;
        let hi = (if v6 { 0x9a31_8425_b6c7_d8e9_f1a2_93b4_85c6_a7d8u128 } else { 0x9c85_d6a7 }) & !(wm << pos) & !lm;
        let (x, y) = (sym(0, wm as u64) as u128, sym(0, wm as u64) as u128);
        let a = hi | x << pos | if choose(2) == 0 { 0 } else { lm }; let b = hi | y << pos | if choose(2) == 0 { 0 } else { lm };
        derange(v6, a, b);
    }
    vf_h_c08_cli_short {
        // any first address of one text shape, few addresses
        warm();
        let v6 = shard(2) == 1; let d = shard(param(0)) as u128; let a = symaddr(v6); let b = a.wrapping_add(d) & full(v6); assume(b >= a);
        if !v6 { assume((b & 0xff) >= 100 && (b >> 8 & 0xff) >= 100); }
        if choose(2) == 0 { derange(v6, a, b) } else { derange(v6, b, a) }
    }
    vf_h_c08_cli_scatter {
        // one arbitrary bit at any place of either address, all other bits one of three patterns each; either order
        warm();
        let v6 = param(0) == 6; let b = bits(v6); let i = shard(b as u64) as u32; let j = (i * 5 + choose(b as u64 / param(1)) as u32 * param(1) as u32) % b;
        let p = [0x5555_5555_5555_5555_5555_5555_5555_5555u128, 0x2001_0db8_0a0b_0c0d_5e6f_7081_0a01_0203, 0xfe80_7ffe_0000_ffff_8000_0001_00ff_00f1, 0xaaaa_aaaa_aaaa_aaaa_aaaa_aaaa_aaaa_aaaa, 0xf123_4567_89ab_cdef_0246_8ace_c0a8_9876, !0];
        let k = choose(3) as usize; let l = 3 + choose(3) as usize; if param(2) > 1 { assume((i as usize + k * 3 + l) as u64 % param(2) == 0); }
        let (x, y) = (p[k] & full(v6) & !(1 << i) | (sym(0, 1) as u128) << i, p[l] & full(v6) & !(1 << j) | (sym(0, 1) as u128) << j);
        if choose(2) == 0 { derange(v6, x, y) } else { derange(v6, y, x) }
    }
    vf_h_c08_cli_lengths {
        // every prefix length: exactly one network, and one address or one network more or less at either end
        warm();
        let v6 = shard(2) == 1; let b = bits(v6); let p = choose(b as u64 + 1) as u32; let m = pmask(v6, p); let f = full(v6);
        assume(param(0) < 2 || p as u64 % param(0) == 0 || p < 3 || p + 3 > b);
        let a = if v6 { 0x9a31_8425_b6c7_d8e9_f1a2_93b4_85c6_a700 | sym(0x10, 255) as u128 } else { 0xd6a7_cb00 | sym(100, 255) as u128 };
        let (lo, hi) = (a & m, a | !m & f); let n = !m & f;
        let (x, y) = match choose(6) { 0 => (lo, hi), 1 => (lo.wrapping_add(1) & f, hi), 2 => (lo, hi.wrapping_sub(1) & f), 3 => (lo.wrapping_sub(1) & f, hi), 4 => (lo, hi.wrapping_add(1) & f), _ => (lo, hi.wrapping_add(n).wrapping_add(1) & f) };
        derange(v6, x, y);
    }
    vf_h_c08_cli_ends {
        // whole address space, halves, single addresses at both ends
        warm();
        let v6 = shard(2) == 1; let f = full(v6);
        let e = [0, 1, f >> 1, (f >> 1) + 1, f - 1, f, 5, f - 6];
        derange(v6, e[choose(8) as usize], e[choose(8) as usize]);
    }
}
