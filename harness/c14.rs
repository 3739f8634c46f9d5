//! C14, C15: --enumerate lists every address exactly once, reports bad networks and carries on (through the command line).
use crate::vf::*;
use crate::vflib::*;
fn spread(x: u128, mask: u128, n: u32) -> u128 { let mut r = 0; let mut k = 0; for i in 0..n { if mask >> i & 1 == 1 { r |= (x >> k & 1) << i; k += 1; } } r }
fn spec(v6: bool, a: u128, m: u128) -> Vec<u8> { cat(&[&wr(v6, a), b"/", &match plen(v6, m) { Some(p) => dec(p as u64), None => if v6 { t6(m) } else { t4(m as u32) } }]) }
/// judges the lines for one network, starting at line k
fn listed(v6: bool, l: &[&[u8]], k: usize, a: u128, m: u128) -> usize {
    let b = bits(v6); let z = zeros(v6, m); let n = 1usize << z; let w = !m & full(v6);
    check(l.len() >= k + n, "every address of the network is listed"); if l.len() < k + n { return l.len(); }
    for i in 0..n { check(rd(v6, l[k + i]) == Some((a & m) | spread(i as u128, w, b)), "the addresses in ascending order, one per line"); }
    k + n
}
fn one(v6: bool, a: u128, m: u128) {
    let t = spec(v6, a, m); note(&t);
    let o = run(&[b"--enumerate", &t]);
    fine(&o); check(worked(&o), "the network is accepted");
    let l = lines(&o.out);
    check(listed(v6, &l, 0, a, m) == l.len(), "nothing else is printed");
    cover("end");
}
harnesses! {
    vf_h_c14_cli_long {
        // networks of many addresses: 2^param host bits, in one run or spread
        warm();
        let v6 = shard(2) == 1; let z = param(0) as u32; let k = shard(4);
        let w = match k { 0 => (1u128 << z) - 1, 1 => { let mut w = 0u128; for i in 0..z { w |= 1 << (2 * i); } w }, 2 => ((1u128 << (z / 2)) - 1) << 20 | (1u128 << (z - z / 2)) - 1, _ => ((1u128 << z) - 1) << 7 };
        let a = match choose(2) { 0 => (if v6 { 0x9a31_8425_b6c7_d8e9_f1a2_93b4_85c6_0000 } else { 0xc9c8_6464 }) | (sym(100, 255) as u128) << 8, _ => full(v6) };
        one(v6, a, full(v6) & !w);
    }
    vf_h_c14_cli_huge {
        // very many addresses, in one run or two; the first part of the address is any
        warm();
        let z = param(0) as u32; let v6 = param(1) == 6; let w = match shard(param(2)) { 0 => (1u128 << z) - 1, _ => ((1u128 << (z / 2)) - 1) << 16 | (1u128 << (z - z / 2)) - 1 };
        one(v6, if v6 { 0x9a31_8425_b6c7_d8e9_f1a2_93b4_0000_0000 | (sym(0x10, 255) as u128) << 40 } else { (sym(100, 255) as u128) << 24 }, full(v6) & !w);
    }
    vf_h_c14_cli_first {
        // the first lines of networks of any size, up to the whole address space
        warm();
        let v6 = shard(2) == 1; let b = bits(v6); let f = full(v6); let k = choose(b as u64 - 6 + 6);
        let m = if k < b as u64 - 6 { let p = k as u32; assume(param(0) < 2 || p as u64 % param(0) == 0 || b - p == 64 || b - p == 63 || b - p == 32 || b - p == 31 || p == 1); pmask(v6, p) } else { f & [f / 3, f / 5, 0xff00ff, f >> 1 & !0x7fff, 1 | 1 << (b - 1) | f >> 5 & !0xff, f & !0xff_0000][(k - (b as u64 - 6)) as usize] };
        let m = if k >= b as u64 - 6 { f & !m } else { m };
        let a = match choose(3) { 0 => if v6 { 0x2a31_8425_b6c7_d8e9_f1a2_93b4_85c6_9a31 & !(0xff << 88) | (sym(0x10, 255) as u128) << 88 } else { 0x0b03_0405 | (sym(100, 255) as u128) << 16 }, 1 => f, _ => 0 };
        let t = spec(v6, a, m); note(&t); head(if v6 { 170 } else { 70 });
        let o = run(&[b"-e", &t]);
        check(o.code == 141 && !o.panicked && o.err.is_empty(), "the addresses of a large network are listed one by one");
        let mut n = o.out.len(); while n > 0 && o.out[n - 1] != b'\n' { n -= 1; }
        let l = lines(&o.out[..n]); check(l.len() >= 4, "the first addresses"); let w = !m & f;
        for (i, x) in l.iter().enumerate() { check(rd(v6, x) == Some((a & m) | spread(i as u128, w, b)), "the addresses in ascending order, one per line"); }
        cover("end");
    }
    vf_h_c15_cli_many {
        // four to nine arguments, one or two of them bad, at any place
        warm();
        let n = 4 + shard(6) as usize; let at = choose(n as u64) as usize; let at2 = choose(n as u64) as usize; assume(at2 <= at); let bads: [&[u8]; 3] = [b"10.0.0.1", b"1::2::/128", b"1.2.3.4/33"]; let kind = choose(3) as usize;
        let mut specs: Vec<Vec<u8>> = Vec::new(); let mut l0 = Vec::new();
        for i in 0..n {
            if i == at || i == at2 { specs.push(if i == at { bads[kind].to_vec() } else { cat(&[b"3.4.5/", &[sym(1, 127) as u8]]) }); }
            else { let v6 = i & 1 == 1; let b = bits(v6); let a = if v6 { 0xfd00_1122_3344_5566_7788_99aa_bbcc_0000u128 | (sym(0x10, 255) as u128) << 8 | sym8() as u128 } else { symaddr(false) }; let m = pmask(v6, b - (i % 3) as u32); specs.push(spec(v6, a, m)); l0.push((v6, a, m)); }
        }
        let mut args: Vec<&[u8]> = vec![b"--enumerate"]; for s in &specs { note(s); args.push(s); }
        let o = run(&args); fine(&o);
        check(o.code == 1, "the exit status tells whether all networks were understood");
        check(lines(&o.err).len() >= if at == at2 { 1 } else { 2 }, "every bad network is reported");
        let l = lines(&o.out); let mut k = 0; for &(v6, a, m) in &l0 { k = listed(v6, &l, k, a, m); }
        check(k == l.len(), "nothing else is printed");
        cover("end");
    }
    vf_h_c15_cli_crowd {
        // a great many arguments, one of them bad, or all but one, or none
        warm();
        let n = [17usize, 40, 99][shard(param(0)) as usize]; let at = shard(n as u64) as usize; let how = choose(3); assume(how < 2 || at == 0); let rep = choose(2) == 1; let x = sym(100, 255) as u128;
        let mut specs: Vec<Vec<u8>> = Vec::new(); let mut l0 = Vec::new();
        for i in 0..n {
            if how == 0 && i == at || how == 1 && i != at { specs.push(b"10.0.0.256/24".to_vec()); }
            else { let v6 = i % 3 == 1; let a = if v6 { 0x9a31_8425_b6c7_d8e9_f1a2_93b4_0000_1000 | x << 32 } else { x << 24 | 0x10_0000 } | if rep { 0 } else { i as u128 }; let m = pmask(v6, bits(v6) - (i % 2) as u32); specs.push(spec(v6, a, m)); l0.push((v6, a, m)); }
        }
        let mut args: Vec<&[u8]> = vec![b"-e"]; for s in &specs { note(s); args.push(s); }
        let o = run(&args); fine(&o); let bad = n - l0.len();
        check(o.code == if bad > 0 { 1 } else { 0 }, "the exit status tells whether all networks were understood");
        check(lines(&o.err).len() >= bad && (bad > 0 || o.err.is_empty()), "every bad network is reported");
        let l = lines(&o.out); let mut k = 0; for &(v6, a, m) in &l0 { k = listed(v6, &l, k, a, m); }
        check(k == l.len(), "nothing else is printed");
        cover("end");
    }
    vf_h_c14_cli_prefix {
        // the last few prefix lengths, any address of one text shape, and both ends of the address space
        warm();
        let v6 = shard(2) == 1; let h = shard(param(0)) as u32; let m = pmask(v6, bits(v6) - h);
        let a = match choose(3) { 0 => symaddr(v6), 1 => full(v6) - 1, _ => 1 };
        one(v6, a, m);
    }
    vf_h_c14_cli_mask {
        // masks with up to three host bits anywhere
        warm();
        let v6 = param(0) == 6; let b = bits(v6); let i = shard(b as u64) as u32; let j = choose(b as u64) as u32; assume(j <= i && (i * 3 + j) as u64 % param(1) == 0);
        let w = 1u128 << i | 1 << j | choose(2) as u128; let a = match choose(2) { 0 => if v6 { 0x9a31_8425_b6c7_d8e9_f1a2_93b4_85c6_0000 | (sym(0x10, 255) as u128) << 8 | sym8() as u128 } else { 0xc9c8_0000 | (sym(100, 255) as u128) << 8 | sym(100, 255) as u128 }, _ => full(v6) };
        one(v6, a, full(v6) & !w);
    }
    vf_h_c15_cli {
        // one to three arguments, each a good one or a bad one of several kinds
        warm();
        let n = 1 + shard(3) as usize;
        let good: [(bool, u128, u128); 4] = [(false, 0xc8c9_caf7, 0xffff_fffe), (true, 0x2001_0db8_1111_2222_3333_4444_5555_6666, u128::MAX), (false, 0xffff_ffff, 0xffff_fffc), (false, 0x6465_6667, 0xffff_7fff)];
        let mut specs: Vec<Vec<u8>> = Vec::new(); let mut kinds = Vec::new(); let mut bad = false;
        for i in 0..n {
            let k = choose(if n == 3 { param(0) } else { 10 }); let c = sym(0x21, 0x7e) as u8;
            match k {
                0 | 1 => { let (v6, mut a, m) = good[k as usize]; if !v6 { a = a & !0xff00 | (sym(100, 255) as u128) << 8; } specs.push(spec(v6, a, m)); kinds.push(Some((v6, a, m))); },
                // a bad one: an arbitrary character in a place where none can be
                2 => { specs.push(cat(&[b"10.0.", &[c], b".0.1/24"])); assume(!is_digit(c)); kinds.push(None); bad = true; },
                3 => { specs.push(b"10.0.0.1".to_vec()); kinds.push(None); bad = true; },
                4 => { let (v6, a, m) = good[2 + (i & 1)]; specs.push(spec(v6, a, m)); kinds.push(Some((v6, a, m))); },
                5 => { specs.push(b"10.0.0.256/24".to_vec()); kinds.push(None); bad = true; },
                6 => { specs.push(b"10.0.0.0/33".to_vec()); kinds.push(None); bad = true; },
                7 => { specs.push(b"::1::/64".to_vec()); kinds.push(None); bad = true; },
                8 => { specs.push(Vec::new()); kinds.push(None); bad = true; },
                _ => { specs.push(b"1::/255.255.0.0".to_vec()); kinds.push(None); bad = true; },
            }
        }
        let mut args: Vec<&[u8]> = vec![b"-e"]; for s in &specs { note(s); args.push(s); }
        let o = run(&args);
        fine(&o);
        check(o.code == if bad { 1 } else { 0 }, "the exit status tells whether all networks were understood");
        let nbad = kinds.iter().filter(|k| k.is_none()).count();
        check(lines(&o.err).len() >= nbad && (nbad > 0 || o.err.is_empty()), "every bad network is reported");
        let l = lines(&o.out); let mut k = 0;
        for x in &kinds { if let Some((v6, a, m)) = x { k = listed(*v6, &l, k, *a, *m); } }
        check(k == l.len(), "nothing else is printed");
        cover(if bad { "bad" } else { "good" }); cover("end");
    }
    vf_h_c15_edit {
        // one argument among good ones with any edit in its address part, or one in the rest of it that makes it malformed
        warm();
        let n = 1 + shard(3) as usize; let at = choose(n as u64) as usize; let b: &[u8] = [&b"201.2.30.4/32"[..], b"1:2::f/127", b"9.8.7.254/-0.0.0.1"][choose(3) as usize];
        let k = shard(b.len() as u64) as usize; let c = sym(1, 127) as u8; let slash = only(b, b'/').unwrap();
        let mut t = b.to_vec();
        match choose(3) { 0 => { t[k] = c; }, 1 => { t.insert(k, c); }, _ => { t.remove(k); } }
        if k > slash { assume(!is_digit(c) && c != b'-' && c != b'.' && t.len() >= b.len()); }
        for g in splitb(&t, b'/') { for h in splitb(g, b':') { assume(h.len() <= 4 || t.len() > 10 && b.len() > 12); } }
        let x = rspec(&t);
        let (a1, a2) = (symaddr(false), 0xfd00_1122_3344_5566_7788_99aa_bbcc_0000u128 | (sym(0x10, 255) as u128) << 8 | sym8() as u128);
        let (s1, s2) = (spec(false, a1, 0xffff_fffe), spec(true, a2, u128::MAX));
        let mut args: Vec<&[u8]> = vec![b"--enumerate"];
        for i in 0..n { args.push(if i == at { &t } else if i < at { &s1 } else { &s2 }); }
        for s in &args { note(s); }
        let o = run(&args); fine(&o);
        check(o.code == if x.is_none() { 1 } else { 0 }, "the exit status tells whether all networks were understood");
        check(o.err.is_empty() == x.is_some(), "a bad network is reported");
        let l = lines(&o.out); let mut k = 0;
        for i in 0..n {
            if i == at { if let Some((v6, a, m)) = x { k = listed(v6, &l, k, a, m); } }
            else if i < at { k = listed(false, &l, k, a1, 0xffff_fffe); } else { k = listed(true, &l, k, a2, u128::MAX); }
        }
        check(k == l.len(), "nothing else is printed");
        cover(if x.is_none() { "bad" } else { "good" }); cover("end");
    }
}
