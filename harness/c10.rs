//! C10, C11: --split allots big-enough disjoint slices, accounts for the rest, and admits impossibility (through the command line).
use crate::vf::*;
use crate::vflib::*;
/// host bits of the smallest prefix-length network with at least n hosts
pub fn need(n: u128) -> u32 { let mut z = 1; while (1u128 << z) - 2 < n { z += 1; } z }
fn line_num(l: &[u8], pre: &[u8], post: &[u8]) -> Option<u64> { if l.len() < pre.len() + post.len() || !starts(l, pre) || &l[l.len() - post.len()..] != post { return None; } cnum(&l[pre.len()..l.len() - post.len()]) }
/// assertions that belong to one of the two properties only
fn c10(c: bool, m: &str) { if judged(10) { check(c, m) } }
fn c11(c: bool, m: &str) { if judged(11) { check(c, m) } }
/// Runs the split of (a, m) for the given host counts (as text and as needed host bits) and judges the output.
pub fn split(v6: bool, a: u128, p: u32, counts: &[(Vec<u8>, u32)], hosts: &[u64]) {
    let m = pmask(v6, p); let b = bits(v6); let f = full(v6);
    let t = cat(&[&wr(v6, a), b"/", &dec(p as u64)]); note(&t);
    let mut args: Vec<&[u8]> = vec![b"--split", &t]; for c in counts { note(&c.0); args.push(&c.0); }
    let o = run(&args);
    fine(&o);
    let base = a & m;
    // does it fit? slices of sizes that are powers of two fit exactly if their sum does
    let mut room = true; let mut sum = 0u128;
    for c in counts { if c.1 > b - p { room = false; } else if c.1 < 128 { sum += 1 << c.1; } else if counts.len() > 1 { room = false; } }
    if b - p < 127 && sum > 1 << (b - p) { room = false; }
    let l = lines(&o.out);
    if !room && (judged(11) || o.code != 0) {
        c11(o.code == 1, "a split that does not fit ends with status 1");
        for x in &l { c11(!starts(x, b"Subnet for") && !starts(x, b"Unused"), "nothing is allotted when the split does not fit"); }
        // something is said beyond the network to be split: its title, its description and an empty line
        let k = 1 + 3 + if b - p >= 2 { 2 } else { 1 } + 1;
        c11(l.len() > k && !l[l.len() - 1].is_empty() || !o.err.is_empty(), "the program says that the split does not fit");
        cover("no room"); cover("end"); return;
    }
    c11(worked(&o), "a split that fits succeeds"); if o.code != 0 { return; }
    if !(l.len() > 2 && l[0] == b"Subnet to split:") { c10(false, "the network to be split comes first"); return; }
    let mut k = describe(v6, &l, 1, None, base, m, 8);
    let mut got: Vec<(u128, u128)> = Vec::new();
    for (i, c) in counts.iter().enumerate() {
        c10(k + 2 < l.len() && l[k].is_empty(), "an empty line, then the next slice"); if k + 2 >= l.len() { return; }
        match line_num(l[k + 1], b"Subnet for ", b" hosts:") { Some(n) => c10(n == hosts[i], "the requests are answered in order"), None => c10(false, "the requested number of hosts") }
        // the network as printed
        let w = if v6 { 46 } else { 21 }; let h = l[k + 2];
        if h.len() < 11 + w { c10(false, "a description"); return; }
        let n = match netm(v6, trim(&h[11..11 + w])) { Some(n) => n, None => { c10(false, "a network"); return; } };
        c10(n.1 == pmask(v6, b - c.1), "the smallest prefix length that offers enough hosts");
        c10(n.0 & !n.1 == 0 && n.0 & m == base, "the slice lies in the network");
        for q in &got { c10((q.0 ^ n.0) & q.1 & n.1 != 0, "slices do not overlap"); }
        got.push(n);
        k = describe(v6, &l, k + 2, None, n.0, n.1, 8);
    }
    if !judged(11) { cover("end"); return; }
    check(k < l.len() && l[k].is_empty(), "an empty line after the last slice"); k += 1;
    let mut rest: Vec<(u128, u128)> = Vec::new();
    if k < l.len() { check(l[k] == b"Unused networks:", "the unused networks follow"); k += 1; check(k < l.len(), "unused networks"); }
    while k < l.len() { match netm(v6, l[k]) { Some(n) => { check(n.0 & !n.1 == 0, "no host bits in an unused network"); rest.push(n) }, None => check(false, "an unused network per line") } k += 1; }
    for i in 1..rest.len() { check(rest[i - 1].0 | (!rest[i - 1].1 & f) < rest[i].0, "unused networks are disjoint and ascending"); }
    let x = if v6 { sym128() } else { sym32() as u128 };
    let has = |l: &[(u128, u128)]| { let mut r = false; for n in l { r |= x & n.1 == n.0; } r };
    check(has(&rest) == ((x & m == base) & !has(&got)), "the unused networks hold exactly the addresses in no slice");
    cover(if rest.is_empty() { "filled" } else { "rest" });
    cover("end");
}
/// an address whose text keeps its shape for all networks inside a split of a parent of few host bits
fn place(v6: bool, k: u64) -> u128 { match k { 0 => symaddr(v6), 1 => full(v6), _ => 0 } }
fn cnt(n: u64) -> (Vec<u8>, u32) { (dec(n), need(n as u128)) }
fn pick(v: &[u64], n: u64) -> u64 { v[choose(n) as usize] }
harnesses! {
    vf_h_c10_cli_many {
        // six to twelve requests in several orders
        warm(); hash(param(0));
        let v6 = shard(2) == 1; let b = bits(v6);
        let r: &[u64] = [&[1000u64, 1, 500, 2, 30, 250, 6, 14, 62, 0, 126, 3][..], &[0, 1, 2, 3, 5, 6, 7, 9, 13, 14, 15, 30], &[3, 3, 3, 3, 3, 3, 3, 3, 3, 3], &[254, 100, 62, 30, 14, 6, 2, 2], &[2, 2, 6, 14, 30, 62, 126, 254], &[10, 9, 100, 99, 1, 12, 2, 20, 200, 90]][shard(6) as usize];
        let s = choose(r.len() as u64) as usize; let rev = choose(2) == 1; assume(param(1) < 2 || (s * 2 + rev as usize) as u64 % param(1) == 0);
        let hosts: Vec<u64> = (0..r.len()).map(|i| r[if rev { r.len() - 1 - (i + s) % r.len() } else { (i + s) % r.len() }]).collect();
        let counts: Vec<(Vec<u8>, u32)> = hosts.iter().map(|&x| cnt(x)).collect();
        let mut sum = 0u128; for c in &counts { sum += 1 << c.1; } let mut h = 0; while 1u128 << h < sum { h += 1; }
        let h = h + choose(3) as u32; if h == 0 { return; }
        split(v6, place(v6, choose(2)), b - (h - 1), &counts, &hosts);
    }
    vf_h_c10_cli {
        // one to three requests of sizes around the powers of two, in a small network anywhere
        warm();
        let v6 = param(0) == 6; let b = bits(v6); let n = param(1) as usize; let h = shard(param(2)) as u32; hash(param(3));
        let v = [0, 1, 2, 3, 6, 7, 14, 15];
        let hosts: Vec<u64> = (0..n).map(|_| pick(&v, param(4))).collect();
        let counts: Vec<(Vec<u8>, u32)> = hosts.iter().map(|&x| cnt(x)).collect();
        split(v6, place(v6, choose(3)), b - h, &counts, &hosts);
    }
    vf_h_c10_cli_one {
        // one request of any three-digit number
        warm();
        let v6 = shard(2) == 1; let b = bits(v6); let h = [11u32, 9, 8, 7][shard(4) as usize];
        let d = [sym(1, 9) as u8, sym(0, 9) as u8, sym(0, 9) as u8]; let x = d[0] as u64 * 100 + d[1] as u64 * 10 + d[2] as u64;
        let z = if x > 510 { 10 } else if x > 254 { 9 } else if x > 126 { 8 } else { 7 };
        let z = conc(z) as u32;
        split(v6, if choose(2) == 0 { full(v6) } else if v6 { 0x9a31_8425_b6c7_d8e9_f1a2_93b4_85c6_a7d8 } else { 0xc0a8_0a0b }, b - h, &[(vec![b'0' + d[0], b'0' + d[1], b'0' + d[2]], z)], &[x]);
    }
    vf_h_c10_cli_crowd {
        // many requests, of one size or mixed, that fill the network or are one too many
        warm(); hash(param(1));
        let v6 = shard(2) == 1; let b = bits(v6); let n = [33usize, 64, 130, 256][shard(param(0)) as usize]; let k = shard(3); let over = choose(2) == 1;
        let mut hosts: Vec<u64> = Vec::new(); let mut sum = 0u128;
        for i in 0..n { let x = match k { 0 => 2, 1 => [2u64, 5, 1, 2, 12, 3, 2][i % 7], _ => [6u64, 2, 2][i % 3] }; hosts.push(x); sum += 1 << need(x as u128); }
        let mut h = 0; while 1u128 << h < sum { h += 1; }
        if over { while sum <= 1 << h { hosts.push(2); sum += 4; } }
        let counts: Vec<(Vec<u8>, u32)> = hosts.iter().map(|&x| cnt(x)).collect();
        split(v6, if v6 { 0x9a31_8425_b6c7_d8e9_f1a2_93b4_0000_0000 | (sym(0x10, 255) as u128) << 40 } else { (sym(100, 255) as u128) << 24 }, b - h, &counts, &hosts);
    }
    vf_h_c10_cli_mix {
        // requests of all kinds in networks that are too small, just large enough or larger
        warm(); hash(param(1));
        let v6 = shard(2) == 1; let b = bits(v6); let c = shard(param(0)); let mut r = c.wrapping_mul(0x9e37_79b9_7f4a_7c15).wrapping_add(4242);
        let mut rnd = |n: u64| { r = r.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (r >> 33) % n };
        let n = 1 + rnd(9); let k = rnd(4); let mut hosts: Vec<u64> = Vec::new(); let mut sum = 0u128;
        for _ in 0..n { let e = rnd(9); let x = match k { 0 => rnd(300), 1 => ((1u64 << e) + rnd(3)).saturating_sub(2), 2 => rnd(7), _ => if rnd(3) == 0 { rnd(70000) } else { rnd(20) } }; hosts.push(x); sum += 1 << need(x as u128); }
        let mut h = 0; while 1u128 << h < sum { h += 1; }
        let h = match choose(3) { 0 => h, 1 => h + 1 + rnd(5) as u32, _ => { assume(h > 1); h - 1 } }; if h > b { return; }
        let counts: Vec<(Vec<u8>, u32)> = hosts.iter().map(|&x| cnt(x)).collect();
        split(v6, match choose(2) { 0 => if v6 { 0x9a31_8425_b6c7_d8e9_f1a2_93b4_0000_0000u128 | (sym(0x10, 255) as u128) << 40 } else { (sym(100, 255) as u128) << 24 }, _ => full(v6) }, b - h, &counts, &hosts);
    }
    vf_h_c10_cli_big {
        // large networks and large requests, up to the whole address space
        warm();
        let v6 = shard(2) == 1; let b = bits(v6); let p = if param(0) > 0 { let p = choose(b as u64 + 1) as u32; assume(param(0) < 2 || p as u64 % param(0) == 0 || p < 3 || p + 3 > b); p } else { [0u32, 1, 2, b / 2, b - 1, b][shard(6) as usize] };
        let h = b - p; let k = choose(7);
        // requests that fill the network exactly, half of it, all but one host, or too much
        let full_ = |z: u32| -> (Vec<u8>, u32) { (dec128(if z == 128 { u128::MAX - 1 } else { (1u128 << z) - 2 }), z) };
        let q: Vec<(Vec<u8>, u32)> = match k {
            0 => vec![if h >= 1 { full_(h) } else { cnt(0) }],
            1 => { if h < 3 { assume(false); } vec![full_(h - 1), full_(h - 1)] },
            2 => { if h < 4 { assume(false); } vec![full_(h - 3), full_(h - 1), full_(h - 2), full_(h - 3)] },
            3 => vec![cnt(0), cnt(6)],
            5 => { if h < 4 { assume(false); } vec![full_(h - 2)] },
            6 => { if h < 6 { assume(false); } vec![full_(h - 4), full_(h - 2), full_(h / 2)] },
            _ => { if h < 3 || h > 126 { assume(false); } let mut t = full_(h - 1); t.0 = dec128((1u128 << (h - 1)) - 1); t.1 = h; vec![cnt(0), t] },
        };
        let a = match if param(1) > 0 { (p as u64 + k) % 3 } else { choose(3) } { 0 => if v6 { 0x9a31_8425_b6c7_d8e9_f1a2_93b4_85c6_a7d8 } else { 0xc0a8_0a0b }, 1 => full(v6), _ => 0 };
        // the numbers are compared as text here
        splitbig(v6, a, p, &q);
    }
}
fn splitbig(v6: bool, a: u128, p: u32, counts: &[(Vec<u8>, u32)]) {
    let m = pmask(v6, p); let b = bits(v6); let f = full(v6); let base = a & m;
    let t = cat(&[&wr(v6, a), b"/", &dec(p as u64)]); note(&t);
    let mut args: Vec<&[u8]> = vec![b"-s", &t]; for c in counts { note(&c.0); args.push(&c.0); }
    let o = run(&args); fine(&o);
    let l = lines(&o.out);
    // units of the smallest slice, to stay within range
    let z0 = counts.iter().map(|c| c.1).min().unwrap(); let over = counts.iter().any(|c| c.1 > b - p);
    let mut sum = 0u128; if !over { for c in counts { sum += 1 << (c.1 - z0); } }
    if (over || sum > 1 << (b - p - z0)) && (judged(11) || o.code != 0) { c11(o.code == 1, "a split that does not fit ends with status 1"); for x in &l { c11(!starts(x, b"Subnet for") && !starts(x, b"Unused"), "nothing is allotted when the split does not fit"); } cover("no room"); cover("end"); return; }
    c11(worked(&o), "a split that fits succeeds"); if o.code != 0 { return; }
    let mut got: Vec<(u128, u128)> = Vec::new(); let mut rest = Vec::new(); let mut unused = false; let w = if v6 { 46 } else { 21 };
    for i in 0..l.len() {
        if l[i] == b"Unused networks:" { unused = true; continue; }
        if unused { match netm(v6, l[i]) { Some(n) => rest.push(n), None => c11(false, "an unused network per line") } continue; }
        if starts(l[i], b"Subnet for ") {
            if got.len() >= counts.len() || i + 1 >= l.len() || l[i + 1].len() < 11 + w { c10(false, "one slice per request"); return; }
            c10(l[i] == &cat(&[b"Subnet for ", &counts[got.len()].0, b" hosts:"])[..], "the requests are answered in order");
            match netm(v6, trim(&l[i + 1][11..11 + w])) { Some(n) => {
                c10(n.1 == pmask(v6, b - counts[got.len()].1), "the smallest prefix length that offers enough hosts");
                c10(n.0 & !n.1 == 0 && n.0 & m == base, "the slice lies in the network");
                for q in &got { c10((q.0 ^ n.0) & q.1 & n.1 != 0, "slices do not overlap"); }
                got.push(n);
            }, None => { c10(false, "a network"); return; } }
        }
    }
    c10(got.len() == counts.len(), "one slice per request");
    if !judged(11) { cover("end"); return; }
    for i in 1..rest.len() { check(rest[i - 1].0 | (!rest[i - 1].1 & f) < rest[i].0, "unused networks are disjoint and ascending"); }
    let x = if v6 { sym128() } else { sym32() as u128 };
    let has = |l: &[(u128, u128)]| { let mut r = false; for n in l { r |= x & n.1 == n.0; } r };
    check(has(&rest) == ((x & m == base) & !has(&got)), "the unused networks hold exactly the addresses in no slice");
    cover("end");
}
