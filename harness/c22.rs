//! C22: colours change nothing but the appearance, and mark the bits for what they are.
use crate::vf::*;
use crate::vflib::*;
/// The text without colour sequences, and the colour of each of its bytes (0: none).
fn plain(t: &[u8]) -> (Vec<u8>, Vec<u64>) {
    let (mut r, mut c) = (Vec::with_capacity(t.len()), Vec::with_capacity(t.len())); let mut now = 0u64; let mut i = 0;
    while i < t.len() {
        if t[i] == 0x1b {
            let mut code = 0u64; i += 1;
            check(i < t.len() && t[i] == b'[', "a complete colour sequence"); i += 1;
            while i < t.len() && t[i] != b'm' { check(is_digit(t[i]) || t[i] == b';', "a complete colour sequence"); code = code << 8 | t[i] as u64; i += 1; if code >> 56 != 0 { break; } }
            check(i < t.len() && t[i] == b'm', "a complete colour sequence"); i += 1;
            now = if code == b'0' as u64 || code == 0 { 0 } else { code };
        } else { r.push(t[i]); c.push(now); i += 1; }
    }
    check(now == 0, "colours end with the text");
    (r, c)
}
/// number of bits that determine the class of an IPv4 network, if the mask fixes them all (at most one path per class)
fn class_bits(a: u128, m: u128) -> u32 {
    for n in 1..=4 {
        if m >> (32 - n) & 1 == 0 { return 0; }
        if n == 4 || conc((a >> (32 - n) & 1) as u64) == 0 { return n; }
    }
    0
}
fn same(k: &mut u64, c: u64) { if *k == 0 { *k = c; } check(*k == c, "bits of one kind have one colour"); }
/// judges output with and without colours; masks: those of the described networks in their order
fn judge(v6: bool, o: &Out, oc: &Out, masks: &[u128]) {
    check(worked(o) && worked(oc), "with and without colours");
    let (t, c) = plain(&oc.out);
    check(t == o.out, "the text is the same with and without colours");
    check(oc.out.len() > o.out.len(), "colours");
    if t != o.out { return; }
    let w = if v6 { 46 } else { 21 }; let b = bits(v6); let g = if v6 { 16 } else { 8 };
    let (mut net, mut host, mut class) = (0, 0, 0); let mut at = 0; let mut n = 0;
    for l in lines(&o.out) {
        let p = at; at += l.len() + 1;
        let is_net = starts(l, b"Network:"); let is_addr = starts(l, b"Address:");
        if !(is_net || is_addr) || l.len() <= 11 + w { continue; }
        check(n < masks.len(), "a described network"); if n >= masks.len() { return; }
        let m = masks[n]; if is_net { n += 1; }
        let f = trim(&l[11..11 + w]); let mut e = 0; while e < f.len() && f[e] != b'/' { e += 1; }
        let a = match rd(v6, &f[..e]) { Some(a) => a, None => { check(false, "an address"); 0 } };
        let k = if is_net && !v6 { class_bits(a, m) } else { 0 };
        check(l.len() == (11 + w) as usize + (b + b / g - 1) as usize, "the bits"); if l.len() != (11 + w) as usize + (b + b / g - 1) as usize { return; }
        for i in 0..b {
            let x = c[p + 11 + w as usize + (i + i / g) as usize];
            check(x != 0, "every bit has a colour");
            if i < k { same(&mut class, x); cover("class bits"); } else if m >> (b - 1 - i) & 1 == 1 { same(&mut net, x); } else { same(&mut host, x); }
        }
    }
    check(n == masks.len(), "every network is described");
    check(net == 0 || net != host, "network and host bits differ in colour"); check(class == 0 || class != host && class != net, "class bits differ in colour from the others");
    cover("end");
}
fn both(args: &[&[u8]]) -> (Out, Out) { for a in args { note(a); } colour(false); let o = run(args); colour(true); let c = run(args); colour(false); (o, c) }
fn spec(v6: bool, a: u128, m: u128) -> Vec<u8> { match plen(v6, m) { Some(p) => cat(&[&wr(v6, a), b"/", &dec(p as u64)]), None => cat(&[&wr(v6, a), b"/", &if v6 { t6(m) } else { t4(m as u32) }]) } }
harnesses! {
    vf_h_c22_show {
        // show mode: all prefix lengths
        warm();
        let v6 = param(0) == 6; let b = bits(v6); let p = shard(b as u64 + 1) as u32; let m = pmask(v6, p);
        assume(param(1) < 2 || p as u64 % param(1) == 0 || p < 4 || p + 3 > b);
        let a = if v6 { 0x9a31_8425_b6c7_d8e9_f1a2_93b4_85c6_a700 | sym(0, 255) as u128 } else { (sym8() as u128) << 24 | (sym(100, 255) as u128) << 16 | 0xc8d2 };
        let (o, c) = both(&[&spec(v6, a, m)]);
        judge(v6, &o, &c, &[m]);
    }
    vf_h_c22_mask {
        // show mode: masks with one arbitrary byte
        warm();
        let v6 = param(0) == 6; let m = winmask(v6, 3, param(1));
        let a = if v6 { 0x9a31_8425_b6c7_d8e9_f1a2_93b4_85c6_a700 | sym(0, 255) as u128 } else { (sym8() as u128) << 24 | 0x7bc8d2 };
        let (o, c) = both(&[&spec(v6, a, m)]);
        judge(v6, &o, &c, &[m]);
    }
    vf_h_c22_test {
        // every colour has a code of its own
        warm();
        let (o, c) = both(&[b"--color-test"]); check(worked(&o) && worked(&c), "with and without colours");
        let (t, k) = plain(&c.out); check(t == o.out, "the text is the same with and without colours"); if t != o.out { return; }
        let mut seen: Vec<u64> = Vec::new(); let mut i = 0;
        while i < t.len() {
            let mut j = i; while j < t.len() && t[j] != b' ' && t[j] != b'\n' { check(k[j] == k[i], "a colour name in one colour"); j += 1; }
            if j > i { check(k[i] != 0, "a colour name in its colour"); for s in &seen { check(*s != k[i], "every colour has a code of its own"); } seen.push(k[i]); }
            i = j + 1;
        }
        check(seen.len() >= 2, "colours are shown"); cover("end");
    }
    vf_h_c22_modes {
        // split, resize and lists
        warm();
        let v6 = shard(2) == 1; let b = bits(v6); let mode = choose(5);
        let a = if v6 { 0x9a31_8425_b6c7_d8e9_f1a2_93b4_85c6_a700 | sym(0, 255) as u128 } else { (sym8() as u128) << 24 | 0x7bc8d2 };
        let pm = |p: u32| pmask(v6, p); let f = full(v6); let x = wr(v6, a);
        match mode {
            0 => { let m = pm(b - 4); let (o, c) = both(&[b"-s", &spec(v6, a, m), b"2", b"2"]); judge(v6, &o, &c, &[m, pm(b - 2), pm(b - 2)]); },
            1 => { let (m, n) = (pm(b - 2), f & !1 & !(3 << (b - 3))); let (o, c) = both(&[b"-r", &spec(v6, a, m), &if v6 { t6(n) } else { t4(n as u32) }]); judge(v6, &o, &c, &[m, n]); },
            2 => { let m = pm(3); let (o, c) = both(&[b"-r", &spec(v6, a, m), b"5"]); judge(v6, &o, &c, &[m, pm(5), pm(5), pm(5), pm(5)]); },
            3 => { let (o, c) = both(&[b"-m", &cat(&[&x, b"/3"])]); check(worked(&c) && c.out == o.out, "plain lists have no colours"); cover("end"); },
            _ => { let (o, c) = both(&[b"-e", &spec(v6, a, pm(b - 1))]); check(worked(&c) && c.out == o.out, "plain lists have no colours"); cover("end"); },
        }
    }
}
