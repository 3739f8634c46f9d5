//! C24: error messages point to the mistake.
use crate::vf::*;
use crate::vflib::*;
/// the numbers in a text, in order
fn nums(t: &[u8]) -> Vec<u64> { let mut r = Vec::new(); let mut i = 0; while i < t.len() { if is_digit(t[i]) { let mut n = 0u64; while i < t.len() && is_digit(t[i]) { n = n.wrapping_mul(10).wrapping_add((t[i] - b'0') as u64); i += 1; } r.push(n); } else { i += 1; } } r }
/// do the wanted numbers occur, in this order?
fn names(t: &[u8], want: &[u64]) -> bool { let mut k = 0; for n in nums(t) { if k < want.len() && n == want[k] { k += 1; } } k == want.len() }
fn quoted(t: &[u8], w: &[u8]) -> bool { contains(t, &cat(&[b"\"", w, b"\""])) }
fn bad(o: &Out) -> bool { fine(o); let r = refused(o); check(r, "refused"); if !r { return false; } check(lines(&o.err).len() == 1, "one message of one line"); true }
/// one lower-case letter beyond the hexadecimal ones
fn letter() -> u8 { sym(b'g' as u64, b'z' as u64) as u8 }
/// arguments at fault, partly arbitrary
fn wrong(k: u64) -> Vec<u8> { match k { 0 => cat(&[b"1.2.3.4/", &[letter()]]), 1 => cat(&[&[letter()], b"::/64"]), 2 => cat(&[b"1.2.", &[b'3' + sym(0, 6) as u8], b"34.5/8"]), 3 => cat(&[b"1.2.3.4/", &[b'4' + sym(0, 5) as u8], b"4"]), 4 => cat(&[b"1:2:3/6", &[b'0' + sym(0, 4) as u8]]), _ => cat(&[&dec(9), &[letter(), letter()]]) } }
fn right(v6: bool, k: u64) -> &'static [u8] { match (v6, k) { (false, 0) => b"9.8.7.6/31", (false, _) => b"9.8.7.6/255.255.255.255", (true, 0) => b"9:8::7/127", _ => b"9::8/128" } }
harnesses! {
    vf_h_c24_derange {
        // which of the two addresses is at fault
        let k = shard(5); let v6 = k >= 3; let pos = choose(3);
        let t = match k { 0 => cat(&[b"1.2.3.", &[letter()]]), 1 => cat(&[b"1.2.", &[b'3' + sym(0, 6) as u8], b"00.4"]), 2 => cat(&[b"1.2.", &[b'0' + sym(0, 9) as u8]]), 3 => cat(&[b"1::2:", &[letter()]]), _ => cat(&[b"1:2:", &[hexd(sym8())]]) };
        let g = if v6 { wr(true, symaddr(true)) } else { wr(false, symaddr(false)) };
        let (a, b): (&[u8], &[u8]) = match pos { 0 => (&t, &g), 1 => (&g, &t), _ => (&t, &t) };
        note(a); note(b);
        let o = run(&[if choose(2) == 0 { b"-d" } else { b"--derange" }, a, b]); if !bad(&o) { return; }
        check(contains(&o.err, b"first") == (pos != 1) && contains(&o.err, b"second") == (pos == 1), "the message says which of the addresses is at fault");
        cover("end");
    }
    vf_h_c24_quote {
        // the argument at fault is quoted
        warm();
        let k = shard(6); let t = wrong(k); note(&t);
        match choose(5) {
            0 => { let o = run(&[b"-s", &t, b"2"]); if bad(&o) { check(quoted(&o.err, &t), "--split quotes the network"); } },
            1 => { let h = cat(&[&[letter()], &[b'0' + sym(0, 9) as u8]]); let p = 1 + choose(3); let o = run(&[b"-s", right(choose(2) == 1, 0), if p == 1 { &h } else { b"3" }, if p == 2 { &h } else { b"4" }, if p == 3 { &h } else { b"0" }]); if bad(&o) { check(quoted(&o.err, &h), "--split quotes the number of hosts"); } },
            2 => { let o = run(&[b"-r", &t, b"8"]); if bad(&o) { check(quoted(&o.err, &t), "--resize quotes the network"); } },
            3 => { let m = match choose(3) { 0 => cat(&[b"255.", &[letter()], b".0.0"]), 1 => cat(&[b"ffff:", &[letter()], b"::"]), _ => cat(&[&[b'1' + sym(0, 8) as u8], &[letter()]]) }; let o = run(&[b"-r", right(choose(2) == 1, 0), &m]); if bad(&o) { check(quoted(&o.err, &m), "--resize quotes the mask"); } },
            _ => {
                // --enumerate: every argument at fault, in order
                let n = 1 + choose(param(0)) as usize; let which = choose(1 << n); let u = wrong(5 - k);
                let mut a: Vec<&[u8]> = vec![b"-e"]; let mut q: Vec<&[u8]> = Vec::new(); for i in 0..n { let x: &[u8] = if which >> i & 1 == 0 { right(i & 1 == 1, i as u64 / 2) } else if i & 1 == 0 { &t } else { &u }; if which >> i & 1 == 1 { q.push(x); } a.push(x); }
                let o = run(&a); fine(&o); let l = lines(&o.err); check(l.len() == q.len(), "one message for each network at fault");
                for i in 0..l.len() { if i < q.len() { check(quoted(l[i], q[i]), "--enumerate quotes the network"); } }
            },
        }
        cover("end");
    }
    vf_h_c24_prefix {
        // a prefix length beyond the family's is named with the maximum
        warm();
        let v6 = shard(2) == 1; let b = bits(v6) as u64; let w = 1 + shard(4); let mode = choose(6);
        let mut d: Vec<u8> = Vec::new(); for _ in 0..w { d.push(b'0' + sym(0, 9) as u8); } let n = num(&d).unwrap(); assume(n > b);
        let addr = if v6 { wr(true, symaddr(true)) } else { wr(false, symaddr(false)) };
        let t = cat(&[&addr, if mode == 5 { b"/-" } else { b"/" }, &d]); note(&t);
        let o = match mode { 0 | 5 => run(&[&t]), 1 => run(&[b"-m", &t]), 2 => run(&[b"-e", &t]), 3 => run(&[b"-s", &t, b"1"]), _ => run(&[b"-r", &cat(&[&addr, b"/8"]), &d]) };
        if !bad(&o) { return; }
        // after what is quoted
        let mut k = 0; for i in 0..o.err.len() { if o.err[i] == b'"' { k = i; } }
        check(names(&o.err[k..], &[n, b]), "the message names the prefix length and the maximum"); cover("end");
    }
    vf_h_c24_octet {
        // an octet out of range: which, its value and the range
        warm();
        let i = shard(4) as usize; let mode = choose(6); let v = sym(256, 999); let f = symaddr(false) as u32;
        let mut t: Vec<u8> = Vec::new(); for j in 0..4 { if j > 0 { t.push(b'.'); } if j == i { t.extend_from_slice(&[b'0' + (v / 100) as u8, b'0' + (v / 10 % 10) as u8, b'0' + (v % 10) as u8]); } else { t.extend_from_slice(&oct3((f >> (24 - 8 * j)) as u8)); } }
        note(&t);
        let o = match mode { 0 => run(&[&cat(&[&t, b"/24"])]), 1 => run(&[&cat(&[b"101.102.103.104/", &t])]), 2 => run(&[b"-m", &cat(&[&t, b"/24"])]), 3 => run(&[b"-d", &t, b"101.102.103.104"]), 4 => run(&[b"-d", b"101.102.103.104", &t]), _ => run(&[b"-r", b"101.102.103.104/8", &t]) };
        if !bad(&o) { return; }
        let mut k = 0; for x in 0..o.err.len() { if o.err[x] == b'"' { k = x; } }
        check(names(&o.err[k..], &[i as u64, v, 0, 255]), "the message names the octet, its value and the range");
        if mode < 3 || mode == 5 { check(contains(&o.err, b"mask") == (mode == 1 || mode == 5), "the message says whether address or mask is at fault"); }
        cover("end");
    }
    vf_h_c24_parts {
        // too few or too many parts, a part that is no number, or one too many "::"
        warm();
        let v6 = shard(2) == 1; let kind = shard(3); let sep: &[u8] = if v6 { b":" } else { b"." }; let all = if v6 { 8 } else { 4 };
        let n = if kind == 0 { 2 + choose(all + 2) as usize } else { all as usize }; assume(kind != 0 || n != all as usize); let i = choose(n as u64) as usize;
        let w = cat(&[&[letter()], &[letter()]]);
        let mut t: Vec<u8> = Vec::new(); for j in 0..n { if j > 0 { t.extend_from_slice(sep); } if kind == 1 && j == i { t.extend_from_slice(&w); } else { t.push(b'0' + sym(0, 9) as u8); } }
        if kind == 2 { if !v6 { return; } t = b"1::2::3".to_vec(); for _ in 0..i / 4 { t.extend_from_slice(b"::"); t.push(hexd(sym8())); } }
        note(&t);
        let g: &[u8] = if v6 { b"1::2" } else { b"1.2.3.4" };
        let o = match choose(3) { 0 => run(&[b"-d", &t, g]), 1 => run(&[b"-d", g, &t]), _ => run(&[b"-r", if v6 { b"1::2/8" } else { b"1.2.3.4/8" }, &t]) };
        if !bad(&o) { return; }
        let mut s = o.err.clone(); let (mut k, mut c) = (0, 0); while k < s.len() && s[k] != b'"' { k += 1; } if k < s.len() && starts(&s, b"failed to parse subnet") { let mut x = k + 1; while x < s.len() && c == 0 { if s[x] == b'"' { c = x; } x += 1; } s = s[c..].to_vec(); }
        match kind {
            0 => check(names(&s, &[n as u64, all]), "the message names the number of parts and the right one"),
            1 => { check(names(&s, &[i as u64]), "the message names the part"); check(quoted(&s, &w), "the message quotes the part"); },
            _ => check(names(&s, &[2 + i as u64 / 4, 1]), "the message names how often \"::\" occurs and how often it may"),
        }
        cover("end");
    }
}
