//! C21: no command line crashes the program; wrong numbers of arguments give the usage text; show mode is all or nothing.
use crate::vf::*;
use crate::vflib::*;
fn ends(o: &Out) {
    fine(o);
    if o.code == 1 { check(!o.err.is_empty() || !o.out.is_empty(), "exit status 1 comes with a message"); cover("one"); } else { check(o.err.is_empty(), "exit status 0 comes without an error message"); cover("zero"); }
    cover("end");
}
fn usage(o: &Out) { fine(o); check(o.code == 1 && o.out.is_empty() && contains(&o.err, b"Usage"), "the usage text and exit status 1"); cover("end"); }
fn word(k: u64) -> &'static [u8] { match k { 0 => b"-m", 1 => b"--minimize", 2 => b"-d", 3 => b"--derange", 4 => b"-s", 5 => b"--split", 6 => b"-r", 7 => b"--resize", 8 => b"-e", _ => b"--enumerate" } }
/// an arbitrary character, possibly of two or three bytes
fn chr() -> Vec<u8> { match choose(3) { 0 => vec![sym(1, 127) as u8], 1 => vec![sym(0xc2, 0xdf) as u8, sym(0x80, 0xbf) as u8], _ => vec![0xe2 + sym(0, 1) as u8, sym(0x80, 0xbf) as u8, sym(0x80, 0xbf) as u8] } }
/// a well-formed argument for position i of a mode, or one that needs care
fn good(mode: u64, i: usize, k: u64) -> &'static [u8] {
    match (mode / 2, i) {
        (1, _) => [&b"10.0.0.1"[..], b"::1", b"255.255.255.255", b"ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff"][k as usize % 4],
        (2, 0) | (3, 0) => [&b"10.0.0.0/30"[..], b"::/126", b"255.255.255.255/32", b"1.2.3.4/255.255.255.250"][k as usize % 4],
        (2, _) => [&b"0"[..], b"2", b"340282366920938463463374607431768211456", b"00000000000000000000000001"][k as usize % 4],
        (3, _) => [&b"32"[..], b"128", b"255.255.255.254", b"ffff::"][k as usize % 4],
        _ => [&b"10.0.0.0/30"[..], b"::/126", b"255.255.255.255/32", b"1.2.3.4/255.255.255.250"][k as usize % 4],
    }
}
harnesses! {
    vf_h_c21_counts {
        // every number of arguments, in every mode; too few or too many of them: the usage text
        warm();
        if choose(2) == 0 { let o = run(&[]); usage(&o); return; }
        let mode = shard(10); let n = choose(6) as usize; let k = choose(4);
        let mut a: Vec<&[u8]> = vec![word(mode)]; for i in 0..n { a.push(good(mode, i, if n > 3 { k } else if i == 0 { k } else { choose(4) })); }
        for x in &a { note(x); }
        let o = run(&a);
        if match mode / 2 { 1 | 3 => n != 2, 2 => n < 2, _ => n < 1 } { usage(&o); } else { ends(&o); }
    }
    vf_h_c21_any {
        // an argument of up to param arbitrary characters, at any place in any mode
        warm();
        let mode = shard(11); let w = choose(param(0) + 1);
        let mut t = Vec::new(); for i in 0..w { if param(0) > 2 || i > 0 { t.push(sym(1, 127) as u8); } else { t.extend_from_slice(&chr()); } }
        note(&t);
        let m = mode & !1; let pos = choose(3) as usize;
        let o = if mode == 10 { assume(pos == 0); assume(!starts(&t, b"-")); run(&[&t]) } else {
            let n = match m / 2 { 1 | 3 => 2, 2 => 2, _ => 1 + choose(2) as usize }; assume(pos < n);
            let mut a: Vec<&[u8]> = vec![word(m + (mode & 1))]; for i in 0..n { a.push(if i == pos { &t } else { good(m, i, 0) }); } run(&a) };
        ends(&o);
    }
    vf_h_c21_two {
        // two arbitrary characters in place of two others of a well-formed argument
        warm();
        let mode = shard(param(0)); let m = [0u64, 2, 4, 6, 8, 10, 5, 7][mode as usize]; let pos = if m >= 10 || m == 0 || m == 8 { 0 } else if m & 1 == 1 { 1 } else { 0 };
        let base: &[u8] = match m { 2 => [&b"1.2.3.4"[..], b"1:2::3"][choose(2) as usize], 5 => b"123", 7 => [&b"24"[..], b"1.2.3.4", b"ff::f"][choose(3) as usize], _ => [&b"1.2.3.4/30"[..], b"1:2::3/126"][choose(2) as usize] };
        let mut t = base.to_vec(); let i = choose(t.len() as u64) as usize; let j = i + 1 + choose(3) as usize; assume(j < t.len());
        t[i] = sym(1, 127) as u8; t[j] = sym(1, 127) as u8;
        // networks of many addresses take long to enumerate, divide into many or to split
        if m == 8 { let k = t.len() - 1; for x in k.saturating_sub(3)..t.len() { assume(x != i && x != j); } }
        note(&t);
        let o = if m == 10 { assume(i > 0); run(&[&t]) } else { let mut a: Vec<&[u8]> = vec![word(m & !1)]; let n = match m / 2 { 1 | 2 | 3 => 2, _ => 1 }; for q in 0..n { a.push(if q == pos { &t } else if m == 6 { b"10" } else { good(m & !1, q, 0) }); } run(&a) };
        ends(&o);
    }
    vf_h_c21_bytes {
        // an arbitrary byte, so possibly no valid text, at any place of a well-formed argument or alone
        warm();
        let m = [0u64, 2, 4, 6, 8, 10, 5, 7][shard(8) as usize];
        let base: &[u8] = match m { 2 => &b"1:2::3"[..], 5 => b"123", 7 => b"ff::f", _ => b"1:2::3/126" };
        let k = choose(base.len() as u64 + 2) as usize; let c = sym(128, 255) as u8;
        let mut t = if k > base.len() { Vec::new() } else { base.to_vec() };
        if k >= base.len() { t.push(c); } else if choose(2) == 0 { t[k] = c; } else { t.insert(k, c); }
        note(&t);
        let o = if m == 10 { run(&[&t]) } else { let pos = (m & 1) as usize; let mut a: Vec<&[u8]> = vec![word(m & !1)]; let n = match m / 2 { 1 | 2 | 3 => 2, _ => 1 }; for q in 0..n { a.push(if q == pos { &t } else { good(m & !1, q, 0) }); } run(&a) };
        fine(&o); check(refused(&o), "an argument that is not text of a network, address or number is refused"); cover("end");
    }
    vf_h_c21_show {
        // show mode prints nothing about any network if one of its arguments is not understood
        warm();
        let n = 1 + shard(4) as usize; let bad = choose(n as u64) as usize; let k = choose(7); let c = sym(1, 127) as u8;
        let b: Vec<u8> = match k { 0 => { assume(!is_digit(c)); cat(&[b"10.0.", &[c], b".1/24"]) }, 1 => b"10.0.0.1".to_vec(), 2 => b"1.2.3.4/33".to_vec(), 3 => b"::/129".to_vec(), 4 => b"256.0.0.0/8".to_vec(), 5 => { assume(!is_digit(c)); cat(&[b"1::2/6", &[c]]) }, _ => Vec::new() };
        if k == 5 { assume(c != b':' && (c | 32 < b'a' || c | 32 > b'f')); }
        let r = choose(if n == 1 { 1 } else { 4 }) as usize;
        let z = if n == 1 || r > 1 { 2 } else if r == 0 { choose(33) } else { choose(129) };
        let a = cat(&[&wr(false, symaddr(false)), b"/", &dec(32 - z % 33)]); let a6 = cat(&[b"::", &[hexd(sym8())], b"/", &dec(128 - z)]); let g: [&[u8]; 4] = [&a, &a6, b"1.2.3.4/255.0.0.255", b"::/0"];
        let args: Vec<&[u8]> = (0..n).map(|i| if i == bad { &b[..] } else { g[(i + r) & 3] }).collect();
        for x in &args { note(x); }
        let o = run(&args); fine(&o);
        check(refused(&o), "a message, and nothing is printed about any network"); cover("end");
    }
    vf_h_c21_help {
        let help = choose(2) == 0; let o = run(&[if help { b"--help" } else { b"--color-test" }]); fine(&o);
        check(o.code == 0, "--help and --color-test succeed"); if help { check(contains(&o.err, b"Usage") || contains(&o.out, b"Usage"), "--help prints the usage text"); } cover("end");
    }
    vf_h_c21_deep {
        // counts and prefixes of many digits
        warm();
        let mode = shard(9); let w = [1u64, 2, 3, 5, 9, 10, 11, 12, 19, 20, 21, 38, 39, 40, 4, 6, 7, 8, 13, 14, 15, 16, 17, 18, 22, 27, 32, 33, 41, 42][choose(param(0)) as usize]; let mut d = Vec::new();
        let neg = choose(2) == 1; if neg { d.push(if choose(2) == 0 { b'-' } else { b'+' }); }
        for i in 0..w { d.push(if i == 0 || i + 1 == w { b'0' + sym(0, 9) as u8 } else { b'7' }); }
        note(&d);
        let o = match mode { 0 => run(&[b"-s", b"10.0.0.0/8", &d]), 1 => run(&[b"-s", b"::/0", &d, b"0", &d]), 2 => run(&[b"-r", b"10.0.0.0/29", &d]), 3 => run(&[b"-r", b"10::/125", &d]),
            4 => run(&[&cat(&[b"1::/", &d])]), 5 => run(&[&cat(&[b"1.2.3.4/", &d])]), 6 => run(&[&cat(&[b"1::/", &d]), b"1.2.3.4/5"]),
            // an address of this many digits
            7 => run(&[b"-d", &cat(&[b"1.2.3.", &d]), b"1.2.3.4"]), _ => run(&[b"-d", b"1::2", &cat(&[b"1::", &d])]) };
        ends(&o);
    }
    vf_h_c21_many {
        // many arguments, the last of them with an arbitrary character
        warm();
        let mode = shard(11); let n = [7usize, 12, 33][choose(param(0)) as usize]; let k = choose(4); let last = choose(3);
        let t = match last { 0 => Vec::new(), 1 => cat(&[b"1.2.3.4/3", &[sym(1, 127) as u8]]), _ => vec![sym(1, 127) as u8] };
        let mut a: Vec<&[u8]> = if mode == 10 { Vec::new() } else { vec![word(mode)] }; for i in 0..n { a.push(if i + 1 == n && last > 0 { &t } else { good(mode, i, k) }); }
        let o = run(&a);
        if mode < 10 && (mode / 2 == 1 || mode / 2 == 3) { usage(&o); } else { ends(&o); }
    }
    vf_h_c21_long {
        // an argument of many characters, one of them arbitrary
        warm();
        let mode = shard(11); let n = [30usize, 65, 130, 260][choose(param(0)) as usize];
        let mut t = match choose(4) { 0 => vec![b'1'; n], 1 => { let mut t = b"1.2.3.4/".to_vec(); t.resize(n - 2, b'0'); t.extend_from_slice(b"32"); t }, 2 => { let mut t = Vec::new(); while t.len() < n { t.extend_from_slice(b"1:"); } t }, _ => { let mut t = Vec::new(); while t.len() < n { t.extend_from_slice(b"255."); } t.extend_from_slice(b"/24"); t } };
        let at = [0, 8, n / 2, n - 1][choose(4) as usize]; t[at] = sym(1, 127) as u8; note(&t);
        assume(mode < 6 || mode > 9 || t[at] != b'-'); // listing all addresses takes long
        let m = mode & !1; let pos = choose(2) as usize;
        let o = if mode == 10 { assume(pos == 0 && t[0] != b'-'); run(&[&t]) } else { let mut a: Vec<&[u8]> = vec![word(mode)]; for i in 0..2 { a.push(if i == pos { &t } else { good(m, i, 0) }); } run(&a) };
        ends(&o);
    }
}
