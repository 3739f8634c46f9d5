//! C01: address text is read exactly as written (through the command line).
use crate::vf::*;
use crate::vflib::*;

/// The ways in which the program takes an address.
const MODES4: u64 = 7;
fn ask4(mode: u64, t: &[u8]) -> Out {
    match mode {
        0 => run(&[b"-d", t, t]),
        1 => run(&[b"-d", b"192.168.101.202", t]),
        2 => run(&[&cat(&[t, b"/32"])]),
        3 => run(&[b"-m", b"200.100.200.100/32", &cat(&[t, b"/32"])]),
        4 => run(&[b"-e", &cat(&[t, b"/255.255.255.255"])]),
        5 => run(&[b"-r", &cat(&[t, b"/32"]), b"32"]),
        _ => run(&[b"-r", b"1.2.3.4/32", t]),
    }
}
fn ask6(mode: u64, t: &[u8]) -> Out {
    match mode {
        0 => run(&[b"-d", t, t]),
        1 => run(&[b"-d", b"ff:ff::1", t]),
        2 => run(&[&cat(&[t, b"/128"])]),
        3 => run(&[b"-m", b"ff:ff::1/128", &cat(&[t, b"/128"])]),
        4 => run(&[b"-e", &cat(&[t, b"/ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff"])]),
        5 => run(&[b"-r", &cat(&[t, b"/128"]), b"128"]),
        _ => run(&[b"-r", b"1:2:3:4:5:6:7:8/128", t]),
    }
}
fn judge4(want: Option<u32>, mode: u64, o: &Out) {
    fine(o);
    match want {
        None => { check(refused(o), "text that is no address is refused"); cover("refused"); },
        Some(a) => {
            check(worked(o), "a well-formed address is accepted");
            let l = lines(&o.out);
            if mode == 0 { check(l.len() == 1 && net4(l[0]) == Some((a, 32)), "the address is the one the text denotes"); }
            if mode == 2 { check(l.len() > 0 && starts(l[0], b"Address:   ") && p4(&l[0][11..26 - trail(&l[0][11..26])]) == Some(a), "the address is the one the text denotes"); }
            if mode == 4 { check(l.len() == 1 && p4(l[0]) == Some(a), "the address is the one the text denotes"); }
            cover("accepted");
        },
    }
    cover("end");
}
fn trail(t: &[u8]) -> usize { let mut n = 0; while n < t.len() && t[t.len() - 1 - n] == b' ' { n += 1; } n }
fn judge6(want: Option<u128>, mode: u64, o: &Out) {
    fine(o);
    match want {
        None => { check(refused(o), "text that is no address is refused"); cover("refused"); },
        Some(a) => {
            check(worked(o), "a well-formed address is accepted");
            let l = lines(&o.out);
            if mode == 0 { check(l.len() == 1 && net6(l[0]) == Some((a, 128)), "the address is the one the text denotes"); }
            if mode == 2 { check(l.len() > 0 && starts(l[0], b"Address:   ") && l[0].len() > 50 && p6(&l[0][11..50 - trail(&l[0][11..50])]) == Some(a), "the address is the one the text denotes"); }
            if mode == 4 { check(l.len() == 1 && p6(l[0]) == Some(a), "the address is the one the text denotes"); }
            cover("accepted");
        },
    }
    cover("end");
}
/// A text one edit away from t: a character replaced, inserted or removed, or the text itself.
fn edit(t: &[u8]) -> Vec<u8> {
    let mut r = t.to_vec();
    let k = shard(t.len() as u64 + 1) as usize;
    // an arbitrary ASCII character, or a digit of another script
    let c: Vec<u8> = if choose(5) == 4 { vec![0xd9, 0xa0 + sym(0, 9) as u8] } else { vec![sym(1, 127) as u8] };
    match choose(4) {
        0 => { if k >= t.len() { assume(false); } r.splice(k..k + 1, c); },
        1 => { r.splice(k..k, c); },
        2 => { if k >= t.len() { assume(false); } r.remove(k); },
        _ => { if k != 0 { assume(false); } },
    }
    r
}
/// one of the numbers whose bit is set
fn pickmode(set: u64) -> u64 { let m = choose(8); assume(set >> m & 1 == 1); m }
fn groups_shape(front: usize, back: Option<usize>) {
    // one group (any of them) has `width` arbitrary digits, the others are fixed
    let n = front + back.unwrap_or(0);
    let at = if n == 0 { 0 } else { choose(n as u64) as usize };
    let width = if n == 0 { 1 } else { 1 + choose(4) as usize };
    let mut t = Vec::new(); let mut g = Vec::new();
    for i in 0..n {
        if i == front { t.extend_from_slice(b"::"); } else if i > 0 { t.push(b':'); }
        if i == at { let mut v = 0u16; for _ in 0..width { let (c, x) = symhex(); t.push(c); v = v << 4 | x as u16; } g.push(v); }
        else { t.push(b'1' + i as u8); g.push(1 + i as u16); }
    }
    let mut want = None;
    match back {
        None => if n == 8 { want = Some(g.clone()); },
        Some(b) => {
            if b == 0 { t.extend_from_slice(b"::"); }
            if n <= 7 { let mut w = g[..front].to_vec(); for _ in 0..8 - n { w.push(0); } w.extend_from_slice(&g[front..]); want = Some(w); }
        },
    }
    let want = want.map(|w| { let mut r = 0u128; for x in w { r = r << 16 | x as u128; } r });
    note(&t);
    let o = ask6(0, &t);
    judge6(want, 0, &o);
}
harnesses! {
    vf_h_c01_v4_widths {
        let pos = shard(4) as usize; let width = 1 + choose(5) as usize;
        let mut t = Vec::new(); let mut a = 0u32; let mut ok = true;
        for i in 0..4 {
            if i > 0 { t.push(b'.'); }
            if i == pos { let mut v = 0u32; for _ in 0..width { let d = sym(0, 9) as u8; t.push(b'0' + d); v = v * 10 + d as u32; } ok = v <= 255; a = a << 8 | (v & 255); }
            else { let b = sym(100, 255) as u8; t.extend_from_slice(&oct3(b)); a = a << 8 | b as u32; }
        }
        note(&t);
        let o = ask4(0, &t);
        judge4(if ok { Some(a) } else { None }, 0, &o);
    }
    vf_h_c01_v4_edits {
        let t = edit(b"10.200.30.4");
        let mode = pickmode(param(0));
        note(&t);
        if mode == 6 { for &c in &t { if c == b':' { assume(false); } } }
        let o = ask4(mode, &t);
        judge4(r4(&t), mode, &o);
    }
    vf_h_c01_v4_count {
        // any number of parts other than four
        let n = choose(8) as usize; let mut t = Vec::new();
        for i in 0..n { if i > 0 { t.push(b'.'); } t.push(b'0' + sym(0, 9) as u8); }
        let mode = [0, 4][choose(2) as usize];
        note(&t);
        let o = ask4(mode, &t);
        judge4(r4(&t), mode, &o);
    }
    vf_h_c01_v6_full { let n = shard(11) as usize; groups_shape(n, None); }
    vf_h_c01_v6_short { let a = shard(9) as usize; let b = choose(9) as usize; assume(a + b <= 9); groups_shape(a, Some(b)); }
    vf_h_c01_v6_edits {
        let mode = pickmode(param(0));
        let t = match pickmode(param(1)) { 0 => edit(b"1:c::7:8"), 1 => edit(b"::f3"), _ => edit(b"1:2:3:4:a:b:7::") };
        for g in splitb(&t, b':') { assume(g.len() <= 4); }
        if mode != 1 { assume(!t.is_empty()); }
        note(&t);
        if mode == 6 { for &c in &t { if c == b'.' { assume(false); } } }
        let o = ask6(mode, &t);
        judge6(p6(&t), mode, &o);
    }
    vf_h_c01_v4_long {
        // parts with many leading zeros: still the number they denote
        warm();
        let i = shard(4) as usize; let mode = choose(MODES4); let w = [6u64, 10, 11, 20, 39, 8, 9, 19, 21][choose(param(0)) as usize]; let first = if choose(4) == 0 { b'0' + sym(0, 9) as u8 } else { b'0' };
        let mut t: Vec<u8> = Vec::new(); for j in 0..4 { if j > 0 { t.push(b'.'); } if j == i { t.push(first); for _ in 0..w - 3 { t.push(b'0'); } t.push(b"019"[choose(3) as usize]); t.push(b'0' + sym(0, 9) as u8); } else { t.extend_from_slice(b"203"); } }
        note(&t);
        let want = if first == b'0' { r4(&t) } else { None };
        judge4(want, mode, &ask4(mode, &t));
    }
}
