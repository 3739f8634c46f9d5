//! C03: all ways of writing a network mean the same network.
use crate::vf::*;
use crate::vflib::*;
/// what --minimize makes of a single network: the network itself
fn judge(t: &[u8], o: &Out) {
    fine(o);
    match rspec(t) {
        None => { check(refused(o), "text that is no network is refused"); cover("refused"); },
        Some((v6, a, m)) => {
            check(worked(o), "a well-formed network is accepted");
            let l = lines(&o.out);
            check(l.len() == 1 && netm(v6, l[0]) == Some((a & m, m)), "the network is the one the text denotes"); cover("accepted");
        },
    }
    cover("end");
}
fn ask(t: &[u8]) { note(t); let o = run(&[b"-m", t]); judge(t, &o); }
/// the way number `f` of writing a mask (of which `p` leading bits are one)
fn form(v6: bool, f: u64, m: u128) -> Vec<u8> {
    let p = plen(v6, m);
    match f { 0 => dec(p.unwrap() as u64), 1 => cat(&[b"-", &dec((bits(v6) - p.unwrap()) as u64)]), 2 => wr(v6, m), 3 => cat(&[b"-", &wr(v6, !m & full(v6))]), 4 => if v6 { t6(m) } else { t4(m as u32) }, _ => cat(&[b"-", &if v6 { t6(!m) } else { t4(!m as u32) }]) }
}
harnesses! {
    vf_h_c03_forms {
        // every prefix length written in every way, any address (of one text shape)
        warm();
        let v6 = param(0) == 6; let p = shard(bits(v6) as u64 + 1) as u32; let f = choose(6);
        let a = symaddr(v6);
        ask(&cat(&[&wr(v6, a), b"/", &form(v6, f, pmask(v6, p))]));
    }
    vf_h_c03_v4_mask {
        // mask and wildcard texts: one octet of any value, the others chosen
        warm();
        let pos = shard(4) as usize; let neg = choose(2) == 1; let c = choose(5);
        let mut t = cat(&[b"250.241.242.253/", if neg { b"-" } else { b"" }]);
        for i in 0..4 {
            if i > 0 { t.push(b'.'); }
            let b = if i == pos { sym8() } else { match c { 0 => if i < pos { 255 } else { 0 }, 1 => 255, 2 => 0, 3 => if i < pos { 0 } else { 255 }, _ => 0xa5 } };
            if i == pos { t.extend_from_slice(&oct3(b)); } else { t.extend_from_slice(&dec(b as u64)); }
        }
        ask(&t);
    }
    vf_h_c03_v6_mask {
        // mask and wildcard texts: one group of any value, the others chosen
        warm();
        let pos = shard(8) as usize; let neg = choose(2) == 1; let c = choose(4); let w = choose(2);
        let mut t = cat(&[b"f1e2:d3c4:b5a6:9786:7968:5a4b:3c2d:1e0f/", if neg { b"-" } else { b"" }]);
        for i in 0..8 {
            if i > 0 { t.push(b':'); }
            let g: u16 = if i == pos { if w == 0 { (sym8() as u16) << 8 } else { 0xff00 | sym8() as u16 } } else { match c { 0 => if i < pos { 0xffff } else { 0 }, 1 => 0xffff, 2 => if i < pos { 0 } else { 0xffff }, _ => 0x5aa5 } };
            for k in 0..4 { t.push(hexd((g >> (12 - 4 * k)) as u8)); }
        }
        ask(&t);
    }
    vf_h_c03_number {
        // one to four arbitrary digits after the slash, or after /-
        warm();
        let v6 = shard(2) == 1; let neg = choose(2) == 1; let w = 1 + choose(4);
        let mut t = if v6 { b"f1e2:d3c4:b5a6:9786:7968:5a4b:3c2d:1e0f/".to_vec() } else { b"250.241.242.253/".to_vec() };
        if neg { t.push(b'-'); }
        for _ in 0..w { t.push(b'0' + sym(0, 9) as u8); }
        ask(&t);
    }
    vf_h_c03_long {
        // numbers of 5 to 40 digits, three of them arbitrary
        warm();
        let v6 = shard(2) == 1; let neg = choose(2) == 1; let w = 5 + choose(36); let fill = [b'0', b'1', b'9'][choose(3) as usize]; 
        let mut t = if v6 { b"1::f/".to_vec() } else { b"250.241.242.253/".to_vec() };
        if neg { t.push(b'-'); }
        for i in 0..w { t.push(if i == 0 || i + 1 == w { b'0' + sym(0, 9) as u8 } else { fill }); }
        ask(&t);
    }
    vf_h_c03_edits {
        // single edits of specifications
        warm();
        let b: &[u8] = match param(0) { 0 => b"10.2.30.4/24", 1 => b"9.8.7.6/255.0.255.0", 2 => b"1.2.3.4/-0.0.3.255", 3 => b"1.2.3.4/-8", 4 => b"1:2::f/64", 5 => b"a::7/ffff::f0", 6 => b"a:b::/-::f", _ => b"::1/-64" };
        let t = edit1(b, param(1) == 1);
        for g in splitb(&t, b'/') { for h in splitb(g, b':') { assume(h.len() <= 4 || !h.iter().all(|c| (*c >= b'0' && *c <= b'9') || (*c | 32) >= b'a' && (*c | 32) <= b'f') || param(0) < 4); } }
        ask(&t);
    }
    vf_h_c03_modes {
        // in every mode, all ways of writing a network give the same output
        warm();
        let v6 = shard(2) == 1; let mode = choose(5); let k = choose(3); let b = bits(v6);
        let m = match k { 0 => pmask(v6, b - 3), 1 => pmask(v6, b), _ => if mode == 3 { pmask(v6, b - 4) } else { full(v6) & !0x105 } };
        let f = 1 + choose(5); assume(f != 1 || plen(v6, m).is_some());
        let a = symaddr(v6) & !7 | 5; let x = wr(v6, a);
        let go = |f: u64| { let t = cat(&[&x, b"/", &form(v6, f, m)]); note(&t); let d = dec(b as u64 - 1);
            match mode { 0 => run(&[&t]), 1 => run(&[b"-e", &t]), 2 => run(&[b"-r", &t, &d]), 3 => run(&[b"-s", &t, b"0"]), _ => run(&[b"-m", &t, &cat(&[&wr(v6, 7), if v6 { b"/128" } else { b"/32" }])]) } };
        let o1 = go(if plen(v6, m).is_some() { 0 } else { 2 }); let o2 = go(f);
        fine(&o1); fine(&o2);
        check(o1.code == 0 || mode == 3, "the network is accepted");
        check(o1.code == o2.code && o1.out == o2.out && o1.err == o2.err, "the same network written in another way gives the same output");
        cover("end");
    }
    vf_h_c03_any {
        // every text of a few ASCII characters
        warm();
        let n = param(0) as usize; let mut t: Vec<u8> = Vec::new(); let c0 = shard(8); 
        for i in 0..n { let c = if i == 0 { sym(if c0 == 0 { 1 } else { c0 * 16 }, c0 * 16 + 15) as u8 } else { sym(1, 127) as u8 }; t.push(c); }
        if n > 0 { assume(t[0] != b'-'); }
        note(&t); judge(&t, &run(&[b"-m", &t]));
    }
    vf_h_c03_shapes {
        // every text of a few characters of those that networks are written with
        warm();
        let n = param(0) as usize; let at = shard(n as u64) as usize; let mut t: Vec<u8> = Vec::new();
        for i in 0..n { t.push(if i == at { b'/' } else { match if i == 0 || i == 2 { shard(5) } else { choose(5) } { 0 => b'0' + sym(0, 9) as u8, 1 => b'a' + sym(0, 5) as u8, 2 => b':', 3 => b'.', _ => b'-' } }); }
        assume(t[0] != b'-'); for g in splitb(&t, b'/') { for h in splitb(g, b':') { assume(h.len() <= 4 || contains(h, b".") || contains(h, b"-")); } }
        note(&t); judge(&t, &run(&[b"-m", &t]));
    }
}
