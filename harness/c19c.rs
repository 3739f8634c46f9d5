//! C19 through the command line: a network given by a prefix mask behaves like the one given by the prefix length.
use crate::vf::*;
use crate::vflib::*;
harnesses! {
    vf_h_c19_cli {
        // every prefix length as number, mask text and wildcard text, in every mode
        warm();
        let v6 = shard(2) == 1; let b = bits(v6); let p = shard(b as u64 + 1) as u32; let m = pmask(v6, p); let mode = choose(5);
        assume(param(0) < 2 || mode == 0 && !v6 || (p as u64 + mode) % param(0) == 0 || b - p < 3 && p as u64 % 2 == mode % 2);
        assume(mode != 1 || b - p <= 3); assume(mode != 2 || p > 1 && p < b);
        let a = symaddr(v6); let x = wr(v6, a); let f = choose(3);
        let mt = |m: u128| if v6 { t6(m) } else { t4(m as u32) };
        let by = |f: u64| match f { 0 => dec(p as u64), 1 => mt(m), 2 => wr(v6, m), _ => cat(&[b"-", &mt(!m & full(v6))]) };
        let go = |f: u64| { let t = cat(&[&x, b"/", &by(f)]); note(&t);
            match mode { 0 => run(&[&t]), 1 => run(&[b"-e", &t]), 2 => run(&[b"-r", &t, &dec(p as u64 - 1)]), 3 => run(&[b"-s", &t, b"0"]), _ => run(&[b"-m", &t]) } };
        let o = go(0); let o2 = go(1 + f);
        check(o.code == o2.code && !o.panicked && !o2.panicked && o.out == o2.out && o.err == o2.err, "a network given by mask behaves like the one given by prefix length");
        if mode == 0 {
            let l = lines(&o2.out); let want = cat(&[b" = ", &dec(p as u64)]); let w = if v6 { 46 } else { 21 };
            let mut n = 0;
            for h in &l { if h.len() > 11 + w && trim(&h[..11]) == b"Netmask:" { n += 1; let t = trim(&h[11..11 + w]); check(t.len() > want.len() && t[t.len() - want.len()..] == want[..] && rd(v6, &t[..t.len() - want.len()]) == Some(m), "the mask of a prefix length, recognised as such"); } }
            check(n == 1, "one line about the mask");
        }
        cover("end");
    }
    vf_h_c19_cli_mask {
        // masks with one arbitrary byte: a prefix length is stated exactly for prefix masks
        warm();
        let v6 = param(0) == 6; let m = winmask(v6, 3, param(1)); let a = if v6 { 0x9a31_8425_b6c7_d8e9_f1a2_93b4_85c6_a7d8 } else { 0xc9c8_d2e7u128 };
        let t = cat(&[&wr(v6, a), b"/", &wr(v6, m)]); note(&t);
        let o = run(&[&t]); check(worked(&o), "the mask is accepted");
        let w = if v6 { 46 } else { 21 }; let mut n = 0;
        for h in &lines(&o.out) { if h.len() > 11 + w && trim(&h[..11]) == b"Netmask:" { n += 1; let t = trim(&h[11..11 + w]);
            match plen(v6, m) { Some(p) => { let want = cat(&[b" = ", &dec(p as u64)]); check(t.len() > want.len() && t[t.len() - want.len()..] == want[..], "a prefix mask is recognised"); cover("prefix mask"); }, None => { check(only(t, b'=').is_none(), "a mask that is none is not taken for a prefix mask"); cover("mixed mask"); } } } }
        check(n == 1, "one line about the mask");
        cover("end");
    }
}
