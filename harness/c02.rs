//! C02: printed addresses denote the address they stand for (through the command line).
use crate::vf::*;
use crate::vflib::*;
harnesses! {
    vf_h_c02_v4 {
        // one octet of any value, the others of three digits
        let pos = shard(4); let mut a = 0u32;
        for i in 0..4 { let b = if i == pos { sym8() } else { sym(100, 255) as u8 }; a = a << 8 | b as u32; }
        let t = v4(a); note(&t);
        let o = run(&[b"-d", &t, &t]);
        fine(&o); check(worked(&o), "the address is accepted");
        let l = lines(&o.out);
        check(l.len() == 1 && l[0] == &cat(&[&t4(a), b"/32"])[..], "canonical text of the address is printed");
        let p = l[0][..l[0].len() - 3].to_vec();
        let o2 = run(&[b"-d", &p, &p]);
        check(worked(&o2) && o2.out == o.out, "a printed address is accepted and means the same");
        cover("end");
    }
    vf_h_c02_v6 {
        let zeros = shard(256); let wide = choose(9) as usize; assume(wide == 8 || zeros >> wide & 1 == 0);
        assume(wide == 8 || wide as u64 % param(0) == 0);
        let a = sym6(zeros, wide);
        let t = v6(a); note(&t);
        let o = run(&[b"-d", &t, &t]);
        fine(&o); check(worked(&o), "the address is accepted");
        let l = lines(&o.out);
        check(l.len() == 1 && l[0] == &cat(&[&t6(a), b"/128"])[..], "canonical text of the address is printed");
        let p = l[0][..l[0].len() - 4].to_vec();
        let o2 = run(&[b"-d", &p, &p]);
        check(worked(&o2) && o2.out == o.out, "a printed address is accepted and means the same");
        cover("end");
    }
    vf_h_c02_show6 {
        // the texts in show mode: address, network, hosts, broadcast of a /64
        let zeros = shard(256);
        let a = { let mut r = 0u128; for i in 0..8 { r = r << 16 | (if zeros >> i & 1 == 1 { 0 } else { 0x1000 + 0x0111 * i as u128 }); } r };
        let o = run(&[&cat(&[&t6(a), b"/112"])]);
        check(worked(&o), "the network is accepted");
        let l = lines(&o.out);
        let m = !0xffffu128; let n = a & m;
        check(l.len() == 9, "number of lines");
        let want = [(0, a, &b""[..]), (4, n, &b"/112"[..]), (5, n + 1, &b""[..]), (6, n + 0xfffe, &b""[..]), (7, n + 0xffff, &b""[..])];
        for (i, v, s) in want { let mut w = cat(&[&t6(v), s]); while w.len() < 46 { w.push(b' '); } check(l[i].len() > 57 && l[i][11..57] == w[..], "canonical text of an address in show mode"); }
        cover("end");
    }
}
