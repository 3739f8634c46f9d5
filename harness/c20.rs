//! C20: IPv4 and IPv6 never mix within one calculation.
use crate::vf::*;
use crate::vflib::*;
/// an address of the family, partly arbitrary
fn addr(v6: bool) -> Vec<u8> { if v6 { let a = symaddr(true); if choose(2) == 0 { wr(true, a) } else { cat(&[b"::", &[hexd(sym8())]]) } } else { wr(false, symaddr(false)) } }
fn suffix(v6: bool, k: u64) -> Vec<u8> { match (k, v6) { (0, false) => b"/24".to_vec(), (1, false) => b"/255.0.255.0".to_vec(), (2, false) => b"/-0.0.0.255".to_vec(), (0, true) => b"/24".to_vec(), (1, true) => b"/ffff::f0f0".to_vec(), (2, true) => b"/-::ffff".to_vec(), _ => b"/-8".to_vec() } }
fn no(o: &Out) { fine(o); check(refused(o), "a message on standard error, nothing printed, exit status 1"); cover("end"); }
harnesses! {
    vf_h_c20_minimize {
        // two to five networks of both families in every arrangement
        warm();
        let n = 2 + shard(4) as u32; let fam = 1 + shard((1 << n) - 2); // which ones are IPv6: neither none nor all
        let full_ = n <= param(0) as u32;
        let t: Vec<Vec<u8>> = (0..n).map(|i| { let v6 = fam >> i & 1 == 1; if full_ { cat(&[&addr(v6), &suffix(v6, choose(2 + (i as u64 & 1)))]) } else if v6 { cat(&[b"::", &[hexd(sym8())], &suffix(true, i as u64 & 3)]) } else { cat(&[&wr(false, symaddr(false)), &suffix(false, i as u64 & 3)]) } }).collect();
        let mut a: Vec<&[u8]> = vec![if choose(2) == 0 { b"-m" } else { b"--minimize" }]; for x in &t { note(x); a.push(x); }
        no(&run(&a));
    }
    vf_h_c20_odd {
        // two to four networks, the first of the second family with any prefix length or an arbitrary mask
        warm();
        let n = 2 + shard(3) as usize; let k = 1 + choose(n as u64 - 1) as usize; let v6 = choose(2) == 1; let b = bits(v6) as u64;
        let odd = if shard(2) == 0 { let p = conc(sym(0, b)); cat(&[&addr(v6), if choose(2) == 0 { b"/" } else { b"/-" }, &dec(p)]) } else { cat(&[&addr(v6), b"/", &wr(v6, symaddr(v6))]) };
        let s = choose(4);
        let t: Vec<Vec<u8>> = (0..n).map(|i| if i == k { odd.clone() } else { let f = if i < k { !v6 } else { i & 1 == 0 }; let g: &[u8] = if f { b"1:2::4" } else { b"1.2.3.4" }; cat(&[g, &suffix(f, s + i as u64 & 3)]) }).collect();
        let mut a: Vec<&[u8]> = vec![b"-m"]; for x in &t { note(x); a.push(x); }
        no(&run(&a));
    }
    vf_h_c20_many {
        // many networks, one or two of them of the other family, at any place
        warm();
        let n = [6usize, 9, 17, 33][choose(param(0)) as usize]; let v6 = shard(2) == 1; let k = 1 + shard(n as u64 - 1) as usize; let k2 = match choose(3) { 0 => k, 1 => n - 1, _ => n / 2 };
        let x = sym(100, 255) as u128;
        let t: Vec<Vec<u8>> = (0..n).map(|i| { let f = v6 != (i == k || i == k2); cat(&[&wr(f, if f { 0x9a31_8425_b6c7_d8e9_f1a2_93b4_0000_1000 | x << 32 | i as u128 } else { x << 24 | 0x10_0000 | i as u128 }), if f { b"/128" } else { b"/32" }]) }).collect();
        let mut a: Vec<&[u8]> = vec![b"--minimize"]; for y in &t { note(y); a.push(y); }
        no(&run(&a));
    }
    vf_h_c20_derange {
        let f = choose(2) == 1; let (a, b) = (addr(f), addr(!f)); note(&a); note(&b);
        no(&run(&[if choose(2) == 0 { b"-d" } else { b"--derange" }, &a, &b]));
    }
    vf_h_c20_resize {
        // a mask of the other family, of any shape
        warm();
        let v6 = shard(2) == 1; let sf = if shard(2) == 0 { suffix(v6, choose(4)) } else { cat(&[b"/", &dec(choose(bits(v6) as u64 + 1))]) }; let t = cat(&[&addr(v6), &sf]);
        let k = choose(4);
        let m = if v6 { match k { 0 => b"255.255.255.0".to_vec(), 1 => wr(false, sym32() as u128), 2 => b"0.0.0.0".to_vec(), _ => b"255.255.255.255".to_vec() } }
            else { match k { 0 => b"ffff:ffff::".to_vec(), 1 => wr(true, symaddr(true)), 2 => b"::".to_vec(), _ => cat(&[b"::", &[hexd(sym8()), hexd(sym8())]]) } };
        note(&t); note(&m);
        no(&run(&[if choose(2) == 0 { b"-r" } else { b"--resize" }, &t, &m]));
    }
    vf_h_c20_prefix {
        // a bare prefix length is judged by the family of the network
        warm();
        let v6 = shard(2) == 1; let b = bits(v6); let w = 1 + choose(4);
        let mut d: Vec<u8> = Vec::new(); for _ in 0..w { d.push(b'0' + sym(0, 9) as u8); }
        let t = if v6 { b"9a31:8425:b6c7:d8e9:f1a2:93b4:85c6:a7d8/128".to_vec() } else { b"201.202.203.204/32".to_vec() };
        note(&t); note(&d);
        let o = run(&[b"-r", &t, &d]); fine(&o);
        let n = num(&d).unwrap();
        if n > b as u64 { check(refused(&o), "a prefix length beyond the address width is refused"); cover("refused"); }
        else {
            check(worked(&o), "a prefix length within the address width is accepted");
            let l = lines(&o.out); let p = conc(n) as u32; let a = if v6 { 0x9a31_8425_b6c7_d8e9_f1a2_93b4_85c6_a7d8u128 } else { 0xc9cacbcc };
            let title: &[u8] = if p == b { b"Same-sized net:" } else { b"Supernet:" };
            let k = describe(v6, &l, 1, None, a, full(v6), 8);
            check(l.len() > k + 2 && l[k + 1] == title, "the case that applies"); if l.len() <= k + 2 { return; }
            describe(v6, &l, k + 2, None, a & pmask(v6, p), pmask(v6, p), 8); cover("accepted");
        }
        cover("end");
    }
}
