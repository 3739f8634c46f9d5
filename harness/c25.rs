//! C25: the mode is chosen by the first argument alone, by either of its names.
use crate::vf::*;
use crate::vflib::*;
fn name(mode: u64, long: bool) -> &'static [u8] { match (mode, long) { (0, false) => b"-m", (0, true) => b"--minimize", (1, false) => b"-d", (1, true) => b"--derange", (2, false) => b"-s", (2, true) => b"--split", (3, false) => b"-r", (3, true) => b"--resize", (4, false) => b"-e", (4, true) => b"--enumerate", (5, _) => b"--help", _ => b"--color-test" } }
fn names(t: &[u8]) -> bool { for m in 0..7 { if t == name(m, false) || t == name(m, true) { return true; } } false }
/// n arguments for a mode, the first partly arbitrary
fn args(mode: u64, v6: bool) -> Vec<Vec<u8>> {
    let a = if v6 { 0x9a31_8425_b6c7_d8e9_f1a2_93b4_8500_0000u128 | (sym(0x10, 255) as u128) << 8 | sym8() as u128 } else { 0xc9c8_0000 | (sym(100, 255) as u128) << 8 | sym(100, 255) as u128 };
    let b = bits(v6); let n = cat(&[&wr(v6, a), b"/", &dec(b as u64 - 2)]); let other: &[u8] = if v6 { b"7::/126" } else { b"7.8.9.0/30" };
    match mode { 0 | 4 | 5 => vec![n, other.to_vec()], 1 => vec![wr(v6, a), wr(v6, a ^ 3)], 2 => vec![n, b"2".to_vec()], _ => vec![n, dec(b as u64 - 1)] }
}
fn with<'a>(first: &'a [u8], a: &'a [Vec<u8>]) -> Vec<&'a [u8]> { let mut r = vec![first]; for x in a { r.push(x); } r }
harnesses! {
    vf_h_c25_names {
        // both names of a mode do the same, and what the mode is for
        warm();
        let mode = shard(5); let v6 = shard(2) == 1; let a = args(mode, v6); for x in &a { note(x); }
        let o = run(&with(name(mode, false), &a)); let p = run(&with(name(mode, true), &a)); fine(&o); fine(&p);
        check(worked(&o), "the mode accepts its arguments"); check(o.code == p.code && o.out == p.out && o.err == p.err, "the long name does the same as the short one");
        let l = lines(&o.out); if l.len() == 0 { check(false, "there is output"); return; }
        match mode {
            0 => { check(l.len() == 2, "two networks"); for x in &l { check(netm(v6, x).is_some(), "--minimize prints networks"); } },
            1 => { check(l.len() <= 3, "the range has up to four addresses"); for x in &l { check(netm(v6, x).is_some(), "--derange prints networks"); } },
            2 => { check(starts(l[0], b"Subnet to split") && contains(&o.out, b"Subnet for 2 hosts"), "--split prints the network and the slices"); },
            3 => { check(starts(l[0], b"Original network") && contains(&o.out, b"Subnet 2:"), "--resize prints the network and the subnets"); },
            _ => { check(l.len() == 8, "eight addresses"); for x in &l { check(rd(v6, x).is_some(), "--enumerate prints addresses"); } },
        }
        cover("end");
    }
    vf_h_c25_edit {
        // nothing else is a name of a mode
        warm();
        let mode = shard(7); let long = shard(2) == 1; if mode > 4 && !long { return; }
        let v6 = choose(2) == 1; let mut t = edit1(name(mode, long), false); if param(0) > 0 { let k = t.len() - choose(t.len() as u64 + 1) as usize; if choose(2) == 0 { t.insert(k, sym(1, 127) as u8); } else { assume(k < t.len()); t[k] = sym(1, 127) as u8; } } assume(!names(&t)); for c in &t { assume(*c != 0); } note(&t);
        let a = args(mode, v6); let o = if choose(2) == 0 { run(&with(&t, &a)) } else { run(&[&t]) }; fine(&o);
        check(refused(&o), "what is neither a name nor a network is refused");
        cover("end");
    }
    vf_h_c25_place {
        // names of modes mean nothing behind the first argument
        warm();
        let mode = shard(6); let v6 = choose(2) == 1; let a = args(mode, v6); let at = 1 + choose(2) as usize; let w = name(choose(7), choose(2) == 1);
        let mut r: Vec<&[u8]> = if mode == 5 { Vec::new() } else { vec![name(mode, choose(2) == 1)] };
        for (i, x) in a.iter().enumerate() { if mode == 5 && i == at { r.push(w); } else if mode != 5 && i + 1 == at { r.push(w); } else { r.push(x); } }
        if mode == 5 && at == 2 { r.push(w); }
        for x in &r { note(x); }
        let o = run(&r); fine(&o);
        check(o.code == 1 && !o.err.is_empty(), "an option is no network, address, mask or number");
        if mode != 4 { check(o.out.is_empty(), "nothing is printed"); } else { check(lines(&o.out).len() == 4, "the other network is enumerated"); }
        cover("end");
    }
}
