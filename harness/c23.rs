//! C23: the modes agree with each other: what one prints, another reads and turns back.
use crate::vf::*;
use crate::vflib::*;
fn spec(v6: bool, a: u128, m: u128) -> Vec<u8> { cat(&[&wr(v6, a), b"/", &match plen(v6, m) { Some(p) => dec(p as u64), None => if v6 { t6(m) } else { t4(m as u32) } }]) }
fn call(mode: &[u8], args: &[&[u8]]) -> Out { let mut a: Vec<&[u8]> = vec![mode]; for x in args { a.push(x); } let o = run(&a); fine(&o); check(worked(&o), "the modes accept each other's networks"); o }
/// the same network, as the program writes it
fn own(n: &[u8]) -> Out { call(b"-m", &[n]) }
/// networks or addresses named in the lines that begin with a label
fn labelled<'a>(v6: bool, o: &'a Out, label: &[u8], from: usize) -> Vec<&'a [u8]> { let w = if v6 { 46 } else { 21 }; let mut r = Vec::new(); for l in lines(&o.out).into_iter().skip(from) { if starts(l, label) && l.len() >= 11 + w { r.push(trim(&l[11..11 + w])); } } r }
fn place(v6: bool, k: u64) -> u128 { match k { 0 => if v6 { 0x9a31_8425_b6c7_d8e9_f1a2_93b4_8500_0000 | (sym8() as u128) << 16 | (sym(0x10, 255) as u128) << 8 | sym8() as u128 } else { 0xc900_0000 | (sym(100, 255) as u128) << 16 | (sym(100, 255) as u128) << 8 | sym(100, 255) as u128 }, 1 => full(v6) - 1, _ => 1 } }
harnesses! {
    vf_h_c23_show {
        // first and last address as shown give the network as a range
        warm();
        let v6 = shard(2) == 1; let b = bits(v6); let p = choose(b as u64) as u32; assume(param(0) < 2 || p as u64 % param(0) == 0 || p < 2 || p + 3 > b);
        let n = spec(v6, place(v6, choose(2)), pmask(v6, p)); note(&n);
        let o = call(&n, &[]); let f = labelled(v6, &o, b"Network:", 0); let l = labelled(v6, &o, b"Broadcast:", 0);
        check(f.len() == 1 && l.len() == 1, "network and broadcast address"); if f.len() != 1 || l.len() != 1 { return; }
        let mut k = 0; while k < f[0].len() && f[0][k] != b'/' { k += 1; }
        let r = call(b"-d", &[&f[0][..k], l[0]]); note(&r.out);
        check(r.out == cat(&[f[0], b"\n"]), "the range from first to last address is the network"); check(r.out == own(&n).out, "the network is written alike");
        // the shown hosts are the others
        if b - p >= 2 { let (h, i) = (labelled(v6, &o, b"HostMin:", 0), labelled(v6, &o, b"HostMax:", 0)); check(h.len() == 1 && i.len() == 1, "hosts"); if h.len() == 1 && i.len() == 1 {
            let r = call(b"-d", &[h[0], i[0]]); let mut a: Vec<Vec<u8>> = vec![cat(&[&f[0][..k], b"/", &dec(b as u64)]), cat(&[l[0], b"/", &dec(b as u64)])]; for x in lines(&r.out) { a.push(x.to_vec()); }
            let a: Vec<&[u8]> = a.iter().map(|x| &x[..]).collect(); if b - p <= 6 { check(call(b"-m", &a).out == own(&n).out, "network, hosts and broadcast address together are the network"); }
        } }
        cover("end");
    }
    vf_h_c23_enumerate {
        // the addresses enumerated are the network
        warm();
        let v6 = shard(2) == 1; let b = bits(v6); let h = shard(param(0)) as u32; let n = spec(v6, place(v6, choose(2)), pmask(v6, b - h)); note(&n);
        let o = call(b"-e", &[&n]); let l = lines(&o.out); check(l.len() == 1 << h, "as many addresses as the network has"); if l.len() == 0 { return; }
        let r = call(b"-d", &[l[0], l[l.len() - 1]]); check(r.out == own(&n).out, "the range of the addresses is the network");
        let a: Vec<Vec<u8>> = l.iter().map(|x| cat(&[x, b"/", &dec(b as u64)])).collect(); let a: Vec<&[u8]> = a.iter().map(|x| &x[..]).collect();
        check(call(b"-m", &a).out == own(&n).out, "the addresses together are the network");
        cover("end");
    }
    vf_h_c23_resize {
        // the subnets together are the network, and the network is the supernet of each
        warm();
        let v6 = shard(2) == 1; let b = bits(v6); let d = 1 + choose(param(0)) as u32; let p = choose((b - d) as u64 + 1) as u32; assume(param(1) < 2 || (p + d) as u64 % param(1) == 0 || p < 2 || p + d + 2 > b);
        let n = spec(v6, place(v6, choose(2)), pmask(v6, p)); note(&n); let q = dec((p + d) as u64);
        let o = call(b"-r", &[&n, &q]); let a = labelled(v6, &o, b"Network:", 6); check(a.len() == 1 << d, "as many subnets as the lengths say"); if a.len() == 0 { return; }
        check(call(b"-m", &a).out == own(&n).out, "the subnets together are the network");
        let k = choose(a.len() as u64) as usize; let s = call(b"-r", &[a[k], &dec(p as u64)]); let t = labelled(v6, &s, b"Network:", 6);
        check(t.len() == 1 && cat(&[t[0], b"\n"]) == own(&n).out, "the network is the supernet of each of its subnets");
        cover("end");
    }
    vf_h_c23_range {
        // a range is already minimal; its networks resized to single addresses are its addresses
        warm();
        let v6 = shard(2) == 1; let x = place(v6, choose(2)); let c = choose(param(0)) as u128; assume(x <= full(v6) - c);
        let o = call(b"-d", &[&wr(v6, x), &wr(v6, x + c)]); let l = lines(&o.out);
        check(call(b"-m", &l).out == o.out, "minimizing a range changes nothing");
        let e = call(b"-e", &l); let a = lines(&e.out); check(a.len() == 1 + c as usize, "as many addresses as the range has");
        for i in 0..a.len() { check(rd(v6, a[i]) == Some(x + i as u128), "the addresses of the range in ascending order"); }
        cover("end");
    }
    vf_h_c23_split {
        // slices and rest together are the network
        warm(); hash(param(1));
        let v6 = shard(2) == 1; let b = bits(v6); let h = 4 + shard(3) as u32; let n = spec(v6, place(v6, choose(2)), pmask(v6, b - h)); note(&n);
        let v: [&[u8]; 5] = [b"2", b"0", b"6", b"5", b"14"]; let k = 1 + choose(param(0)) as usize; let mut args: Vec<&[u8]> = vec![&n]; let mut sum = 0; for _ in 0..k { let c = choose(5) as usize; args.push(v[c]); sum += [4, 2, 8, 8, 16][c]; }
        if sum > 1 << h { cover("no room"); return; }
        let o = call(b"-s", &args); let mut a = labelled(v6, &o, b"Network:", 2); check(a.len() == k, "a slice per request");
        let l = lines(&o.out); let mut u = false; for x in l { if u { a.push(x); } else if x == b"Unused networks:" { u = true; } }
        check(call(b"-m", &a).out == own(&n).out, "slices and unused networks together are the network");
        cover("end");
    }
}
