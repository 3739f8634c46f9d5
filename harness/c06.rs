//! C06, C07: minimize keeps exactly the given addresses, in the shortest ascending list (through the command line).
use crate::vf::*;
use crate::vflib::*;
pub type Net = (u128, u128);
pub fn has(n: Net, x: u128) -> bool { x & n.1 == n.0 }
pub fn any_has(l: &[Net], x: u128) -> bool { let mut r = false; for n in l { r |= has(*n, x); } r }
pub fn parsed(v6: bool, o: &Out) -> Vec<Net> {
    fine(o); check(worked(o), "the networks are accepted");
    let mut r = Vec::new();
    for l in lines(&o.out) { match netm(v6, l) { Some(n) => { check(n.0 & !n.1 == 0, "a printed network has no host bits"); r.push(n) }, None => check(false, "every line is a network") } }
    r
}
/// what the list of networks must satisfy in itself
pub fn shortest(v6: bool, l: &[Net]) {
    if !judged(7) { return; }
    for i in 0..l.len() { for j in i + 1..l.len() {
        check(l[i] < l[j], "ascending order");
        check(!((l[j].0 & l[i].1 == l[i].0) & (l[i].1 & l[j].1 == l[i].1)) & !((l[i].0 & l[j].1 == l[j].0) & (l[i].1 & l[j].1 == l[j].1)), "no printed network is contained in another");
        if l[i].1 == l[j].1 { check(l[i].0 ^ l[j].0 != low(l[i].1), "no two printed networks can be joined"); }
    } }
    let _ = v6;
}
/// the networks to minimize: symbolic in a few places
fn nets(v6: bool, n: usize, shape: u64) -> Vec<Net> {
    let b = bits(v6); let base = if v6 { 0xfd12_3456_789a_bcde_f123_4567_89ab_0000u128 } else { 0xc8c8_0000 };
    (0..n).map(|_| {
        // third-last octet pair symbolic, prefix lengths around it
        let v = match shape { 0 => (sym(100, 255) as u128) << 8, 1 => sym(0, 15) as u128 | if v6 { 0x6300 } else { 0x6400 }, _ => (sym(0, 3) as u128) << 14 | sym(0, 3) as u128 };
        let m = match shape { 0 => pmask(v6, b - 7 - choose(3) as u32), 1 => pmask(v6, b - choose(3) as u32), _ => if choose(2) == 0 { full(v6) & !0xff } else { full(v6) & !0xff00 } };
        ((base | v) & if v6 && shape == 0 { !0 } else { !0 }, m)
    }).collect()
}
fn call(v6: bool, l: &[Net]) -> Out {
    let t: Vec<Vec<u8>> = l.iter().map(|&(a, m)| { let p = plen(v6, m); cat(&[&wr(v6, a), b"/", &match p { Some(p) => dec(p as u64), None => if v6 { t6(m) } else { t4(m as u32) } }]) }).collect();
    let mut args: Vec<&[u8]> = vec![b"-m"]; for x in &t { note(x); args.push(x); }
    run(&args)
}
harnesses! {
    vf_h_c06_many {
        // many neighbouring networks in several orders, one of them missing, doubled or with its neighbour instead
        warm();
        hash(param(1));
        let v6 = shard(2) == 1; let b = bits(v6); let n = param(0) as usize; let lg = { let mut k = 0; while 1 << k < n { k += 1; } k } as u32;
        let z = [0u32, 1, 5][shard(3) as usize]; let at = choose(n as u64) as usize; let k = shard(4); let what = choose(4); assume(what != 0 || at == 0); assume(param(2) < 2 || (at as u64 + k + z as u64) % param(2) == 0);
        let base = if v6 { 0xfd12_3456_789a_bcde_f123_4567_89ab_0000u128 } else { 0xc8c8_0000 } | (sym(100, 255) as u128) << 8 & !((1 << z + lg) - 1);
        let mut l: Vec<Net> = Vec::new();
        for i in 0..n {
            let j = match k { 0 => i, 1 => n - 1 - i, 2 => i * 5 % n, _ => { let mut r = 0; for t in 0..lg { r |= (i >> t & 1) << (lg - 1 - t); } r } };
            let m = pmask(v6, b - z);
            if j == at && what == 1 { continue; }
            if j == at && what == 2 { l.push((base | (j as u128) << z, pmask(v6, b - z - 1))); }
            l.push((base | (j as u128) << z, if j == at && what == 3 { pmask(v6, b - z - 2) } else { m }));
        }
        let o = call(v6, &l); let r = parsed(v6, &o);
        let x = if v6 { sym128() } else { sym32() as u128 };
        let want: Vec<Net> = l.iter().map(|&(a, m)| (a & m, m)).collect();
        if judged(6) { check(any_has(&want, x) == any_has(&r, x), "exactly the given addresses"); }
        shortest(v6, &r);
        cover("end");
    }
    vf_h_c06_mix {
        // lists of many networks of different sizes, nested, repeated and next to each other, some with masks with holes
        warm(); hash(param(1));
        let v6 = shard(2) == 1; let b = bits(v6); let c = shard(param(0)); let mut r = c.wrapping_mul(0x9e37_79b9_7f4a_7c15).wrapping_add(12345);
        let mut rnd = |n: u64| { r = r.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (r >> 33) % n };
        let span = 5 + rnd(4) as u32; let n = 8 + rnd(17); let big = rnd(3) as u32; let at = rnd(3);
        let base = match at { 0 => full(v6) & !((1 << span) - 1), 1 => 0, _ => (if v6 { 0xfd12_3456_789a_bcde_f123_4567_0000_0000u128 } else { 0 }) | (sym(100, 255) as u128) << 24 };
        let mut l: Vec<Net> = Vec::new();
        for _ in 0..n {
            let a = base | rnd(1 << span) as u128; let z = rnd(2 + 2 * big as u64) as u32;
            let m = if rnd(9) == 0 { full(v6) & !(rnd(1 << span) as u128 & 0x2d5) } else { pmask(v6, b - z) };
            l.push((a, m)); if rnd(5) == 0 { l.push((a ^ 1 << z, m)); }
        }
        let o = call(v6, &l); let g = parsed(v6, &o);
        let x = if v6 { sym128() } else { sym32() as u128 };
        let want: Vec<Net> = l.iter().map(|&(a, m)| (a & m, m)).collect();
        if judged(6) { check(any_has(&want, x) == any_has(&g, x), "exactly the given addresses"); }
        shortest(v6, &g);
        cover("end");
    }
    vf_h_c06_crowd {
        // very many networks: apart, a few of them next to each other, or the same few again and again
        warm(); hash(param(1));
        let v6 = shard(2) == 1; let b = bits(v6); let n = [70u64, 140, 280][shard(param(0)) as usize]; let k = choose(3);
        let base = (if v6 { 0xfd12_3456_789a_bcde_f123_4567_0000_0000u128 } else { 0 }) | (sym(100, 255) as u128) << 24;
        let at = |i: u64| base | ((i * 89 % n) << 2 | (i * 89 % n) & 1) as u128; // n and 89 have no common factor
        let l: Vec<Net> = (0..n).flat_map(|i| {
            let a = (if k == 2 { at(i % 3) } else { at(i) }, pmask(v6, b));
            if k == 1 && (i == 0 || i == n / 2 || i + 1 == n) { vec![a, (a.0 ^ 1, a.1)] } else { vec![a] }
        }).collect();
        let o = call(v6, &l); let g = parsed(v6, &o);
        let x = if v6 { sym128() } else { sym32() as u128 };
        if judged(6) { check(any_has(&l, x) == any_has(&g, x), "exactly the given addresses"); }
        shortest(v6, &g);
        cover("end");
    }
    vf_h_c06_cli {
        warm();
        hash(param(2));
        let v6 = shard(2) == 1; let l = nets(v6, param(0) as usize, param(1));
        let o = call(v6, &l);
        let r = parsed(v6, &o);
        let x = if v6 { sym128() } else { sym32() as u128 };
        let want: Vec<Net> = l.iter().map(|&(a, m)| (a & m, m)).collect();
        if judged(6) { check(any_has(&want, x) == any_has(&r, x), "exactly the given addresses"); }
        shortest(v6, &r);
        cover("end");
    }
    vf_h_c06_cli_lengths {
        // every prefix length: two or three networks next to each other, apart, one in the other, of different sizes
        warm();
        let v6 = shard(2) == 1; let b = bits(v6); let p = shard(b as u64) as u32 + 1; let k = choose(6);
        let a = if v6 { 0x9a31_8425_b6c7_d8e9_f1a2_93b4_85c6_a700 | sym(0x10, 255) as u128 } else { 0xd6a7_cb00 | sym(100, 255) as u128 };
        let one = 1u128 << (b - p); let m = pmask(v6, p); let m1 = pmask(v6, if p < b { p + 1 } else { p });
        let l: Vec<Net> = match k { 0 => vec![(a, m), (a ^ one, m)], 1 => vec![(a ^ one, m), (a ^ if p > 1 { one << 1 } else { 0 }, m)], 2 => vec![(a, m1), (a ^ one, m)], 3 => vec![(a, m1), (a ^ one, m), (a ^ one >> 1, m1)], 4 => vec![(a, pmask(v6, p - 1)), (a ^ one, m)], _ => vec![(a, m), (a ^ if p > 1 { one << 1 } else { one }, m), (a ^ one, m)] };
        let o = call(v6, &l); let r = parsed(v6, &o);
        let x = if v6 { sym128() } else { sym32() as u128 };
        let want: Vec<Net> = l.iter().map(|&(a, m)| (a & m, m)).collect();
        if judged(6) { check(any_has(&want, x) == any_has(&r, x), "exactly the given addresses"); }
        shortest(v6, &r);
        cover("end");
    }
    vf_h_c06_ends {
        // networks at both ends of the address space, and all of it
        warm();
        let v6 = shard(2) == 1; let b = bits(v6); let f = full(v6);
        let p1 = 1 + choose(3) as u32; let p2 = choose(4) as u32; let p3 = b - choose(3) as u32;
        let l = [(f & pmask(v6, p1), pmask(v6, p1)), (if choose(2) == 0 { 0 } else { f } & pmask(v6, p2), pmask(v6, p2)), (f - choose(2) as u128 * 3, pmask(v6, p3))];
        let o = call(v6, &l); let r = parsed(v6, &o);
        let x = if v6 { sym128() } else { sym32() as u128 };
        let want: Vec<Net> = l.iter().map(|&(a, m)| (a & m, m)).collect();
        if judged(6) { check(any_has(&want, x) == any_has(&r, x), "exactly the given addresses"); }
        shortest(v6, &r);
        cover("end");
    }
    vf_h_c07_order {
        // another order, repeated arguments, the output given back: the same output
        warm();
        let v6 = shard(2) == 1; let l = nets(v6, 3, param(0));
        hash(1); let o = call(v6, &l); let r = parsed(v6, &o); shortest(v6, &r);
        hash(5);
        let (p, l2) = match choose(6) { 0 => (true, vec![l[1], l[0], l[2]]), 1 => (true, vec![l[2], l[1], l[0]]), 2 => (true, vec![l[1], l[2], l[0]]), 3 => (true, vec![l[2], l[0], l[1], l[0], l[2]]), 4 => (true, vec![l[0], l[2], l[1], l[1]]), _ => (false, r.clone()) };
        let o2 = call(v6, &l2);
        check(o2.out == o.out && worked(&o2), if p { "order and repetition of the arguments do not matter" } else { "minimizing the output changes nothing" });
        cover("end");
    }
}
