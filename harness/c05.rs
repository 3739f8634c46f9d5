//! C05: the binary column and the class label agree with the address, in show, split and resize output.
use crate::vf::*;
use crate::vflib::*;
use crate::c04::{show, nearaddr, spec};
/// judges the bit columns of every description in split or resize output: blocks introduced by a title line
fn blocks(v6: bool, o: &Out, m: u128, new: u128) {
    let l = lines(&o.out); let mut k = 0; let mut n = 0;
    let w = if v6 { 46 } else { 21 };
    while k < l.len() {
        let t = l[k];
        if t == b"Unused networks:" { break; }
        check(t.len() > 0 && t[t.len() - 1] == b':', "a title");
        if k + 1 >= l.len() { break; }
        // the network is the one stated in the description itself
        let h = l[k + 1]; check(h.len() > 11 + w, "a description after the title"); if h.len() <= 11 + w { break; }
        let f = trim(&h[11..11 + w]); let mut e = 0; while e < f.len() && f[e] != b'/' { e += 1; }
        let a = match rd(v6, &f[..e]) { Some(a) => a, None => { check(false, "an address"); 0 } };
        let mm = if n == 0 { m } else { new };
        k = describe(v6, &l, k + 1, None, a, mm, 6); n += 1;
        check(k < l.len() && l[k].is_empty(), "an empty line after the description"); k += 1;
    }
    check(n >= 2, "descriptions"); cover("end");
}
harnesses! {
    vf_h_c05_class {
        // first octet and first mask octet of any value; 255 or 0 in the rest of the mask
        warm(); let mb = shard(256) as u128; let rest = [0, 0xffff00, 0xff0000][choose(3) as usize]; let m = mb << 24 | rest;
        let a = (sym8() as u128) << 24 | (sym(100, 255) as u128) << 16 | (sym(100, 255) as u128) << 8 | sym(100, 255) as u128;
        if param(0) > 1 { assume((mb + mb / param(0) as u128 + rest / 0xff00) % param(0) as u128 == 0 || mb % 16 == 0 && mb >= 0x80 || mb == 0); }
        show(false, a, m, 6);
    }
    vf_h_c05_v4 { warm(); let m = winmask(false, 2, param(0)); let a = symaddr(false); show(false, a, m, 6); }
    vf_h_c05_v6 { warm(); let m = winmask(true, 2, param(0)); let a = nearaddr(true, m); show(true, a, m, 6); }
    vf_h_c05_v6p { warm(); let p = shard(129) as u32; let a = symaddr(true); show(true, a, pmask(true, p), 6); }
    vf_h_c05_resize {
        warm();
        let v6 = shard(2) == 1; let b = bits(v6); let kind = choose(6);
        let hi = |p: u32| pmask(v6, p);
        let (m, n) = match kind { 0 => (hi(b - 9), hi(b - 6)), 1 => (hi(b / 4), hi(3)), 2 => (hi(b - 8), hi(b - 8)), 3 => (hi(b - 16) | 0xff, hi(b - 8)), 4 => (hi(b - 9), hi(b - 9) & !1 | 7), _ => (hi(5), hi(8)) };
        let a = symaddr(v6); let t = spec(v6, a, m); note(&t);
        let u = match plen(v6, n) { Some(p) => dec(p as u64), None => wr(v6, n) }; note(&u);
        let o = run(&[b"-r", &t, &u]);
        check(worked(&o), "resized");
        blocks(v6, &o, m, n);
    }
    vf_h_c05_split {
        warm();
        let v6 = shard(2) == 1; let b = bits(v6); let k = [(0, 62u64), (9, 62), (1, 200)][choose(3) as usize];
        let m = pmask(v6, b - 9 - k.0); let n = pmask(v6, b - (if k.1 == 62 { 6 } else { 8 }));
        let a = symaddr(v6); let t = spec(v6, a, m); note(&t);
        let d = dec(k.1); let o = run(&[b"-s", &t, &d, &d]);
        check(worked(&o), "split");
        blocks(v6, &o, m, n);
    }
}
