use crate::vf::*;
use crate::vflib::*;
harnesses! {
    vf_h_t_show {
        let o = run(&[b"192.168.1.77/27"]);
        note(&o.out); note(&o.err); check(o.code == 0, "code");
    }
    vf_h_t_derange {
        let a = sym32(); let b = sym32();
        assume(b >= a && b - a < 8);
        let o = run(&[b"-d", &v4(a), &v4(b)]);
        check(o.code == 0 && !o.panicked, "code");
        let l = lines(&o.out);
        let mut next = a as u64;
        for x in l { let k = x.iter().position(|c| *c == b'/').unwrap(); let base = p4(&x[..k]); let p = cnum(&x[k+1..]).unwrap(); check(base.is_some(), "addr"); let base = base.unwrap(); check(base as u64 == next, "contiguous"); next = base as u64 + (1u64 << (32 - p)); }
        check(next == b as u64 + 1, "end");
        cover("end");
    }
}
