//! Interface between the harnesses and whoever runs them: the symbolic engine, or a native replay.
#![allow(dead_code)]

extern "C" {
    fn __vf_sym(lo: u64, hi: u64) -> u64;
    fn __vf_choose(n: u64) -> u64;
    fn __vf_shard(n: u64) -> u64;
    fn __vf_assume(c: u32);
    fn __vf_check(c: u32, m: *const u8, n: u64);
    fn __vf_cover(m: *const u8, n: u64);
    fn __vf_note(m: *const u8, n: u64);
    fn __vf_conc(v: u64) -> u64;
    fn __vf_engine() -> i32;
    fn __vf_param(k: u64) -> u64;
    fn __vf_hash(k: u64);
    fn __vf_head(n: u64);
    fn __vf_colour(value: *const u8);
    fn __vf_run(f: fn(), argc: u64, argv: *const *const u8, res: *mut Res);
    fn __vf_catch(f: extern "C" fn(*mut u8), data: *mut u8) -> i32;
    fn __vf_replay_name() -> *const u8;
}
#[repr(C)]
struct Res { code: u64, panicked: u64, out: *const u8, outlen: u64, err: *const u8, errlen: u64 }

/// A value that may be anything in lo..=hi.
pub fn sym(lo: u64, hi: u64) -> u64 { unsafe { __vf_sym(lo, hi) } }
pub fn sym8() -> u8 { sym(0, 255) as u8 }
pub fn sym16() -> u16 { let h = sym8() as u16; h << 8 | sym8() as u16 }
pub fn sym32() -> u32 { let mut r = 0u32; for _ in 0..4 { r = r << 8 | sym8() as u32; } r }
pub fn sym64() -> u64 { let h = sym32() as u64; h << 32 | sym32() as u64 }
pub fn sym128() -> u128 { let h = sym64() as u128; h << 64 | sym64() as u128 }
pub fn symbool() -> bool { sym(0, 1) != 0 }
/// Case distinction: every value in 0..n is explored as a separate concrete case.
pub fn choose(n: u64) -> u64 { unsafe { __vf_choose(n) } }
/// Like choose, but the cases may be divided among several engine processes.
pub fn shard(n: u64) -> u64 { unsafe { __vf_shard(n) } }
pub fn assume(c: bool) { unsafe { __vf_assume(c as u32) } }
pub fn check(c: bool, m: &str) { unsafe { __vf_check(c as u32, m.as_ptr(), m.len() as u64) } }
pub fn cover(m: &str) { unsafe { __vf_cover(m.as_ptr(), m.len() as u64) } }
pub fn note(m: &[u8]) { unsafe { __vf_note(m.as_ptr(), m.len() as u64) } }
/// Fixes a symbolic value on each path (forks over all its possible values).
pub fn conc(v: u64) -> u64 { unsafe { __vf_conc(v) } }
pub fn engine() -> bool { unsafe { __vf_engine() != 0 } }
pub fn param(k: u64) -> u64 { unsafe { __vf_param(k) } }
/// Is property n among those that are judged in this run? (Several properties can share a harness.)
pub fn judged(n: u64) -> bool { let p = param(15); p == 0 || p == n }
pub fn hash(k: u64) { unsafe { __vf_hash(k) } }

/// Only the first n bytes of the next run's output are read; then the program ends (status 141). A run that needs very
/// many steps to print them is outside the bounds.
pub fn head(n: u64) { unsafe { __vf_head(n) } }

/// Do the following runs of the program print in colour (as they do on a terminal)?
pub fn colour(on: bool) { unsafe { __vf_colour(if on { b"1\0".as_ptr() } else { std::ptr::null() }) } }

pub struct Out { pub code: i32, pub panicked: bool, pub out: Vec<u8>, pub err: Vec<u8> }

/// Runs the whole program with the given arguments (the program name is added).
pub fn run(args: &[&[u8]]) -> Out {
    let mut store: Vec<Vec<u8>> = vec![b"ripcalc\0".to_vec()];
    for a in args { let mut v = a.to_vec(); v.push(0); store.push(v); }
    let mut ptrs: Vec<*const u8> = store.iter().map(|v| v.as_ptr()).collect();
    ptrs.push(std::ptr::null());
    let mut r = Res { code: 0, panicked: 0, out: std::ptr::null(), outlen: 0, err: std::ptr::null(), errlen: 0 };
    unsafe { __vf_run(crate::main as fn(), store.len() as u64, ptrs.as_ptr(), &mut r); }
    let get = |p: *const u8, n: u64| if n == 0 { Vec::new() } else { unsafe { std::slice::from_raw_parts(p, n as usize) }.to_vec() };
    Out { code: r.code as i32, panicked: r.panicked != 0, out: get(r.out, r.outlen), err: get(r.err, r.errlen) }
}

/// Calls f; returns None if it panicked.
pub fn catch<T, F: FnOnce() -> T>(f: F) -> Option<T> {
    if !engine() {
        return std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok();
    }
    struct D<T, F> { f: Option<F>, r: Option<T> }
    extern "C" fn tramp<T, F: FnOnce() -> T>(p: *mut u8) {
        let d = unsafe { &mut *(p as *mut D<T, F>) };
        let f = d.f.take().unwrap();
        d.r = Some(f());
    }
    let mut d: D<T, F> = D { f: Some(f), r: None };
    let p = unsafe { __vf_catch(tramp::<T, F>, &mut d as *mut D<T, F> as *mut u8) };
    if p != 0 { None } else { d.r }
}

/// Native entry: when a replay is requested, run the named harness instead of the program.
pub type Entry = (&'static str, extern "C" fn());
pub fn native(tables: &[&[Entry]]) {
    let p = unsafe { __vf_replay_name() };
    if p.is_null() { return; }
    let name = unsafe { std::ffi::CStr::from_ptr(p as *const std::ffi::c_char) }.to_str().unwrap().to_string();
    for t in tables { for (n, f) in t.iter() { if *n == name { f(); std::process::exit(0); } } }
    eprintln!("no such harness: {}", name);
    std::process::exit(46);
}

#[macro_export]
macro_rules! harnesses {
    ($($name:ident $body:block)*) => {
        $( #[no_mangle] pub extern "C" fn $name() $body )*
        pub static TABLE: &[crate::vf::Entry] = &[ $( (stringify!($name), $name as extern "C" fn()) ),* ];
    };
}
