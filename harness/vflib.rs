//! Text building, text reading and reference arithmetic shared by the harnesses.
//! Written without reference to the program's own code.
#![allow(dead_code)]
use crate::vf::*;

pub fn cat(parts: &[&[u8]]) -> Vec<u8> { let mut r = Vec::with_capacity(64); for p in parts { r.extend_from_slice(p); } r }
/// three decimal digits
pub fn oct3(b: u8) -> [u8; 3] { [b'0' + b / 100, b'0' + b / 10 % 10, b'0' + b % 10] }
/// an IPv4 address with every octet written with three digits (one text shape for all values)
pub fn v4(a: u32) -> Vec<u8> { cat(&[&oct3((a >> 24) as u8), b".", &oct3((a >> 16) as u8), b".", &oct3((a >> 8) as u8), b".", &oct3(a as u8)]) }
pub fn hexd(n: u8) -> u8 { b"0123456789abcdef"[(n & 15) as usize] }
/// an IPv6 address with eight groups of four digits
pub fn v6(a: u128) -> Vec<u8> {
    let mut r = Vec::with_capacity(40);
    for i in 0..8 { if i > 0 { r.push(b':'); } let g = (a >> (112 - 16 * i)) as u16; for k in 0..4 { r.push(hexd((g >> (12 - 4 * k)) as u8)); } }
    r
}
pub fn dec(n: u64) -> Vec<u8> { let mut d = Vec::new(); let mut n = n; loop { d.push(b'0' + (n % 10) as u8); n /= 10; if n == 0 { break; } } d.reverse(); d }
pub fn mask4(p: u32) -> u32 { if p == 0 { 0 } else { u32::MAX << (32 - p) } }
pub fn mask6(p: u32) -> u128 { if p == 0 { 0 } else { u128::MAX << (128 - p) } }

pub fn is_digit(c: u8) -> bool { c >= b'0' && c <= b'9' }
/// decimal number, digits only, no sign; None if empty, malformed or beyond 64 bits
pub fn num(t: &[u8]) -> Option<u64> {
    if t.is_empty() || t.len() > 19 { return None; }
    let mut r: u64 = 0;
    for &c in t { if !is_digit(c) { return None; } r = r * 10 + (c - b'0') as u64; }
    Some(r)
}
/// canonical decimal number: no leading zero
pub fn cnum(t: &[u8]) -> Option<u64> { if t.len() > 1 && t[0] == b'0' { return None; } num(t) }
pub fn splitb(t: &[u8], sep: u8) -> Vec<&[u8]> {
    let mut r = Vec::with_capacity(16); let mut s = 0;
    for i in 0..t.len() { if t[i] == sep { r.push(&t[s..i]); s = i + 1; } }
    r.push(&t[s..]); r
}
/// dotted-quad notation as the program prints it: four canonical decimal numbers up to 255
pub fn p4(t: &[u8]) -> Option<u32> {
    let p = splitb(t, b'.');
    if p.len() != 4 { return None; }
    let mut r = 0u32;
    for x in p { if x.len() > 3 { return None; } let n = cnum(x)?; if n > 255 { return None; } r = r << 8 | n as u32; }
    Some(r)
}
static HEXV: [u8; 256] = { let mut t = [255u8; 256]; let mut i = 0; while i < 16 { t[b"0123456789abcdef"[i] as usize] = i as u8; t[b"0123456789ABCDEF"[i] as usize] = i as u8; i += 1; } t };
fn hexv(c: u8) -> Option<u8> { let r = HEXV[c as usize]; if r == 255 { None } else { Some(r) } }
fn group(t: &[u8]) -> Option<u16> { if t.is_empty() || t.len() > 4 { return None; } let mut r = 0u16; for &c in t { r = r << 4 | hexv(c)? as u16; } Some(r) }
fn groups(t: &[u8]) -> Option<Vec<u16>> { let mut r = Vec::with_capacity(8); if t.is_empty() { return Some(r); } for g in splitb(t, b':') { r.push(group(g)?); } Some(r) }
/// IPv6 text (RFC 4291 section 2.2, forms 1 and 2): "::" stands for one or more zero groups
pub fn p6(t: &[u8]) -> Option<u128> {
    let mut k = None;
    for i in 0..t.len().saturating_sub(1) { if t[i] == b':' && t[i + 1] == b':' { k = Some(i); break; } }
    let gs: Vec<u16> = match k {
        None => { let g = groups(t)?; if g.len() != 8 { return None; } g },
        Some(i) => {
            let a = groups(&t[..i])?; let b = groups(&t[i + 2..])?;
            if a.len() + b.len() > 7 { return None; }
            let mut g = a.clone(); for _ in 0..8 - a.len() - b.len() { g.push(0); } g.extend_from_slice(&b); g
        },
    };
    let mut r = 0u128; for g in gs { r = r << 16 | g as u128; } Some(r)
}
/// text lines; the text must be empty or end with a newline
pub fn lines(t: &[u8]) -> Vec<&[u8]> {
    let mut r = splitb(t, b'\n');
    check(r[r.len() - 1].is_empty(), "output ends with a complete line");
    r.pop(); r
}
pub fn starts(t: &[u8], p: &[u8]) -> bool { t.len() >= p.len() && &t[..p.len()] == p }
pub fn contains(t: &[u8], p: &[u8]) -> bool { if p.len() > t.len() { return false; } for i in 0..=t.len() - p.len() { if &t[i..i + p.len()] == p { return true; } } false }
/// no run of the program may end in a panic or an abnormal exit
pub fn fine(o: &Out) { check(!o.panicked && (o.code == 0 || o.code == 1), "program ends normally"); }
/// the program refused its arguments: a message on standard error, nothing on standard output, exit status 1
pub fn refused(o: &Out) -> bool { !o.panicked && o.code == 1 && o.out.is_empty() && !o.err.is_empty() }
/// the program did its work: exit status 0 and nothing on standard error
pub fn worked(o: &Out) -> bool { !o.panicked && o.code == 0 && o.err.is_empty() }
/// position of the only occurrence of a byte
pub fn only(t: &[u8], c: u8) -> Option<usize> { let mut r = None; for i in 0..t.len() { if t[i] == c { if r.is_some() { return None; } r = Some(i); } } r }
/// "ADDRESS/PREFIX"
pub fn net4(t: &[u8]) -> Option<(u32, u32)> { let k = only(t, b'/')?; let p = cnum(&t[k + 1..])?; if p > 32 { return None; } Some((p4(&t[..k])?, p as u32)) }
pub fn net6(t: &[u8]) -> Option<(u128, u32)> { let k = only(t, b'/')?; let p = cnum(&t[k + 1..])?; if p > 128 { return None; } Some((p6(&t[..k])?, p as u32)) }
/// IPv4 address text as it may be given: four decimal numbers up to 255, digits only, any number of leading zeros
pub fn r4(t: &[u8]) -> Option<u32> {
    let p = splitb(t, b'.');
    if p.len() != 4 { return None; }
    let mut r = 0u32;
    for x in p { if x.is_empty() { return None; } let mut n = 0u32; for &c in x { if !is_digit(c) { return None; } n = n * 10 + (c - b'0') as u32; if n > 255 { return None; } } r = r << 8 | n; }
    Some(r)
}
static HEX22: [u8; 22] = *b"0123456789abcdefABCDEF";
static HEX22V: [u8; 22] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 10, 11, 12, 13, 14, 15];
/// an arbitrary hexadecimal digit and its value
pub fn symhex() -> (u8, u8) { let i = sym(0, 21) as usize; (HEX22[i], HEX22V[i]) }
/// IPv6 text in the program's canonical form: lower case, no leading zeros, the leftmost longest run of zero groups as "::"
pub fn t6(a: u128) -> Vec<u8> {
    let g: Vec<u16> = (0..8).map(|i| (a >> (112 - 16 * i)) as u16).collect();
    let (mut at, mut len) = (9, 0); let mut i = 0;
    while i < 8 { if g[i] == 0 { let mut j = i; while j < 8 && g[j] == 0 { j += 1; } if j - i > len { at = i; len = j - i; } i = j; } else { i += 1; } }
    let mut r = Vec::with_capacity(40); let mut i = 0;
    while i < 8 {
        if i == at { r.extend_from_slice(b"::"); i += len; continue; }
        if i > 0 && i != at + len { r.push(b':'); }
        let n = if g[i] >= 0x1000 { 4 } else if g[i] >= 0x100 { 3 } else if g[i] >= 0x10 { 2 } else { 1 };
        for k in (0..n).rev() { r.push(hexd((g[i] >> (4 * k)) as u8)); }
        i += 1;
    }
    r
}
/// canonical dotted-decimal text
pub fn t4(a: u32) -> Vec<u8> { let mut r = Vec::with_capacity(16); for i in 0..4 { if i > 0 { r.push(b'.'); } let b = (a >> (24 - 8 * i)) as u8; let o = oct3(b); r.extend_from_slice(&o[if b >= 100 { 0 } else if b >= 10 { 1 } else { 2 }..]); } r }
/// an IPv6 address: zero groups as in `zeros`, one group (`wide`) any nonzero value, the others four-digit values
pub fn sym6(zeros: u64, wide: usize) -> u128 {
    let mut r = 0u128;
    for i in 0..8 {
        let v = if zeros >> i & 1 == 1 { 0 } else if i == wide { let v = sym16(); assume(v != 0); v } else { let v = sym16(); assume(v >= 0x1000); v };
        r = r << 16 | v as u128;
    }
    r
}

// ---- the two families alike: addresses as integers of 32 or 128 bits
pub fn bits(v6: bool) -> u32 { if v6 { 128 } else { 32 } }
pub fn full(v6: bool) -> u128 { if v6 { u128::MAX } else { u32::MAX as u128 } }
/// mask with p leading ones
pub fn pmask(v6: bool, p: u32) -> u128 { if p == 0 { 0 } else { (u128::MAX << (bits(v6) - p)) & full(v6) } }
/// prefix length of a mask, if it is a prefix mask
pub fn plen(v6: bool, m: u128) -> Option<u32> { for p in 0..=bits(v6) { if pmask(v6, p) == m { return Some(p); } } None }
/// number of zeros of a mask
pub fn zeros(v6: bool, m: u128) -> u32 { let mut z = 0; for i in 0..bits(v6) { if m >> i & 1 == 0 { z += 1; } } z }
/// address text as the program prints it
pub fn rd(v6: bool, t: &[u8]) -> Option<u128> { if v6 { p6(t) } else { p4(t).map(|x| x as u128) } }
/// address text to be given to the program: same shape for all values (three digits, four digits)
pub fn wr(v6: bool, a: u128) -> Vec<u8> { if v6 { v6t(a) } else { v4(a as u32) } }
fn v6t(a: u128) -> Vec<u8> { v6(a) }
pub fn dec128(n: u128) -> Vec<u8> { let mut d = Vec::new(); let mut n = n; loop { d.push(b'0' + (n % 10) as u8); n /= 10; if n == 0 { break; } } d.reverse(); d }
/// the bits of an address in groups
pub fn bin(v6: bool, a: u128) -> Vec<u8> {
    let n = bits(v6); let g = if v6 { 16 } else { 8 }; let mut r = Vec::with_capacity(140);
    for i in 0..n { if i > 0 && i % g == 0 { r.push(if v6 { b':' } else { b'.' }); } r.push(b'0' + (a >> (n - 1 - i) & 1) as u8); }
    r
}
pub fn trim(t: &[u8]) -> &[u8] { let mut n = t.len(); while n > 0 && t[n - 1] == b' ' { n -= 1; } &t[..n] }
/// lowest one bit
pub fn low(x: u128) -> u128 { x & x.wrapping_neg() }
/// "ADDRESS/PREFIX" or "ADDRESS/MASK" as (base, mask)
pub fn netm(v6: bool, t: &[u8]) -> Option<(u128, u128)> {
    let k = only(t, b'/')?; let a = rd(v6, &t[..k])?; let r = &t[k + 1..];
    if let Some(p) = cnum(r) { if p <= bits(v6) as u64 { return Some((a, pmask(v6, p as u32))); } return None; }
    let m = rd(v6, r)?; if plen(v6, m).is_some() { return None; }
    Some((a, m))
}
/// One line of a network description: label, address with a suffix, and the address in bits.
pub fn row(v6: bool, l: &[u8], label: &[u8], val: u128, suffix: &[u8], cols: u32) {
    let w = if v6 { 46 } else { 21 };
    check(l.len() > 11 + w, "a line with label, address and bits");
    if l.len() <= 11 + w { return; }
    check(trim(&l[..11]) == label, "the label");
    let t = trim(&l[11..11 + w]);
    if cols & 1 != 0 {
        check(t.len() > suffix.len() && &t[t.len() - suffix.len()..] == suffix, "prefix length given exactly for a prefix mask");
        if t.len() > suffix.len() { check(rd(v6, &t[..t.len() - suffix.len()]) == Some(val), "the address in this line"); }
    }
    if cols & 2 != 0 {
        // the bits must be those of the address printed beside them
        let mut k = 0; while k < t.len() && t[k] != b'/' && t[k] != b' ' { k += 1; }
        match rd(v6, &t[..k]) { Some(x) => check(&l[11 + w..] == &bin(v6, x)[..], "the bits are those of the address"), None => check(false, "an address") }
    }
}
/// The class of an IPv4 network by its leading bits, as far as the mask fixes them.
pub fn class(a: u128, m: u128) -> &'static [u8] {
    if f4(a, m, 0, 1) { b"Class A" } else if f4(a, m, 2, 2) { b"Class B" } else if f4(a, m, 6, 3) { b"Class C" } else if f4(a, m, 14, 4) { b"Class D (multicast)" } else if f4(a, m, 15, 4) { b"Class E (reserved)" } else { b"" }
}
fn f4(a: u128, m: u128, p: u128, n: u32) -> bool { let t = 32 - n; (a >> t) == p && (m >> t) == (1 << n) - 1 }
/// Judges the description of a network starting at line k; cols: 1 all facts and the layout, 2 bit columns, 4 class label, 8 the network itself. Returns the line after it.
pub fn describe(v6: bool, l: &[&[u8]], k: usize, addr: Option<u128>, net: u128, m: u128, cols: u32) -> usize {
    if cols & 1 == 0 { return describe_part(v6, l, k, net, m, cols); }
    let z = zeros(v6, m); let pl = plen(v6, m); let wild = !m & full(v6); let bc = net | wild;
    let pfx = match pl { Some(p) => dec(p as u64), None => Vec::new() };
    let want = (if addr.is_some() { 4 } else { 0 }) + 3 + (if z >= 2 { 1 } else { 0 }) + 1;
    check(l.len() >= k + want, "number of lines");
    if l.len() < k + want { return l.len(); }
    let mut i = k;
    if let Some(a) = addr {
        row(v6, l[i], b"Address:", a, b"", cols);
        row(v6, l[i + 1], b"Netmask:", m, &if pl.is_some() { cat(&[b" = ", &pfx]) } else { Vec::new() }, cols);
        row(v6, l[i + 2], b"Wildcard:", wild, b"", cols);
        check(l[i + 3] == b"=>", "arrow between address and network");
        i += 4;
    }
    row(v6, l[i], b"Network:", net, &if pl.is_some() { cat(&[b"/", &pfx]) } else { Vec::new() }, cols); i += 1;
    if z >= 2 {
        row(v6, l[i], b"HostMin:", net | low(wild), b"", cols);
        row(v6, l[i + 1], b"HostMax:", bc & !low(wild), b"", cols); i += 2;
    } else { check(l[i] == b"no hosts", "no hosts"); i += 1; }
    if z >= 1 { row(v6, l[i], b"Broadcast:", bc, b"", cols); } else { check(l[i] == b"no broadcast", "no broadcast"); }
    i += 1;
    if z >= 2 {
        let h = l[i]; let w = if v6 { 46 } else { 21 };
        check(h.len() >= 11 + w && trim(&h[..11]) == b"Hosts/Net:", "the label");
        if h.len() >= 11 + w {
            let n = if z == 128 { u128::MAX - 1 } else { (1u128 << z) - 2 };
            if cols & 1 != 0 { check(trim(&h[11..11 + w]) == &dec128(n)[..], "the number of hosts"); }
            if cols & 4 != 0 { class_label(v6, &h[11 + w..], net, m); }
        }
    } else { check(l[i] == b"no hosts/net", "no hosts/net"); }
    i + 1
}
fn class_label(v6: bool, label: &[u8], net: u128, m: u128) {
    if v6 { check(label.is_empty(), "no class for IPv6"); }
    else {
        check(label.is_empty() == !has_class(net, m), "a class label exactly when the mask fixes the leading bits");
        if !label.is_empty() { check(label == class(net, m), "the class label"); }
    }
}
/// The same without insisting on the layout: whatever lines there are up to an empty one.
fn describe_part(v6: bool, l: &[&[u8]], k: usize, net: u128, m: u128, cols: u32) -> usize {
    let w = if v6 { 46 } else { 21 }; let mut i = k; let mut seen = 0;
    let sfx = match plen(v6, m) { Some(p) => cat(&[b"/", &dec(p as u64)]), None => Vec::new() };
    while i < l.len() && !l[i].is_empty() {
        let h = l[i]; i += 1;
        let t = if h.len() > 11 { trim(&h[..11]) } else { h };
        if t == b"Hosts/Net:" { if cols & 4 != 0 && h.len() >= 11 + w { class_label(v6, &h[11 + w..], net, m); seen |= 4; } continue; }
        if t == b"Network:" { seen |= 2; row(v6, h, b"Network:", net, &sfx, cols & 2 | cols >> 3 & 1); }
        else if t == b"Address:" || t == b"Netmask:" || t == b"Wildcard:" || t == b"HostMin:" || t == b"HostMax:" || t == b"Broadcast:" { if cols & 2 != 0 { row(v6, h, t, 0, b"", 2); } }
    }
    check(seen & 2 != 0, "a line about the network");
    if cols & 4 != 0 && zeros(v6, m) >= 2 { check(seen & 4 != 0, "a line that can have the class label"); }
    i
}
fn has_class(a: u128, m: u128) -> bool { f4(a, m, 0, 1) || f4(a, m, 2, 2) || f4(a, m, 6, 3) || f4(a, m, 14, 4) || f4(a, m, 15, 4) }
/// An address whose text has the same shape for all values: octets of 100-255, groups of four digits.
pub fn symaddr(v6: bool) -> u128 {
    let mut r = 0u128;
    if v6 { for _ in 0..8 { let h = sym(0x10, 255) as u128; let lo = sym8() as u128; r = r << 16 | h << 8 | lo; } }
    else { for _ in 0..4 { r = r << 8 | sym(100, 255) as u128; } }
    r
}
/// Any address; note that IPv4 text for it has three digits per octet (leading zeros where needed).
pub fn anyaddr(v6: bool) -> u128 { if v6 { sym128() } else { sym32() as u128 } }
/// A mask with one arbitrary byte (at any place), the bytes before and after it as in the context number.
/// Of the byte's values every stride-th is taken, a different residue at each place.
pub fn winmask(v6: bool, ctx: u64, stride: u64) -> u128 {
    let n = (bits(v6) / 8) as u64; let pos = shard(n); let c = choose(ctx); let w = choose(256) as u128; assume(stride < 2 || (w as u64 + w as u64 / stride + pos) % stride == 0);
    let mut m = 0u128;
    for i in 0..n {
        let b = if i == pos { w } else { match c { 0 => if i < pos { 0xff } else { 0 }, 1 => 0xff, 2 => if i < pos { 0 } else { 0xff }, 3 => if i & 1 == 0 { 0xff } else { 0 }, _ => [0x80, 0x7f, 0x3c, 0x01][(i & 3) as usize] } };
        m = m << 8 | b;
    }
    m
}
/// compiles the program's patterns once, so that later runs on every path share them
pub fn warm() { let o = run(&[b"zz"]); check(refused(&o), "text that is no network is refused"); }

/// Reference reading of a network specification: ADDRESS/PREFIX, ADDRESS/MASK, ADDRESS/-N or ADDRESS/-WILDCARD as (IPv6?, address, mask).
pub fn rspec(t: &[u8]) -> Option<(bool, u128, u128)> {
    let k = only(t, b'/')?;
    let (l, mut r) = (&t[..k], &t[k + 1..]);
    let v6 = l.iter().any(|&x| x == b':');
    let a = if v6 { p6(l)? } else { r4(l)? as u128 };
    let neg = !r.is_empty() && r[0] == b'-'; if neg { r = &r[1..]; }
    let digits = !r.is_empty() && r.iter().all(|&c| is_digit(c));
    let m = if digits {
        // a number; everything beyond the address width is refused, however long
        let mut n = 0u32; for &c in r { n = n * 10 + (c - b'0') as u32; if n > bits(v6) { return None; } }
        pmask(v6, if neg { bits(v6) - n } else { n })
    } else {
        let m = if v6 { p6(r)? } else { r4(r)? as u128 };
        if neg { !m & full(v6) } else { m }
    };
    Some((v6, a, m))
}
/// A text one edit away from t: a character replaced, inserted or removed, or the text itself.
pub fn edit1(t: &[u8], special: bool) -> Vec<u8> {
    let mut r = t.to_vec();
    let k = shard(t.len() as u64 + 1) as usize;
    // an arbitrary ASCII character, or (special) a digit of another script
    let c: Vec<u8> = if special && choose(5) == 4 { vec![0xd9, 0xa0 + sym(0, 9) as u8] } else { vec![sym(1, 127) as u8] };
    match choose(4) {
        0 => { assume(k < t.len()); r.splice(k..k + 1, c); },
        1 => { r.splice(k..k, c); },
        2 => { assume(k < t.len()); r.remove(k); },
        _ => assume(k == 0),
    }
    r
}
