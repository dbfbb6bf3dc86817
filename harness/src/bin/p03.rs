//! P03: GUID conversions.
use harness as h;
use std::io::Cursor;
use std::str::FromStr;
use unreal_helpers::{Guid, UnrealReadExt, UnrealWriteExt};

fn views() {
    let b = h::bytes::<16>();
    let g = Guid::new(b);
    h::check(h::same(&Guid::from(b).0, &b), 1);
    let back: [u8; 16] = g.into();
    h::check(h::same(&back, &b), 2);
    let w = |i: usize| u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]);
    let (p, q, r, s): (u32, u32, u32, u32) = g.into();
    h::check(p == w(0) && q == w(4) && r == w(8) && s == w(12), 3);
    h::check(h::same(&Guid::from((p, q, r, s)).0, &b), 4);
    h::check(h::same(&Guid::from_ints(p, q, r, s).0, &b), 5);
    let u: u128 = g.into();
    h::check(u == u128::from_le_bytes(b), 6);
    h::check(h::same(&Guid::from(u).0, &b), 7);
    let mut z = 0u8;
    for x in b { z |= x; }
    h::check(g.is_zero() == (z == 0), 8);
    h::observe_bytes(1, &back);
    h::observe(2, p as u64);
    let mut c = Cursor::new(vec![]);
    h::must(c.write_guid(&g), 9);
    let v = c.into_inner();
    h::check(h::same(&v, &b), 10);
    let g2 = h::must(Cursor::new(&v[..]).read_guid(), 11);
    h::check(h::same(&g2.0, &b), 12);
}
fn from_words() {
    let (a, b, c, d) = (h::u32(), h::u32(), h::u32(), h::u32());
    let g = Guid::from_ints(a, b, c, d);
    let t: (u32, u32, u32, u32) = g.into();
    h::check(t == (a, b, c, d), 20);
    let u: u128 = g.into();
    h::check(u == (a as u128) | ((b as u128) << 32) | ((c as u128) << 64) | ((d as u128) << 96), 21);
    let v = h::u128();
    let w: u128 = Guid::from(v).into();
    h::check(v == w, 22);
}
fn hexd(n: u8) -> u8 { if n < 10 { b'0' + n } else { b'A' + (n - 10) } }
fn printed(b: &[u8; 16]) {
    let g = Guid::new(*b);
    let s = g.to_string();
    let mut z = 0u8;
    for x in b { z |= x; }
    if z == 0 { h::check(s == "0", 30); }
    else {
        let mut e = vec![];
        for (i, x) in b.iter().enumerate() { if matches!(i, 4 | 6 | 8 | 10) { e.push(b'-'); } e.push(hexd(x >> 4)); e.push(hexd(x & 15)); }
        h::check(h::same(s.as_bytes(), &e), 31);
    }
    h::observe_bytes(3, s.as_bytes());
    let back = h::must(Guid::from_str(&s), 32);
    h::check(h::same(&back.0, b), 33);
}
/// two neighbouring bytes arbitrary, the rest fixed
fn print_two() {
    let i = h::choice(16) as usize;
    let mut b = [0u8; 16];
    if h::flag() { for (k, x) in b.iter_mut().enumerate() { *x = 0x13u8.wrapping_mul(k as u8 + 7); } }
    b[i] = h::u8();
    b[(i + 1) % 16] = h::u8();
    printed(&b);
}
/// all bytes arbitrary but at least 0x10 (no leading zero digit), or all below 0x10
fn print_big() {
    let b = h::bytes::<16>();
    let small = h::flag();
    let mut ok = true;
    for x in b { ok &= if small { x < 16 && x > 0 } else { x >= 16 }; }
    h::assume(ok);
    printed(&b);
}
fn refparse(s: &str) -> Option<[u8; 16]> {
    let mut t: Vec<char> = s.chars().filter(|c| *c != '-').collect();
    while t.first().map_or(false, |c| c.is_whitespace()) { t.remove(0); }
    while t.last().map_or(false, |c| c.is_whitespace()) { t.pop(); }
    if t.first() == Some(&'{') { t.remove(0); }
    if t.last() == Some(&'}') { t.pop(); }
    if t.len() == 1 && t[0] == '0' { return Some([0; 16]); }
    if t.len() != 32 { return None; }
    let mut out = [0u8; 16];
    for i in 0..16 {
        let d = |c: char| -> Option<u8> { match c { '0'..='9' => Some(c as u8 - b'0'), 'a'..='f' => Some(c as u8 - b'a' + 10), 'A'..='F' => Some(c as u8 - b'A' + 10), _ => None } };
        out[i] = (d(t[2 * i])? << 4) | d(t[2 * i + 1])?;
    }
    Some(out)
}
fn parse(s: &str) {
    match (Guid::from_str(s), refparse(s)) {
        (Ok(g), Some(e)) => { h::check(h::same(&g.0, &e), 40); h::observe_bytes(4, &g.0); }
        (Err(_), None) => h::observe(5, 1),
        (Ok(_), None) => h::check(false, 41),
        (Err(_), Some(_)) => h::check(false, 42),
    }
}
fn parse_short() {
    let n = h::choice(4) as usize;
    let mut b = vec![0u8; n];
    h::fill(&mut b);
    if let Ok(s) = std::str::from_utf8(&b) { parse(s); }
}
/// a well-formed text with an arbitrary character replacing or inserted at each position
fn parse_long() {
    let forms = ["0123456789abcdefABCDEF0123456789", "{01234567-89ab-cdef-ABCD-EF0123456789}", "01234567-89AB-CDEF-0123-456789ABCDE"];
    let f: Vec<char> = forms[h::choice(3) as usize].chars().collect();
    let at = h::choice(f.len() as u64 + 1) as usize;
    let insert = h::flag();
    let c = h::any_char();
    let mut s = String::new();
    for (i, x) in f.iter().enumerate() { if i == at { s.push(c); if !insert { continue; } } s.push(*x); }
    if at == f.len() { s.push(c); }
    parse(&s);
}
/// multi-byte characters that keep the byte length at 32
fn parse_bytes32() {
    let at = h::choice(31) as usize;
    let c = h::any_char();
    let mut s = "0123456789abcdefABCDEF0123456789"[..at].to_string();
    s.push(c);
    while s.len() < 32 { s.push('0'); }
    parse(&s);
}
/// all 32 digits symbolic hexadecimal, letters and decimal digits placed by one of six patterns
fn parse_digits() {
    let b = h::bytes::<32>();
    let pat = h::choice(6);
    let letter = |i: usize| match pat { 0 => false, 1 => true, 2 => i % 2 == 0, 3 => i % 2 == 1, 4 => i % 3 == 0, _ => i < 16 };
    let mut ok = true;
    for (i, &x) in b.iter().enumerate() { let y = x | 32; ok &= if letter(i) { y >= b'a' && y <= b'f' } else { x >= b'0' && x <= b'9' }; }
    h::assume(ok);
    let s = unsafe { String::from_utf8_unchecked(b.to_vec()) };
    let g = h::must(Guid::from_str(&s), 50);
    for i in 0..16 {
        let d = |i: usize| if letter(i) { (b[i] | 32) - b'a' + 10 } else { b[i] - b'0' };
        h::check(g.0[i] == (d(2 * i) << 4) | d(2 * i + 1), 51);
    }
}
h::cases! {
    case_views => views, case_from_words => from_words, case_print_two => print_two, case_print_big => print_big, case_parse_short => parse_short, case_parse_long => parse_long, case_parse_bytes32 => parse_bytes32, case_parse_digits => parse_digits,
}
