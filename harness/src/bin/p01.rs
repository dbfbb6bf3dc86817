//! P01: Unreal string round trip.
use harness as h;
use std::io::Cursor;
use unreal_helpers::{UnrealReadExt, UnrealWriteExt};

fn expected(s: Option<&str>) -> Vec<u8> {
    let mut v = vec![];
    match s {
        None => v.extend_from_slice(&0i32.to_le_bytes()),
        Some(s) if s.is_ascii() => {
            v.extend_from_slice(&(s.len() as i32 + 1).to_le_bytes());
            v.extend_from_slice(s.as_bytes());
            v.push(0);
        }
        Some(s) => {
            let u: Vec<u16> = s.encode_utf16().collect();
            v.extend_from_slice(&(-(u.len() as i32) - 1).to_le_bytes());
            for x in u { v.extend_from_slice(&x.to_le_bytes()); }
            v.extend_from_slice(&[0, 0]);
        }
    }
    v
}
/// write at some offset, followed by unrelated data; layout, size, and reading back
fn round(s: Option<&str>) {
    let pre = h::choice(2) as usize * 3;
    let mut c = Cursor::new(vec![0xEEu8; pre]);
    c.set_position(pre as u64);
    let sz = h::must(c.write_fstring(s), 1);
    let mut v = c.into_inner();
    h::check(sz == v.len() - pre, 2);
    let exp = expected(s);
    h::check(h::same(&v[pre..], &exp), 3);
    let end = v.len();
    h::observe_bytes(1, &v[pre..v.len().min(pre + 40)]);
    v.extend_from_slice(&h::bytes::<3>());
    let mut c = Cursor::new(&v[..]);
    c.set_position(pre as u64);
    let r = h::must(c.read_fstring(), 4);
    h::check(r.is_some() == s.is_some(), 5);
    if let (Some(a), Some(b)) = (&r, s) { h::check(h::same(a.as_bytes(), b.as_bytes()), 6); }
    h::check(c.position() as usize == end, 7);
}
/// arbitrary UTF-8 of up to 5 bytes
fn utf8() {
    let n = h::choice(6) as usize;
    let mut b = vec![0u8; n];
    h::fill(&mut b);
    let Ok(s) = String::from_utf8(b) else { return };
    let mut z = false;
    for &x in s.as_bytes() { z |= x == 0; }
    h::assume(!z);
    round(Some(&s));
}
/// up to 3 arbitrary characters (including supplementary planes)
fn chars() {
    let n = 1 + h::choice(3) as usize;
    let mut s = String::new();
    for _ in 0..n { s.push(h::any_char()); }
    round(Some(&s));
}
fn ascii_lens() {
    let lens = [0usize, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 100, 254, 255, 256, 257, 300];
    let n = lens[h::choice(lens.len() as u64) as usize];
    let s = h::ascii(n);
    round(Some(&s));
}
/// one arbitrary character anywhere in a longer text
fn wide_in_long() {
    let lens = [6usize, 20, 127, 128, 200];
    let n = lens[h::choice(lens.len() as u64) as usize];
    let at = [0, n / 2, n][h::choice(3) as usize];
    let mut s = String::new();
    let a = h::ascii(n);
    s.push_str(&a[..at]);
    s.push(h::any_char());
    s.push_str(&a[at..]);
    round(Some(&s));
}
fn none() { round(None) }
/// two strings in a row
fn two() {
    let (a, b) = (h::ascii(h::choice(4) as usize), { let mut s = String::new(); for _ in 0..h::choice(3) { s.push(h::any_char()) } s });
    let first_none = h::flag();
    let mut c = Cursor::new(vec![]);
    let s1 = h::must(c.write_fstring(if first_none { None } else { Some(&a) }), 10);
    let s2 = h::must(c.write_fstring(Some(&b)), 10);
    let v = c.into_inner();
    h::check(s1 + s2 == v.len(), 11);
    let mut c = Cursor::new(&v[..]);
    let r1 = h::must(c.read_fstring(), 12);
    let r2 = h::must(c.read_fstring(), 12);
    h::check(match &r1 { None => first_none, Some(x) => !first_none && h::same(x.as_bytes(), a.as_bytes()) }, 13);
    h::check(match &r2 { None => false, Some(x) => h::same(x.as_bytes(), b.as_bytes()) }, 14);
    h::check(c.position() as usize == v.len(), 15);
}
/// lengths at the reader's limit (131072 characters), content symbolic at both ends
fn limit() {
    let n = [131070usize, 131071, 131072][h::choice(3) as usize];
    let wide = h::flag();
    let mut s = h::ascii(2);
    while s.len() < n - 2 - wide as usize { s.push('x'); }
    if wide { s.push('\u{e9}'); }
    s.push_str(&h::ascii(2));
    let mut c = Cursor::new(vec![]);
    let sz = h::must(c.write_fstring(Some(&s)), 20);
    let v = c.into_inner();
    h::check(sz == v.len(), 21);
    let mut c = Cursor::new(&v[..]);
    let r = h::must(c.read_fstring(), 22);
    h::check(match &r { None => false, Some(x) => h::same(x.as_bytes(), s.as_bytes()) }, 23);
    h::check(c.position() as usize == v.len(), 24);
}
fn deep_utf8_f() {
    let n = 6 + h::choice(3) as usize;
    let mut b = vec![0u8; n];
    h::fill(&mut b);
    let Ok(s) = String::from_utf8(b) else { return };
    let mut z = false;
    for &x in s.as_bytes() { z |= x == 0; }
    h::assume(!z);
    round(Some(&s));
}
fn deep_chars_f() {
    let n = 4 + h::choice(2) as usize;
    let mut s = String::new();
    for _ in 0..n { s.push(h::any_char()); }
    round(Some(&s));
}
h::cases! {
    case_utf8 => utf8, case_chars => chars, case_ascii_lens => ascii_lens, case_wide_in_long => wide_in_long, case_none => none, case_two => two, case_limit => limit,
    deep_utf8 => deep_utf8_f, deep_chars => deep_chars_f,
}
