//! P13: name hashes against table-free reference implementations.
use harness as h;
use unreal_asset_base::crc::{cityhash64_to_lower, generate_hash};

/// entry of Unreal's deprecated table: polynomial 0x04C11DB7, most significant bit first
fn old_entry(i: u32) -> u32 {
    let mut c = i << 24;
    for _ in 0..8 { c = (c << 1) ^ (0x04C11DB7 & 0u32.wrapping_sub(c >> 31)) }
    c
}
fn crc_entry(i: u32) -> u32 {
    let mut c = i;
    for _ in 0..8 { c = (c >> 1) ^ (0xEDB88320 & 0u32.wrapping_sub(c & 1)) }
    c
}
fn fold(c: u16, from: u16) -> u16 { c ^ (((c.wrapping_sub(from) < 26) as u16) << 5) }
fn upper(c: u16) -> u16 { fold(c, 97) }
fn lower(c: u16) -> u16 { fold(c, 65) }
fn hash32(u: &[u16], wide: bool) -> u32 {
    let mut a = 0u32;
    for &c in u {
        let c = upper(c) as u32;
        a = (a >> 8) ^ old_entry((a ^ c) & 255);
        if wide { a = (a >> 8) ^ old_entry((a ^ (c >> 8)) & 255) }
    }
    let mut b = !0u32;
    for &c in u { for k in [c as u32 & 255, c as u32 >> 8, 0, 0] { b = (b >> 8) ^ crc_entry((b ^ k) & 255) } }
    (a & 0xffff) | (!b << 16)
}
fn check_units(s: &str, u: &[u16], wide: bool) {
    h::check(generate_hash(s) == hash32(u, wide), 1);
    let b: Vec<u8> = u.iter().flat_map(|c| lower(*c).to_le_bytes()).collect();
    h::check(cityhash64_to_lower(s) == naive_cityhash::cityhash64(&b), 2);
}
fn units(b: &str) -> Vec<u16> { b.bytes().map(|x| x as u16).collect() }
/// all ASCII names of n characters (NUL included)
fn ascii(n: usize) {
    let mut b = vec![0u8; n]; h::fill(&mut b);
    let mut ok = true; for x in &b { ok &= *x < 128 } h::assume(ok);
    let s = unsafe { String::from_utf8_unchecked(b) };
    h::observe(1, generate_hash(&s) as u64);
    check_units(&s, &units(&s), false);
}
/// letters only (either case): one path per case pattern
fn letters(n: usize) {
    let mut b = vec![0u8; n]; h::fill(&mut b);
    let up = h::flag();
    let mut ok = true; for x in &b { let d = x.wrapping_sub(if up { 65 } else { 97 }); ok &= d < 26 } h::assume(ok);
    let s = unsafe { String::from_utf8_unchecked(b) };
    check_units(&s, &units(&s), false);
}
/// one arbitrary character inside a text
fn wide(before: &str, after: &str, lo: u32, hi: u32) {
    let c = h::any_char();
    h::assume(c as u32 >= lo && (c as u32) < hi);
    let mut s = String::from(before); s.push(c); s.push_str(after);
    let v = c as u32;
    let mut u = units(before);
    if v < 0x10000 { u.push(v as u16) } else { u.push(0xD800 | ((v - 0x10000) >> 10) as u16); u.push(0xDC00 | ((v - 0x10000) as u16 & 0x3ff)) }
    u.extend(units(after));
    check_units(&s, &u, v >= 128);
}
/// names differing only in the case of ASCII letters
fn case_only(n: usize) {
    let mut a = vec![0u8; n]; h::fill(&mut a);
    let mut flip = vec![0u8; n]; h::fill(&mut flip);
    let mut ok = true; for x in &a { ok &= *x < 128 } h::assume(ok);
    let b: Vec<u8> = (0..n).map(|i| { let letter = (a[i] | 32).wrapping_sub(97) < 26; a[i] ^ (((letter as u8) << 5) & flip[i]) }).collect();
    let (a, b) = unsafe { (String::from_utf8_unchecked(a), String::from_utf8_unchecked(b)) };
    h::check(generate_hash(&a) & 0xffff == generate_hash(&b) & 0xffff, 3);
    h::check(cityhash64_to_lower(&a) == cityhash64_to_lower(&b), 4);
}
fn long() { let n = [4usize, 5, 8, 9, 15, 16, 17, 31, 32, 33, 65][h::choice(11) as usize]; let k = [0, n / 2, n - 1][h::choice(3) as usize]; let mut s: Vec<u8> = (0..n).map(|i| b"Material_Instance/Game"[i % 22]).collect(); let x = h::u8(); h::assume(x < 128); s[k] = if n > 32 { h::concrete(x as u64) as u8 } else { x }; let s = unsafe { String::from_utf8_unchecked(s) }; check_units(&s, &units(&s), false); }
h::cases! { case_ascii0 => || ascii(0), case_ascii1 => || ascii(1), case_ascii2 => || ascii(2), case_ascii3 => || ascii(3), case_wide => || wide("", "", 0, 0x110000), case_wide_in => || wide("Ab", "z", 0, 0x800), case_wide_in2 => || wide("Ab", "z", 0x800, 0x10000), case_wide_in3 => || wide("b", "Z", 0x1F600, 0x1F680), case_case => || case_only(2), case_letters => || letters(4), case_long => long,
 deep_ascii4 => || ascii(4), deep_case3 => || case_only(3), deep_letters => || letters(8), deep_wide2 => || { let c = h::any_char(); let d = h::any_char(); h::assume((c as u32) < 0x800 && (d as u32) >= 0x80 && (d as u32) < 0x800); let s: String = [c, d].iter().collect(); check_units(&s, &[c as u16, d as u16], true) } }
