//! P12: Ace Combat 7 encryption.
use harness as h;
use unreal_asset::ac7::{decrypt, decrypt_uasset, decrypt_uexp, encrypt, encrypt_uasset, encrypt_uexp, AC7XorKey};

const PLAIN: [u8; 4] = [0xC1, 0x83, 0x2A, 0x9E];
const CIPHER: [u8; 4] = *b"ACE7";
fn filled(n: usize) -> Vec<u8> { let mut v = vec![0; n]; h::fill(&mut v); v }
/// both directions with key k
fn both(k: AC7XorKey, na: usize, nb: usize) {
    let (body, exp) = (filled(na), filled(nb));
    let mut plain = PLAIN.to_vec(); plain.extend(&body);
    let (e, eb) = encrypt(&plain, &exp, k);
    h::check(e.len() == plain.len() && eb.len() == exp.len() && e[..4] == CIPHER, 1);
    let (d, db) = decrypt(&e, &eb, k);
    h::check(h::same(&d, &plain) && h::same(&db, &exp), 2);
    let mut cipher = CIPHER.to_vec(); cipher.extend(&body);
    let (d, db) = decrypt(&cipher, &exp, k);
    h::check(d.len() == cipher.len() && db.len() == exp.len() && d[..4] == PLAIN, 3);
    let (e, eb) = encrypt(&d, &db, k);
    h::check(h::same(&e, &cipher) && h::same(&eb, &exp), 4);
    // piecewise use of the same key state gives the same result
    let mut k2 = k;
    let a = decrypt_uasset(&cipher, &mut k2);
    let b = decrypt_uexp(&exp, &mut k2);
    h::check(h::same(&a, &d) && h::same(&b, &db), 5);
    let mut k2 = k;
    let a = encrypt_uasset(&plain, &mut k2);
    let b = encrypt_uexp(&exp, &mut k2);
    let (e, eb) = encrypt(&plain, &exp, k);
    h::check(h::same(&a, &e) && h::same(&b, &eb), 6);
}
/// every ASCII name of n characters; the key table content is left open
fn any_name(n: usize, upper: bool) {
    let mut b = filled(n);
    let mut ok = true;
    for x in &mut b { ok &= *x < 128 && *x != 0; if upper { ok &= *x < 97 } }
    h::assume(ok);
    let s = unsafe { String::from_utf8_unchecked(b) };
    both(AC7XorKey::new(&s), 3, 2);
}
/// fixed names with long bodies: positions wrap around the table
fn long(n: usize) {
    let s = ["ex02_IGC_03_Subtitle", "a", "", "Plane_F22A_Material_Instance_Paint_0123456789", "žluťoučký"][h::choice(5) as usize];
    both(AC7XorKey::new(s), n, 5);
}
/// the transform is the documented one: byte xor key byte xor 0x77 with positions from the name
fn reference() {
    let key: &[u8] = include_bytes!("/repo/unreal_asset/vendor/AC7Key.bin");
    let s = ["ex02_IGC_03_Subtitle", "a", "", "Plane_F22A", "zz", "Plane_F22A_Material_Instance_Paint_0123456789_and_more_of_it", "Gr\u{f6}\u{df}e_\u{e9}", "/Game/\u{6a5f}\u{4f53}"][h::choice(8) as usize];
    let mut k = 0u32;
    for c in s.to_uppercase().bytes() { let c = c as u32; k ^= c; let bit = (!((k << 3) ^ k) >> 7) & 1; k = (k << 1) | bit; }
    let (mut p1, mut p2) = ((k as u64 * 7 + 4) % 217, (k as u64 * 11 + 4) % 1024);
    let data = filled(230);
    let got = decrypt_uexp(&data, &mut AC7XorKey::new(s));
    let mut d = 0u8;
    for i in 0..230 { d |= got[i] ^ data[i] ^ key[(p1 * 1024 + p2) as usize] ^ 0x77; p1 = (p1 + 1) % 217; p2 = (p2 + 1) % 1024; }
    h::check(d == 0, 10);
}
/// names are case-insensitive
fn case_insensitive() { let a = h::lower(3); let k = AC7XorKey::new(&a); h::check(k == AC7XorKey::new(&a.to_ascii_uppercase()), 11); }
fn short() { let n = h::choice(4) as usize; let v = filled(n); let mut k = AC7XorKey::new("a"); if h::flag() { let _ = encrypt_uasset(&v, &mut k); } else { let _ = decrypt_uasset(&v, &mut k); } }
h::cases! { case_name1 => || any_name(1, false), case_name3 => || any_name(3, true), case_long => || long(60), case_wrap => || long(1100), case_reference => reference, case_case => case_insensitive, case_short => short, deep_name6 => || any_name(6, true) }
