//! P02: malformed strings, booleans, identifiers and arrays.
use byteorder::{ReadBytesExt, LE};
use harness as h;
use std::io::Cursor;
use unreal_helpers::UnrealReadExt;

/// reference: what the encoding of a string at the start of `b` means
fn reference(b: &[u8]) -> Result<(Option<Vec<u8>>, usize), ()> {
    if b.len() < 4 { return Err(()); }
    let len = i32::from_le_bytes([b[0], b[1], b[2], b[3]]);
    if len == 0 { return Ok((None, 4)); }
    if len > 0 {
        if (len as usize) > b.len() - 4 { return Err(()); }
        let n = h::concrete(len as u64) as usize;
        if b[4 + n - 1] != 0 { return Err(()); }
        let t = &b[4..4 + n - 1];
        if std::str::from_utf8(t).is_err() { return Err(()); }
        Ok((Some(t.to_vec()), 4 + n))
    } else {
        let units = (len as i64).unsigned_abs();
        if units > ((b.len() - 4) / 2) as u64 { return Err(()); }
        let n = h::concrete(units) as usize;
        let mut u = vec![];
        for i in 0..n { u.push(u16::from_le_bytes([b[4 + 2 * i], b[5 + 2 * i]])); }
        if u[n - 1] != 0 { return Err(()); }
        // strict UTF-16
        let mut s = String::new();
        let mut i = 0;
        while i < n - 1 {
            let x = u[i];
            if x >= 0xD800 && x < 0xDC00 {
                if i + 1 >= n - 1 || !(u[i + 1] >= 0xDC00 && u[i + 1] < 0xE000) { return Err(()); }
                s.push(char::from_u32(0x10000 + (((x - 0xD800) as u32) << 10) + (u[i + 1] - 0xDC00) as u32).unwrap());
                i += 2;
            } else if x >= 0xDC00 && x < 0xE000 { return Err(()); } else { s.push(char::from_u32(x as u32).unwrap()); i += 1; }
        }
        Ok((Some(s.into_bytes()), 4 + 2 * n))
    }
}
fn run(b: &[u8]) {
    let mut c = Cursor::new(b);
    let r = c.read_fstring();
    let e = reference(b);
    match (r, e) {
        (Ok(s), Ok((t, used))) => {
            h::check(s.is_some() == t.is_some(), 1);
            if let (Some(s), Some(t)) = (s, t) { h::check(h::same(s.as_bytes(), &t), 2); h::observe_bytes(2, s.as_bytes()); }
            h::check(c.position() as usize == used, 3);
            h::observe(3, used as u64);
        }
        (Err(_), Err(())) => h::observe(4, 0),
        (Ok(_), Err(())) => h::check(false, 5),
        (Err(_), Ok(_)) => h::check(false, 6),
    }
}
/// every buffer of 0..=9 bytes
fn string_any() { let n = h::choice(10) as usize; let mut b = vec![0u8; n]; h::fill(&mut b); run(&b); }
/// wide strings of up to three units, any declared length
fn string_wide() { let n = 10 + h::choice(3) as usize; let mut b = vec![0u8; n]; h::fill(&mut b); h::assume(b[3] >= 0x80); run(&b); }
/// declared lengths around every limit with a fixed small body
fn string_len() { let mut b = vec![0u8; 8]; h::fill(&mut b); b[4] = b'a'; b[5] = 0; b[6] = b'b'; b[7] = 0; run(&b); }
fn boolean() {
    let n = h::choice(2) as usize;
    let b = h::bytes::<1>();
    let r = Cursor::new(&b[..n]).read_bool();
    match r { Ok(v) => h::check(n == 1 && v == (b[0] != 0), 10), Err(_) => h::check(n == 0, 11) }
}
fn guid() {
    let n = 14 + h::choice(4) as usize;
    let b = h::bytes::<18>();
    let mut c = Cursor::new(&b[..n]);
    match c.read_guid() { Ok(g) => { h::check(n >= 16 && h::same(&g.0, &b[..16]), 12); h::check(c.position() == 16, 13) } Err(_) => h::check(n < 16, 14) }
}
fn vec_len() {
    let n = h::choice(5) as usize;
    let b = h::bytes::<4>();
    let want = h::choice(7) as usize;
    match Cursor::new(&b[..n]).read_vec(want) { Ok(v) => h::check(want <= n && h::same(&v, &b[..want]), 15), Err(_) => h::check(want > n, 16) }
}
fn array(width: usize) {
    let n = 4 + h::choice(10) as usize;
    let mut b = vec![0u8; n];
    h::fill(&mut b);
    let mut c = Cursor::new(&b[..]);
    let r: Result<Vec<u64>, _> = c.read_array(|r| match width { 1 => r.read_u8().map(|x| x as u64), 2 => r.read_u16::<LE>().map(|x| x as u64), 4 => r.read_u32::<LE>().map(|x| x as u64), _ => r.read_u64::<LE>() });
    let cnt = u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as usize;
    let fits = cnt <= (n - 4) / width;
    match r {
        Ok(v) => {
            h::check(fits && v.len() == cnt, 20);
            for (i, x) in v.iter().enumerate() { let mut t = [0u8; 8]; t[..width].copy_from_slice(&b[4 + i * width..4 + (i + 1) * width]); h::check(*x == u64::from_le_bytes(t), 21); }
            h::check(c.position() as usize == 4 + v.len() * width, 22);
            h::observe(20, v.len() as u64);
        }
        Err(_) => h::check(!fits, 23),
    }
}
fn array_unit() {
    // elements that take no bytes, bounded count
    let b = h::bytes::<4>();
    h::assume(b[1] == 0 && b[2] == 0 && b[3] == 0 && b[0] < 6);
    let r = Cursor::new(&b[..]).read_array(|_| Ok(()));
    match r { Ok(v) => h::check(v.len() == b[0] as usize, 24), Err(_) => h::check(false, 25) }
}
fn array_str() {
    let n = 8 + h::choice(8) as usize;
    let mut b = vec![0u8; n];
    h::fill(&mut b);
    let mut c = Cursor::new(&b[..]);
    let r = c.read_array(|r| r.read_fstring().map_err(|_| std::io::Error::from(std::io::ErrorKind::InvalidData)));
    if let Ok(v) = r { h::check(v.len() == u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as usize, 26); h::check(c.position() as usize <= n, 27); }
}
fn deep_any() { let n = 10 + h::choice(4) as usize; let mut b = vec![0u8; n]; h::fill(&mut b); run(&b); }
h::cases! {
    case_string_any => string_any, case_string_wide => string_wide, case_string_len => string_len, case_boolean => boolean, case_guid => guid, case_vec => vec_len,
    case_array1 => || array(1), case_array2 => || array(2), case_array4 => || array(4), case_array8 => || array(8), case_array_unit => array_unit, case_array_str => array_str,
    deep_string_any => deep_any,
}
