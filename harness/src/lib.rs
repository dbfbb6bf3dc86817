//! Interface between harness cases and the symbolic executor (or the native replay shim).
extern "C" {
    fn sym_bytes(ptr: *mut u8, len: usize);
    fn sym_assume(c: bool);
    fn sym_check(c: bool, id: u32);
    fn sym_choice(n: u64) -> u64;
    fn sym_observe(tag: u32, v: u64);
    fn sym_reach(id: u32);
}
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    unsafe { sym_bytes(b.as_mut_ptr(), N) };
    b
}
pub fn fill(b: &mut [u8]) { unsafe { sym_bytes(b.as_mut_ptr(), b.len()) } }
pub fn u8() -> u8 { bytes::<1>()[0] }
pub fn u16() -> u16 { u16::from_le_bytes(bytes()) }
pub fn u32() -> u32 { u32::from_le_bytes(bytes()) }
pub fn u64() -> u64 { u64::from_le_bytes(bytes()) }
pub fn u128() -> u128 { u128::from_le_bytes(bytes()) }
pub fn i32() -> i32 { u32() as i32 }
pub fn i64() -> i64 { u64() as i64 }
pub fn assume(c: bool) { unsafe { sym_assume(c) } }
/// violation `id` unless c
pub fn check(c: bool, id: u32) { unsafe { sym_check(c, id) } }
/// a concrete value in 0..n, one path per value
pub fn choice(n: u64) -> u64 { unsafe { sym_choice(n) } }
pub fn observe(tag: u32, v: u64) { unsafe { sym_observe(tag, v) } }
pub fn reach(id: u32) { unsafe { sym_reach(id) } }
extern "C" { fn sym_opt(k: u64, v: u64); fn sym_concrete(v: u64) -> u64; }
/// while on, `format!` yields a placeholder (used around code that formats only error texts)
pub fn stub_format(on: bool) { unsafe { sym_opt(0, on as u64) } }
/// one path per possible value
pub fn concrete(v: u64) -> u64 { unsafe { sym_concrete(v) } }
pub fn flag() -> bool { choice(2) == 1 }
/// any 64-bit value; values below `limit` are enumerated (one path each), the rest stays symbolic
pub fn size(limit: u64) -> u64 { let v = u64(); if v < limit { concrete(v) } else { v } }
pub fn size32(limit: u32) -> u32 { let v = u32(); if v < limit { concrete(v as u64) as u32 } else { v } }
/// fails check `id` with None/Err
pub fn must<T, E>(r: Result<T, E>, id: u32) -> T { match r { Ok(v) => v, Err(_) => { check(false, id); unreachable!() } } }
pub fn some<T>(r: Option<T>, id: u32) -> T { match r { Some(v) => v, None => { check(false, id); unreachable!() } } }
/// byte equality without an early exit (one condition, no forks)
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut d = 0u8;
    for i in 0..a.len() { d |= a[i] ^ b[i]; }
    d == 0
}
pub fn observe_bytes(tag: u32, b: &[u8]) { observe(tag, b.len() as u64); for c in b.chunks(8) { let mut x = [0u8; 8]; x[..c.len()].copy_from_slice(c); observe(tag, u64::from_le_bytes(x)); } }
/// a string of `n` symbolic ASCII bytes in 1..=127
pub fn ascii(n: usize) -> String {
    let mut b = vec![0u8; n];
    fill(&mut b);
    let mut ok = true;
    for &x in &b { ok &= x != 0 && x < 128; }
    assume(ok);
    unsafe { String::from_utf8_unchecked(b) }
}
/// a string of `n` symbolic lower-case letters
pub fn lower(n: usize) -> String {
    let mut b = vec![0u8; n];
    fill(&mut b);
    let mut ok = true;
    for &x in &b { ok &= x >= b'a' && x <= b'z'; }
    assume(ok);
    unsafe { String::from_utf8_unchecked(b) }
}
/// one arbitrary Unicode scalar value except NUL, appended as UTF-8 without branching on its validity
pub fn any_char() -> char {
    let v = u32();
    assume(v != 0 && v < 0x110000 && (v < 0xD800 || v > 0xDFFF));
    unsafe { char::from_u32_unchecked(v) }
}
#[macro_export]
macro_rules! cases {
    ($($c:ident => $f:expr),* $(,)?) => {
        $( #[cfg_attr(not(feature = "moved"), no_mangle)] pub extern "C" fn $c() { $f() } )*
        #[cfg(not(feature = "moved"))]
        fn main() {
            let a = std::env::args().nth(1).unwrap_or_default();
            $( if a == stringify!($c) { $c(); return; } )*
            std::process::exit(96);
        }
    };
}
/// the cases of a check that reuses the cases of others with an additional judgement
#[macro_export]
macro_rules! moved_cases {
    ($($c:ident => $f:expr),* $(,)?) => {
        $( #[no_mangle] pub extern "C" fn $c() { $f() } )*
        fn main() {
            let a = std::env::args().nth(1).unwrap_or_default();
            $( if a == stringify!($c) { $c(); return; } )*
            std::process::exit(96);
        }
    };
}
#[cfg(any(feature = "base", feature = "asset"))]
pub mod arch;
/// little-endian encoder for the independent oracles
#[derive(Default, Clone)]
pub struct Enc(pub Vec<u8>);
impl Enc {
    pub fn new() -> Self { Enc(vec![]) }
    pub fn u8(mut self, v: u8) -> Self { self.0.push(v); self }
    pub fn u16(mut self, v: u16) -> Self { self.0.extend(v.to_le_bytes()); self }
    pub fn u32(mut self, v: u32) -> Self { self.0.extend(v.to_le_bytes()); self }
    pub fn i32(mut self, v: i32) -> Self { self.0.extend(v.to_le_bytes()); self }
    pub fn u64(mut self, v: u64) -> Self { self.0.extend(v.to_le_bytes()); self }
    pub fn i64(mut self, v: i64) -> Self { self.0.extend(v.to_le_bytes()); self }
    pub fn raw(mut self, b: &[u8]) -> Self { self.0.extend_from_slice(b); self }
    /// ASCII Unreal string
    pub fn str(mut self, s: &str) -> Self { self.0.extend((s.len() as i32 + 1).to_le_bytes()); self.0.extend_from_slice(s.as_bytes()); self.0.push(0); self }
    /// any text: one byte per character, or UTF-16 with a negative length
    pub fn text(mut self, s: &str) -> Self {
        if s.is_ascii() { return self.str(s) }
        let w: Vec<u16> = s.encode_utf16().chain([0]).collect();
        self.0.extend((-(w.len() as i32)).to_le_bytes());
        for c in w { self.0.extend(c.to_le_bytes()) }
        self
    }
    pub fn name(self, index: i32, number: i32) -> Self { self.i32(index).i32(number) }
    pub fn any(mut self, n: usize) -> Self { let mut b = vec![0u8; n]; fill(&mut b); self.0.extend(b); self }
    pub fn len(&self) -> usize { self.0.len() }
}
#[cfg(feature = "asset")]
pub mod prop;
#[cfg(feature = "asset")]
pub mod pkg;
