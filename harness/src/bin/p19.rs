//! P19: corrupt asset packages.
use harness as h;
use harness::{pkg::*, Enc};
use std::io::Cursor;
use unreal_asset::Asset;
use unreal_asset_base::engine_version::EngineVersion;

fn open(a: Vec<u8>, b: Option<Vec<u8>>) {
    h::stub_format(true);
    let r = Asset::new(Cursor::new(a), b.map(Cursor::new), EngineVersion::VER_UE4_27, None);
    match r {
        Ok(x) => { h::reach(1); for i in -3..4 { let _ = x.get_import(unreal_asset_base::types::PackageIndex::new(i)); let _ = x.get_export(unreal_asset_base::types::PackageIndex::new(i)); } let n = x.imports.len(); h::check(x.get_import(unreal_asset_base::types::PackageIndex::new(-1 - n as i32)).is_none(), 1) }
        Err(_) => h::reach(2),
    }
}
/// a package with something in every section
fn full(o: i32, u: i32, split: bool) -> Pkg {
    let mut p = Pkg::new(o, u, split);
    p.custom = if o >= 300 { vec![([3; 16], 2)] } else { vec![] };
    if o >= 384 { p.soft = Some(vec![Some("xyz".to_string())]) }
    p.exports.push(Exp::new(-1, 1, Enc::new().name(0, 0).i32(0).i32(9).0));
    p.depends = Some(vec![vec![1], vec![]]);
    if split { p.exports[0].deps = [vec![-1], vec![], vec![2], vec![]] }
    p.generations = vec![(2, 5)];
    p
}
fn version() -> (i32, i32) { [(335, 0), (459, 0), (508, 0), (522, 0), (522, 1009)][h::choice(5) as usize] }
fn put(a: &mut [u8], b: &mut Option<Vec<u8>>, at: usize, v: u8) { let n = a.len(); if at < n { a[at] = v } else { b.as_mut().unwrap()[at - n] = v } }
/// where the offset set by `f` is stored in the summary
fn field(p: &Pkg, f: fn(&mut Layout)) -> Option<usize> { let (_, _, l) = p.encode(); let mut m = l.clone(); f(&mut m); p.header(&l).iter().zip(&p.header(&m)).position(|(a, b)| a != b) }
const FIELDS: [fn(&mut Layout); 10] = [|l| l.names ^= 1, |l| l.imports ^= 1, |l| l.exports ^= 1, |l| l.depends ^= 1, |l| l.soft ^= 1, |l| l.registry ^= 1, |l| l.tile ^= 1, |l| l.preload ^= 1, |l| l.header ^= 1, |l| l.bulk ^= 1];
/// positions of the fields of the summary and of the lengths of its strings
fn fields(p: &Pkg) -> (Vec<usize>, Vec<usize>) {
    let mut v = vec![];
    let mut s = vec![];
    let (a, _, l) = p.encode();
    let f = FIELDS[8];
    let folder = some(field(p, f)) + 4;
    let mut at = 0;
    // not the identifier of the custom version, it is a key of a hash set
    while at < folder { if at < folder - 24 || at >= folder - 8 { v.push(at) } at += 4 }
    s.push(at);
    at = folder + 9;
    while at < l.names {
        if p.object >= 336 && a[at..].starts_with(&[4, 0, 27, 0, 2, 0, 17, 0, 0, 0]) { v.push(at); v.push(at + 6); s.push(at + 10); at += 20 } else { v.push(at); at += 4 }
    }
    (v, s)
}
fn some<T>(o: Option<T>) -> T { h::some(o, 99) }
fn at(p: &Pkg, k: usize, v: &[u8]) {
    let (mut a, mut b, _) = p.encode();
    let t = a.len() + b.as_ref().map_or(0, |b| b.len());
    for (i, v) in v.iter().enumerate() { if k + i < t { put(&mut a, &mut b, k + i, *v) } }
    open(a, b)
}
fn any() -> Pkg { let (o, u) = version(); full(o, u, u == 0 && o >= 507) }
/// any value of any field of the summary other than offsets
fn summary() {
    let p = any();
    let (f, _) = fields(&p);
    let k = f[h::choice(f.len() as u64) as usize];
    h::assume(!FIELDS.iter().any(|f| field(&p, *f) == Some(k)));
    at(&p, k, &h::bytes::<4>())
}
fn few() -> Pkg { match h::choice(3) { 0 => full(459, 0, false), 1 => full(522, 0, true), _ => full(522, 1009, false) } }
/// any value; those inside the file are enumerated
fn inside(p: &Pkg) -> u64 {
    let (a, b, _) = p.encode();
    let n = (a.len() + b.map_or(0, |b| b.len())) as u64 + 2;
    let c = h::choice(n + 1);
    if c < n { return c }
    let v = h::u64();
    h::assume(v >= n);
    v
}
fn inside32(p: &Pkg) -> u32 { let v = inside(p); h::assume(v <= u32::MAX as u64); v as u32 }
/// any length of a string; those that can fit are enumerated
fn length(p: &Pkg) -> u32 {
    let (a, b, _) = p.encode();
    let n = (a.len() + b.map_or(0, |b| b.len())) as u64 + 2;
    let c = h::choice(n + n / 2 + 1);
    if c < n { return c as u32 }
    if c < n + n / 2 { return -((c - n + 1) as i32) as u32 }
    let v = h::i32();
    h::assume((v >= n as i32) | (v < -(n as i32 / 2)));
    v as u32
}
/// any value of any offset
fn offsets() {
    let p = few();
    let k = field(&p, FIELDS[h::choice(10) as usize]);
    if let Some(k) = k { at(&p, k, &inside32(&p).to_le_bytes()) }
}
/// positions of the stored offsets and sizes of exports
fn serial(p: &Pkg) -> Vec<usize> {
    let (_, _, l) = p.encode();
    let mut m = l.clone();
    m.serial = l.serial.iter().map(|s| s ^ 1).collect();
    let w = if p.object < 511 { 4 } else { 8 };
    let mut v = vec![];
    for (i, (a, b)) in p.export_table(&l).iter().zip(&p.export_table(&m)).enumerate() { if a != b { v.push(l.exports + i); v.push(l.exports + i - w) } }
    v
}
/// any value of any offset and size of an export
fn exports() {
    let p = few();
    let v = serial(&p);
    let k = v[h::choice(4) as usize];
    if p.object < 511 { at(&p, k, &inside32(&p).to_le_bytes()) } else { at(&p, k, &inside(&p).to_le_bytes()) }
}
/// any value of any four bytes of the tables after the names, but for offsets and sizes of exports
fn tables() {
    let p = any();
    let (_, _, l) = p.encode();
    let k = l.imports + 4 * h::choice((l.header - l.imports) as u64 / 4) as usize;
    let w = if p.object < 511 { 4 } else { 8 };
    h::assume(!serial(&p).iter().any(|s| k >= *s && k < s + w));
    at(&p, k, &h::bytes::<4>())
}
/// any four bytes of the export data
fn data() {
    let p = any();
    let (a, b, l) = p.encode();
    let t = a.len() + b.map_or(0, |b| b.len());
    let k = l.header + 4 * h::choice((t - l.header) as u64 / 4) as usize;
    at(&p, k, &h::bytes::<4>())
}
/// any length of any string
fn strings() {
    let p = few();
    let (_, mut s) = fields(&p);
    let (_, _, l) = p.encode();
    let mut k = l.names;
    for (n, _) in &p.names { s.push(k); k += 5 + n.len() + if p.object >= 504 { 4 } else { 0 } }
    let k = s[h::choice(s.len() as u64) as usize];
    at(&p, k, &length(&p).to_le_bytes())
}
/// any hash of any name
fn hashes() {
    let p = any();
    if p.object < 504 { return }
    let (_, _, l) = p.encode();
    let i = h::choice(p.names.len() as u64) as usize;
    let mut k = l.names;
    for (n, _) in &p.names[..i] { k += 9 + n.len() }
    at(&p, k + 5 + p.names[i].0.len(), &h::bytes::<4>())
}
/// cut off anywhere
fn cut() {
    let (o, u) = version();
    let p = full(o, u, o >= 507 && h::flag());
    let (mut a, b, _) = p.encode();
    match b {
        Some(mut b) => { if h::flag() { a.truncate(h::choice(a.len() as u64) as usize) } else { b.truncate(h::choice(b.len() as u64) as usize) } open(a, Some(b)) }
        None => { a.truncate(h::choice(a.len() as u64) as usize); open(a, None) }
    }
}
h::cases! { case_summary => summary, case_offsets => offsets, case_tables => tables, case_exports => exports, case_data => data, case_strings => strings, case_hashes => hashes, case_cut => cut }
