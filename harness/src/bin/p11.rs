//! P11: object references.
use harness as h;
use harness::{pkg::*, Enc};
use std::io::Cursor;
use unreal_asset::{asset_archive_writer::AssetArchiveWriter, Asset};
use unreal_asset_base::{engine_version::EngineVersion, reader::{ArchiveTrait, RawWriter}, types::{FName, PackageIndex, PackageIndexTrait}, Import};
use unreal_asset_exports::{Export, ExportBaseTrait};
type A = Asset<Cursor<Vec<u8>>>;

/// any reference; those near zero are enumerated
fn reference() -> i32 {
    let c = h::choice(14) as i32 - 6;
    if c < 7 { return c }
    let v = h::i32();
    h::assume((v > 6) | (v < -6));
    v
}
/// `n` imports and `m` exports, told apart by their outer index (1000 + i) and by their name number
fn asset(n: i32, m: i32) -> (A, Pkg) {
    let mut p = Pkg::new(522, 0, false);
    p.imports = (0..n).map(|i| Imp { pkg: (4, 0), class: (3, 0), outer: 1000 + i, name: (1 + i % 2, 10 + i), optional: 0 }).collect();
    p.exports = (0..m).map(|i| { let mut e = Exp::new(0, 1, Enc::new().name(0, 0).i32(0).0); e.outer = 2000 + i; e }).collect();
    p.depends = Some(vec![vec![]; m as usize]);
    p.generations = vec![(m, 5)];
    let (a, b, _) = p.encode();
    (h::must(Asset::new(Cursor::new(a), b.map(Cursor::new), EngineVersion::UNKNOWN, None), 1), p)
}
/// exactly one of nothing, import, export; converting positions
fn kinds() {
    let v = h::i32();
    let r = PackageIndex::new(v);
    h::check(r.index == v, 1);
    h::check(r.is_import() == (v < 0), 2);
    h::check(r.is_export() == (v > 0), 3);
    h::stub_format(true);
    match PackageIndex::from_import(v) {
        Ok(r) => { h::check(v >= 0, 4); h::check(r.is_import() & !r.is_export(), 5); h::check(r.index as i64 == -1 - v as i64, 6) }
        Err(_) => h::check(v < 0, 7),
    }
    match PackageIndex::from_export(v) {
        Ok(r) => { h::check(v >= 0, 8); h::check(r.is_export() & !r.is_import(), 9); h::check(r.index as i64 == 1 + v as i64, 10) }
        Err(_) => h::check((v < 0) | (v == i32::MAX), 11),
    }
}
/// looking up any reference
fn lookup() {
    let (n, m) = (h::choice(4) as i32, h::choice(4) as i32);
    let (mut x, p) = asset(n, m);
    let v = reference();
    let r = PackageIndex::new(v);
    h::stub_format(true);
    let imp = x.get_import(r);
    let obj = x.get_object_name(r);
    let obj2 = x.get_object_name_packageindex(r);
    if v < 0 && v >= -n {
        let want = &p.imports[(-1 - v) as usize];
        let i = h::some(imp, 20);
        h::check(i.outer_index.index == want.outer, 21);
        h::check(i.object_name.get_number() == want.name.1, 22);
        for o in [obj, obj2] { let o = h::some(o, 23); h::check((o.get_number() == want.name.1) & o.get_content(|s| s == p.names[want.name.0 as usize].0), 24) }
        let c = h::some(x.get_export_class_type(r), 25);
        h::check(c.get_number() == want.name.1, 26)
    } else {
        h::check(imp.is_none() & obj.is_none() & obj2.is_none(), 27);
        if v < 0 { h::check(x.get_export_class_type(r).is_none(), 28) }
    }
    let e = x.get_export(r).map(|e| e.get_base_export().outer_index.index);
    let want = if v > 0 && v <= m { Some(1999 + v) } else { None };
    h::check(e == want, 29);
    let e = x.get_export_mut(r).map(|e| { e.get_base_export_mut().super_index = PackageIndex::new(77); e.get_base_export().outer_index.index });
    h::check(e == want, 30);
    for i in 0..m { let b = x.asset_data.exports[i as usize].get_base_export(); h::check((b.super_index.index == 77) == (i + 1 == v), 31) }
    h::check(x.asset_data.get_export(r).is_some() == want.is_some(), 32);
}
/// the same lookups while writing
fn writer() {
    let n = h::choice(4) as i32;
    let (x, p) = asset(n, 1);
    let v = reference();
    let r = PackageIndex::new(v);
    h::stub_format(true);
    let mut cur = Cursor::new(vec![]);
    let mut raw = RawWriter::new(&mut cur, x.asset_data.object_version, x.asset_data.object_version_ue5, false, x.get_name_map());
    let w = AssetArchiveWriter::new(&mut raw, &x.asset_data, &x.imports, x.get_name_map());
    let (i, o, o2) = (w.get_import(r), w.get_object_name(r), w.get_object_name_packageindex(r));
    if v < 0 && v >= -n {
        let want = &p.imports[(-1 - v) as usize];
        h::check(h::some(i, 40).outer_index.index == want.outer, 41);
        for o in [o, o2] { h::check(h::some(o, 42).get_number() == want.name.1, 43) }
    } else { h::check(i.is_none() & o.is_none() & o2.is_none(), 44) }
}
/// every position of the tables converts to a reference which yields the entry; added imports resolve
fn positions() {
    let (n, m) = (h::choice(4) as i32, h::choice(4) as i32);
    let (mut x, p) = asset(n, m);
    for i in 0..n { h::check(h::some(x.get_import(h::must(PackageIndex::from_import(i), 50)), 51).outer_index.index == p.imports[i as usize].outer, 52) }
    for i in 0..m { h::check(h::some(x.get_export(h::must(PackageIndex::from_export(i), 53)), 54).get_base_export().outer_index.index == p.exports[i as usize].outer, 55) }
    let nm = x.get_name_map();
    let outer = h::i32();
    let mut refs = vec![];
    for k in 0..1 + h::choice(3) as i32 {
        let f = |i: i32, k: i32| FName::new(i, k, nm.clone());
        let r = x.add_import(Import::new(f(4, 0), f(3, 0), PackageIndex::new(outer), f(2, 30 + k), false));
        refs.push((r, 30 + k));
    }
    for (r, k) in &refs {
        h::check(r.is_import(), 56);
        let i = h::some(x.get_import(*r), 57);
        h::check((i.object_name.get_number() == *k) & (i.outer_index.index == outer), 58);
        h::check(h::some(x.get_object_name(*r), 59).get_number() == *k, 59)
    }
    for i in 0..n { h::check(h::some(x.get_import(PackageIndex::new(-1 - i)), 60).object_name.get_number() == 10 + i, 60) }
}
/// finding imports by their contents
fn find() {
    let mut p = Pkg::new(522, 0, false);
    let n = h::choice(4) as i32;
    let (cp, cn, on, out) = (3 + h::choice(2) as i32, 3 + h::choice(2) as i32, 1 + h::choice(2) as i32, h::i32());
    p.imports = (0..n).map(|i| Imp { pkg: (3 + h::choice(2) as i32, 0), class: (3 + (i & 1), 0), outer: h::i32(), name: (1 + h::choice(2) as i32, 0), optional: 0 }).collect();
    p.exports[0].class = 0;
    let (a, b, _) = p.encode();
    let x: A = h::must(Asset::new(Cursor::new(a), b.map(Cursor::new), EngineVersion::UNKNOWN, None), 1);
    let nm = x.get_name_map();
    let f = |i: i32| FName::new(i, 0, nm.clone());
    let same = |i: &Imp| i.pkg.0 == cp && i.class.0 == cn && i.name.0 == on;
    match x.find_import_no_index(&f(cp), &f(cn), &f(on)) {
        Some(r) => { h::check((r < 0) & (r >= -n), 70); h::check(same(&p.imports[(-1 - r) as usize]), 71) }
        None => h::check(!p.imports.iter().any(|i| same(i)), 72),
    }
    match x.find_import(&f(cp), &f(cn), PackageIndex::new(out), &f(on)) {
        Some(r) => { h::check((r < 0) & (r >= -n), 73); let i = &p.imports[(-1 - r) as usize]; h::check(same(i), 74); h::check(i.outer == out, 75) }
        None => for i in &p.imports { if same(i) { h::check(i.outer != out, 76) } },
    }
}
/// an export's class that is an import decides how it is read; one outside the table is kept raw
fn class() {
    let n = h::choice(3) as i32;
    let mut p = Pkg::new(522, 0, false);
    p.imports = (0..n).map(|i| Imp { pkg: (4, 0), class: (3, 0), outer: 0, name: (1, i), optional: 0 }).collect();
    let v = reference();
    h::assume(v < 0);
    p.exports[0].class = v;
    let (a, b, _) = p.encode();
    h::stub_format(true);
    let x: A = h::must(Asset::new(Cursor::new(a), b.map(Cursor::new), EngineVersion::UNKNOWN, None), 80);
    h::check(x.asset_data.exports.len() == 1, 81);
    h::check(matches!(x.asset_data.exports[0], Export::NormalExport(_)) == (v >= -n), 82);
    h::check(matches!(x.asset_data.exports[0], Export::RawExport(_)) == (v < -n), 83);
    h::check(x.asset_data.exports[0].get_base_export().class_index.index == v, 84)
}
h::cases! { case_kinds => kinds, case_lookup => lookup, case_writer => writer, case_positions => positions, case_find => find, case_class => class }
