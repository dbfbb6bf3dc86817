//! P18: asset packages.
use harness as h;
use harness::{pkg::*, Enc};
use std::io::Cursor;
use unreal_asset::Asset;
use unreal_asset_base::{custom_version::{CustomVersionTrait, FFortniteMainBranchObjectVersion}, engine_version::{get_object_versions, EngineVersion}, object_version::ObjectVersion, types::{FName, PackageIndex}, Import};
use unreal_asset_exports::{Export, ExportBaseTrait, ExportNormalTrait};
type A = Asset<Cursor<Vec<u8>>>;

fn open(p: &Pkg, ev: EngineVersion) -> A {
    let (a, b, _) = p.encode();
    h::must(Asset::new(Cursor::new(a), b.map(Cursor::new), ev, None), 1)
}
/// what is written is the encoding of `p`
fn expect(x: &A, p: &Pkg) {
    let (a, b, _) = p.encode();
    let (mut oa, mut ob) = (Cursor::new(vec![]), Cursor::new(vec![]));
    h::must(x.write_data(&mut oa, if b.is_some() { Some(&mut ob) } else { None }), 2);
    h::check(oa.get_ref().len() == a.len(), 3);
    h::check(h::same(oa.get_ref(), &a), 4);
    if let Some(b) = b { h::check(ob.get_ref().len() == b.len(), 5); h::check(h::same(ob.get_ref(), &b), 6) }
}
fn is_name(f: &FName, p: &Pkg, n: (i32, i32)) -> bool { (f.get_number() == n.1) & f.get_content(|s| s == p.names[n.0 as usize].0) }
/// the parsed tables are what was stored
fn tables(x: &A, p: &Pkg) {
    let s = &x.asset_data.summary;
    h::check((s.file_licensee_version == p.licensee) & (s.package_flags.bits() == p.flags) & (s.unversioned == p.unversioned), 10);
    h::check(x.folder_name == p.folder, 11);
    h::check(x.package_guid.0 == p.guid, 12);
    h::check(i32::from(x.asset_data.object_version) == p.object, 13);
    h::check(i32::from(x.asset_data.object_version_ue5) == p.ue5, 13);
    {
        let m = x.get_name_map();
        let m = m.get_ref();
        let l = m.get_name_map_index_list();
        h::check(l.len() == p.names.len(), 14);
        for (a, b) in l.iter().zip(&p.names) { h::check(*a == b.0, 14) }
    }
    h::check(x.imports.len() == p.imports.len(), 15);
    for (a, b) in x.imports.iter().zip(&p.imports) {
        h::check(is_name(&a.class_package, p, b.pkg) & is_name(&a.class_name, p, b.class) & is_name(&a.object_name, p, b.name) & (a.outer_index.index == b.outer) & (a.optional == (p.ue5 >= 1003 && b.optional == 1)), 16);
    }
    h::check(x.asset_data.exports.len() == p.exports.len(), 17);
    for (a, b) in x.asset_data.exports.iter().zip(&p.exports) {
        let a = a.get_base_export();
        h::check(is_name(&a.object_name, p, b.name) & (a.class_index.index == b.class) & (a.super_index.index == b.sup) & (a.outer_index.index == b.outer) & (a.object_flags.bits() == b.flags) & (a.package_flags == b.pflags), 18);
        h::check((a.serial_size == b.data.len() as i64) & (a.template_index.index == if p.object >= 508 { b.template } else { 0 }), 19);
        h::check((a.forced_export == (b.b[0] == 1)) & (a.not_for_client == (b.b[1] == 1)) & (a.not_for_server == (b.b[2] == 1)), 20);
        if p.ue5 < 1005 { h::check(h::same(&a.package_guid.0, &b.guid), 21) }
        h::check((a.is_inherited_instance == (p.ue5 >= 1006 && b.inherited == 1)) & (a.not_always_loaded_for_editor_game == (p.object >= 365 && b.not_editor == 1)) & (a.is_asset == (p.object >= 485 && b.asset == 1)) & (a.generate_public_hash == (p.ue5 >= 1003 && b.public == 1)), 22);
        let l = [&a.serialization_before_serialization_dependencies, &a.create_before_serialization_dependencies, &a.serialization_before_create_dependencies, &a.create_before_create_dependencies];
        for (a, b) in l.iter().zip(&b.deps) { h::check(a.len() == b.len(), 23); for (a, b) in a.iter().zip(b) { h::check(a.index == *b, 24) } }
    }
    h::check(x.generations.len() == p.generations.len(), 25);
    for (a, b) in x.generations.iter().zip(&p.generations) { h::check((a.export_count == b.0) & (a.name_count == b.1), 25) }
}
fn round(p: &Pkg, ev: EngineVersion) { let x = open(p, ev); tables(&x, p); expect(&x, p) }
fn free(p: &Pkg) { round(p, EngineVersion::UNKNOWN) }
/// both sides of every version threshold of the package format
const VERSIONS: [(i32, i32); 33] = [(223, 0), (224, 0), (277, 0), (278, 0), (325, 0), (326, 0), (335, 0), (336, 0), (364, 0), (365, 0), (383, 0), (384, 0), (443, 0), (444, 0), (458, 0), (459, 0), (484, 0), (485, 0), (503, 0), (504, 0), (506, 0), (507, 0), (508, 0), (510, 0), (511, 0), (522, 0),
    (522, 1000), (522, 1001), (522, 1002), (522, 1003), (522, 1004), (522, 1005), (522, 1006)];
const LATE: [(i32, i32); 3] = [(522, 1007), (522, 1008), (522, 1009)];
fn all_versions() -> (i32, i32) { let k = h::choice(36) as usize; if k < 33 { VERSIONS[k] } else { LATE[k - 33] } }
fn some_version() -> (i32, i32) { [(335, 0), (459, 0), (508, 0), (522, 0), (522, 1009)][h::choice(5) as usize] }
fn bit() -> u32 { let v = h::u32(); h::assume(v <= 1); v }

/// every scalar of the summary
fn summary() {
    let (o, u) = all_versions();
    let mut p = Pkg::new(o, u, h::flag());
    if !p.split || o >= 507 { } else { h::assume(o >= 507) }
    p.licensee = h::i32();
    p.flags = h::u32();
    let allowed = 0xF077_67F7u32 & !0x0000_2000;
    h::assume(p.flags & !allowed == 0);
    p.soft_paths = (h::i32(), h::i32());
    p.gather = (h::i32(), h::i32());
    p.searchable = h::i32();
    p.thumb = h::i32();
    p.guid = h::bytes();
    p.compression = h::u32();
    p.source = h::u32();
    p.name_refs = h::i32();
    p.toc = h::i64();
    p.resource = h::i32();
    let v = || Ver { n: [h::u16(), h::u16(), h::u16()], build: h::u32(), branch: [None, Some("++UE5+Release".to_string())][h::choice(2) as usize].clone() };
    p.recorded = v();
    p.compatible = v();
    free(&p)
}
/// lists of the summary
fn lists() {
    let (o, u) = some_version();
    let mut p = Pkg::new(o, u, o >= 507 && h::flag());
    let n = h::choice(3);
    p.generations = vec![];
    for _ in 0..n { p.generations.push((h::i32(), h::i32())) }
    if h::flag() { p.generations.push((1, p.names.len() as i32)) } else { p.generations = vec![] }
    let n = h::choice(4);
    p.chunks = vec![];
    for _ in 0..n { p.chunks.push(h::i32()) }
    p.folder = ["None", "", "/Game/Folder"][h::choice(3) as usize].to_string();
    free(&p)
}
/// a package with one chunk id
fn chunk() { let mut p = Pkg::new([278, 325][h::choice(2) as usize], 0, false); p.chunks = vec![h::i32()]; free(&p) }
/// custom versions, with and without an engine version supplied by the user
fn custom() {
    let ev = [EngineVersion::UNKNOWN, EngineVersion::VER_UE4_27, EngineVersion::VER_UE4_18][h::choice(3) as usize];
    let mut p = Pkg::new(if ev == EngineVersion::VER_UE4_18 { 514 } else { 522 }, 0, h::flag());
    let g = [FFortniteMainBranchObjectVersion::GUID.0, [9; 16], [3; 16]];
    let n = h::choice(4) as usize;
    for k in 0..n { p.custom.push((g[k], h::i32())) }
    p.legacy = -6 - h::choice(2) as i32;
    let x = open(&p, ev);
    let l = &x.asset_data.summary.custom_versions;
    for (k, (g, v)) in p.custom.iter().enumerate() { h::check((l[k].guid.0 == *g) & (l[k].version == *v), 30) }
    tables(&x, &p);
    expect(&x, &p)
}
/// file versions of the summary itself, stored or absent versions
fn legacy() {
    match h::choice(3) {
        0 => { let mut p = Pkg::new([400, 522][h::choice(2) as usize], 0, false); p.legacy = [-2, -3, -4, -5, -6, -7, -8][h::choice(7) as usize]; free(&p) }
        1 => {
            // unversioned packages take the versions of the engine the user names
            let ev = [EngineVersion::VER_UE4_0, EngineVersion::VER_UE4_10, EngineVersion::VER_UE4_14, EngineVersion::VER_UE4_15, EngineVersion::VER_UE4_20, EngineVersion::VER_UE4_25, EngineVersion::VER_UE4_27, EngineVersion::VER_UE5_0, EngineVersion::VER_UE5_1, EngineVersion::VER_UE5_2][h::choice(10) as usize];
            let (o, u) = get_object_versions(ev);
            let o = i32::from(o);
            let mut p = Pkg::new(o, i32::from(u), o >= 507 && h::flag());
            p.unversioned = true;
            round(&p, ev)
        }
        _ => { let mut p = Pkg::new(522, 0, false); p.unversioned = true; let (a, _, _) = p.encode(); h::check(Asset::new(Cursor::new(a), None, EngineVersion::UNKNOWN, None).is_err(), 31) }
    }
}
fn hash(s: &str) -> u32 { unreal_asset_base::crc::generate_hash(s) }
/// the name table
fn names() {
    let (o, u) = some_version();
    let mut p = Pkg::new(o, u, o >= 507 && h::flag());
    match h::choice(4) {
        0 => p.names[2].1 = h::u32(),
        1 => { p.names.push(("A".to_string(), hash("A"))); p.names.push(("Longer name_2".to_string(), hash("Longer name_2"))) }
        2 => { p.names[0].1 = 0; p.names[3].1 = 0 }
        _ => { p.names[2].0 = "/Game/\u{e9}\u{4e2d}".to_string(); p.names[2].1 = h::u32() }
    }
    if o < 504 { for n in p.names.iter_mut() { n.1 = 0 } }
    let n = p.names.len() as i32;
    p.generations = vec![(1, n)];
    p.name_refs = n;
    free(&p)
}
fn imp(k: i32) -> Imp { Imp { pkg: (4, h::i32()), class: (3, h::i32()), outer: h::i32(), name: ([1, 2, 1][k as usize], h::i32()), optional: bit() } }
/// the import table
fn imports() {
    let (o, u) = all_versions();
    let mut p = Pkg::new(o, u, o >= 507 && h::flag());
    let n = h::choice(3) as i32;
    p.imports[0] = imp(0);
    for k in 0..n { p.imports.push(imp(k)) }
    let mut x = open(&p, EngineVersion::UNKNOWN);
    tables(&x, &p);
    expect(&x, &p);
    // an added import is found again and written
    let i = imp(1);
    let nm = x.get_name_map();
    let f = |n: (i32, i32)| FName::new(n.0, n.1, nm.clone());
    let r = x.add_import(Import::new(f(i.pkg), f(i.class), PackageIndex::new(i.outer), f(i.name), i.optional == 1));
    p.imports.push(i);
    h::check(r.index == -(p.imports.len() as i32), 32);
    expect(&x, &p)
}
/// no imports or no exports
fn none() {
    let (o, u) = some_version();
    let mut p = Pkg::new(o, u, o >= 507 && h::flag());
    match h::choice(2) {
        0 => { p.exports = vec![]; p.depends = Some(vec![]); p.generations = vec![(0, p.names.len() as i32)]; if h::flag() { p.imports = vec![] } }
        _ => { p.imports = vec![]; p.exports[0].class = 0 }
    }
    free(&p)
}
/// property list end, padding, then `n` arbitrary bytes
fn body(n: usize) -> Vec<u8> { Enc::new().name(0, 0).any(n).0 }
fn exp(p: &Pkg, body: Vec<u8>) -> Exp {
    let mut e = Exp::new(-1, 2, body);
    (e.sup, e.template, e.outer, e.name.1) = (h::i32(), h::i32(), h::i32(), h::i32());
    e.flags = h::u32();
    h::assume(e.flags < 0x2000_0000);
    e.b = [bit(), bit(), bit()];
    e.guid = h::bytes();
    (e.inherited, e.not_editor, e.asset, e.public) = (bit(), bit(), bit(), bit());
    e.pflags = h::u32();
    let _ = p;
    e
}
/// every field of the export table
fn exports() {
    let (o, u) = all_versions();
    let mut p = Pkg::new(o, u, o >= 507 && h::flag());
    let e = exp(&p, body(3));
    p.exports[0] = e;
    let x = open(&p, EngineVersion::UNKNOWN);
    tables(&x, &p);
    h::check(matches!(&x.asset_data.exports[0], Export::NormalExport(e) if e.properties.is_empty() && h::same(&e.extras, &p.exports[0].data[8..])), 33);
    expect(&x, &p)
}
/// several exports, their dependencies and contents
fn several() {
    let (o, u) = [(335, 0), (507, 0), (508, 0), (522, 0), (522, 1009)][h::choice(5) as usize];
    let mut p = Pkg::new(o, u, o >= 507 && h::flag());
    let n = 1 + h::choice(3) as usize;
    p.exports = vec![];
    for k in 0..n {
        let mut e = Exp::new(-1, [2, 1, 2][k], body([0, 5, 2][(k + h::choice(2) as usize) % 3]));
        e.outer = h::i32();
        if p.split { for (j, d) in e.deps.iter_mut().enumerate() { for _ in 0..[[1, 0, 2, 1], [0, 2, 0, 1], [1, 1, 1, 0]][k][j] { d.push(h::i32()) } } }
        p.exports.push(e)
    }
    let mut d = vec![];
    for k in 0..n { let mut l = vec![]; for _ in 0..(k + 1) % 3 { l.push(h::i32()) } d.push(l) }
    p.depends = Some(d);
    p.generations = vec![(n as i32, p.names.len() as i32)];
    free(&p);
    // after edits, offsets, sizes and counts follow the data
    let mut x = open(&p, EngineVersion::UNKNOWN);
    let k = h::choice(n as u64) as usize;
    match h::choice(3) {
        0 => { let b = h::bytes::<6>(); h::some(x.asset_data.exports[k].get_normal_export_mut(), 34).extras = b.to_vec(); p.exports[k].data = Enc::new().name(0, 0).raw(&b).0 }
        1 => { let nm = x.add_fname("Added"); h::check(nm.get_number() == 0, 35); p.names.push(("Added".to_string(), hash("Added"))); p.name_refs = p.names.len() as i32 - 1; p.generations[0].1 += 1 }
        _ => {
            let e = x.asset_data.exports.remove(n - 1);
            p.exports.pop();
            if let Some(d) = p.depends.as_mut() { d.pop(); }
            let b = e.get_base_export();
            h::check(b.outer_index.index >= i32::MIN, 36);
            p.generations[0].0 -= 1;
        }
    }
    expect(&x, &p)
}
/// contents that do not parse are kept as they are
fn raw_body() {
    let (o, u) = some_version();
    let mut p = Pkg::new(o, u, o >= 507 && h::flag());
    let i = h::i32();
    h::assume(i < 0 || i > 4);
    p.exports[0].data = Enc::new().i32(i).any(9).0;
    p.exports.push(Exp::new(-1, 1, body(2)));
    p.depends = Some(vec![vec![], vec![]]);
    p.generations[0].0 = 2;
    let x = open(&p, EngineVersion::UNKNOWN);
    h::check(matches!(&x.asset_data.exports[0], Export::RawExport(e) if h::same(&e.data, &p.exports[0].data)), 37);
    tables(&x, &p);
    expect(&x, &p)
}
/// depends, soft references, asset registry
fn sections() {
    let (o, u) = [(335, 0), (459, 0), (522, 0), (522, 1009)][h::choice(4) as usize];
    let mut p = Pkg::new(o, u, o >= 507 && h::flag());
    if h::flag() { p.depends = None }
    if o >= 384 && h::flag() {
        let n = h::choice(4) as usize;
        let mut l = vec![];
        for k in 0..n { l.push(match (k + h::choice(2) as usize) % 3 { 0 => Some(h::ascii(2)), 1 => None, _ => Some("/Game/Thing".to_string()) }) }
        p.soft = Some(l)
    }
    p.registry = h::flag();
    free(&p)
}
/// world composition data
fn tile() {
    let at = |v: ObjectVersion| i32::from(v);
    let marks = [at(ObjectVersion::VER_UE4_WORLD_LEVEL_INFO), at(ObjectVersion::VER_UE4_WORLD_LEVEL_INFO_UPDATED), at(ObjectVersion::VER_UE4_WORLD_LEVEL_INFO_LOD_LIST), at(ObjectVersion::VER_UE4_WORLD_LEVEL_INFO_ZORDER), at(ObjectVersion::VER_UE4_WORLD_LAYER_ENABLE_DISTANCE_STREAMING)];
    let k = h::choice(7) as usize;
    let (o, u) = if k < 5 { (marks[k], 0) } else { (522, [0, 1004][k - 5]) };
    let mut p = Pkg::new(o, u, o >= 507 && h::flag());
    let three = h::flag();
    if three { p.custom.push((FFortniteMainBranchObjectVersion::GUID.0, FFortniteMainBranchObjectVersion::WorldCompositionTile3DOffset as i32)) }
    else if h::flag() { p.custom.push((FFortniteMainBranchObjectVersion::GUID.0, FFortniteMainBranchObjectVersion::WorldCompositionTile3DOffset as i32 - 1)) }
    let text = |e: Enc| match h::choice(3) { 0 => e.i32(0), 1 => e.str(""), _ => { let s = h::ascii(2); e.str(&s) } };
    let mut e = Enc::new().any(if three { 12 } else { 8 });
    for _ in 0..6 { if u >= 1004 { e = e.any(8) } else { let x = h::u32(); h::assume(!((x & 0x7f80_0000 == 0x7f80_0000) & (x & 0x7f_ffff != 0))); e = e.u32(x) } }
    e = e.u8(bit() as u8);
    e = text(e).any(12);
    if o >= marks[1] { e = e.any(4) }
    if o >= marks[4] { e = e.u32(bit()) }
    if o >= marks[1] { e = text(e.u32(bit())) }
    if o >= marks[2] { let n = h::choice(3); e = e.i32(n as i32).any(20 * n as usize) }
    if o >= marks[3] { e = e.any(4) }
    p.tile = Some(e.0);
    free(&p)
}
/// the two files must be asked for together
fn mismatch() {
    let split = h::flag();
    let p = Pkg::new(522, 0, split);
    let x = open(&p, EngineVersion::UNKNOWN);
    let (mut oa, mut ob) = (Cursor::new(vec![]), Cursor::new(vec![]));
    h::check(x.write_data(&mut oa, if split { None } else { Some(&mut ob) }).is_err(), 38);
}
h::cases! {
    case_summary => summary, case_lists => lists, case_chunk => chunk, case_custom => custom, case_legacy => legacy, case_names => names, case_imports => imports, case_none => none, case_exports => exports, case_several => several, case_raw => raw_body, case_sections => sections, case_tile => tile, case_mismatch => mismatch,
}
