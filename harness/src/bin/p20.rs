//! P20: typed exports.
use harness as h;
use harness::{pkg::*, Enc};
use std::io::Cursor;
use unreal_asset::Asset;
use unreal_asset_base::{custom_version::{CustomVersionTrait, FCoreObjectVersion, FFrameworkObjectVersion, FReleaseObjectVersion}, engine_version::EngineVersion, types::FName};
use unreal_asset_exports::{properties::{fproperty::*, uproperty::*}, struct_export::StructExport, Export, ExportBaseTrait, ExportNormalTrait};
use unreal_asset_base::types::PackageIndex;
use unreal_asset_properties::Property;
type A = Asset<Cursor<Vec<u8>>>;

/// a package with one export of the given class
fn pkg(class: &str, object: i32, core: i32, framework: i32, release: i32) -> Pkg {
    let mut p = Pkg::new(object, 0, object >= 507 && h::flag());
    p.custom = vec![(FCoreObjectVersion::GUID.0, core), (FFrameworkObjectVersion::GUID.0, framework), (FReleaseObjectVersion::GUID.0, release)];
    let c = add(&mut p, class);
    p.imports[0].name = (c, 0);
    p
}
fn add(p: &mut Pkg, s: &str) -> i32 {
    if let Some(i) = p.names.iter().position(|n| n.0 == s) { return i as i32 }
    let hash = if p.object >= 504 { unreal_asset_base::crc::generate_hash(s) } else { 0 };
    p.names.push((s.to_string(), hash));
    let n = p.names.len() as i32;
    p.generations = vec![(1, n)];
    p.name_refs = n;
    n - 1
}
/// what the user says the engine is
fn engine(p: &Pkg) -> EngineVersion { match p.object { 513 => EngineVersion::VER_UE4_17, 522 => EngineVersion::VER_UE4_27, _ => EngineVersion::UNKNOWN } }
fn open(p: &Pkg) -> A {
    let (a, b, _) = p.encode();
    h::must(Asset::new(Cursor::new(a), b.map(Cursor::new), engine(p), None), 1)
}
fn written(x: &A, p: &Pkg) {
    let (a, b, _) = p.encode();
    let (mut oa, mut ob) = (Cursor::new(vec![]), Cursor::new(vec![]));
    h::must(x.write_data(&mut oa, if b.is_some() { Some(&mut ob) } else { None }), 2);
    h::check(oa.get_ref().len() == a.len(), 3);
    h::check(h::same(oa.get_ref(), &a), 4);
    if let Some(b) = &b { h::check(ob.get_ref().len() == b.len(), 5); h::check(h::same(ob.get_ref(), b), 6) }
    // reading again gives an equal export
    let (a, b) = (oa.into_inner(), if b.is_some() { Some(ob.into_inner()) } else { None });
    let y: A = h::must(Asset::new(Cursor::new(a), b.map(Cursor::new), engine(p), None), 7);
    h::check(y.asset_data.exports.len() == 1, 8);
    h::check(std::mem::discriminant(&y.asset_data.exports[0]) == std::mem::discriminant(&x.asset_data.exports[0]), 9)
}
/// parse and write; the export is stored as `body` plus `extra` bytes that are not interpreted
fn go(mut p: Pkg, body: Enc, extra: usize, f: impl Fn(&Export<PackageIndex>)) {
    let body = body.any(extra);
    p.exports[0].data = body.0;
    let x = open(&p);
    let e = &x.asset_data.exports[0];
    if let Some(n) = e.get_normal_export() {
        h::check(n.extras.len() == extra, 10);
        let d = &p.exports[0].data;
        h::check(h::same(&n.extras, &d[d.len() - extra..]), 11)
    }
    h::check(e.get_base_export().serial_size as usize == p.exports[0].data.len(), 12);
    f(e);
    written(&x, &p);
    #[cfg(feature = "moved")]
    moved(&p, &x, &f)
}
/// the export of one package put into another with a name table of its own
#[cfg(feature = "moved")]
fn moved(p: &Pkg, x: &A, f: &dyn Fn(&Export<PackageIndex>)) {
    let mut q = p.clone();
    // names in reverse order behind one of its own, some missing
    let keep: Vec<usize> = (0..p.names.len()).rev().filter(|i| p.imports.iter().any(|m| [m.pkg.0, m.class.0, m.name.0].contains(&(*i as i32))) || *i < 3).collect();
    let hash = |s: &str| if p.object >= 504 { unreal_asset_base::crc::generate_hash(s) } else { 0 };
    q.names = vec![("Other".to_string(), hash("Other"))];
    for i in &keep { q.names.push(p.names[*i].clone()) }
    let at = |i: i32| 1 + keep.iter().position(|k| *k == i as usize).unwrap_or(0) as i32;
    for m in q.imports.iter_mut() { for n in [&mut m.pkg, &mut m.class, &mut m.name] { n.0 = at(n.0) } }
    let n = q.names.len() as i32;
    q.generations = vec![(1, n)];
    q.name_refs = n;
    let none = Enc::new().name(at(0), 0).i32(0).0;
    q.exports = vec![Exp::new(0, at(1), none)];
    let mut y = open(&q);
    h::check(y.asset_data.exports.len() == 1, 700);
    let before: Vec<String> = y.get_name_map().get_ref().get_name_map_index_list().to_vec();
    y.asset_data.exports[0] = x.asset_data.exports[0].clone();
    y.rebuild_name_map();
    {
        let m = y.get_name_map();
        let m = m.get_ref();
        let l = m.get_name_map_index_list();
        h::check(l.len() >= before.len() && l[..before.len()] == before[..], 701);
    }
    let again = |a: &A| -> A {
        let (mut oa, mut ob) = (Cursor::new(vec![]), Cursor::new(vec![]));
        h::must(a.write_data(&mut oa, if p.split { Some(&mut ob) } else { None }), 702);
        h::must(Asset::new(Cursor::new(oa.into_inner()), if p.split { Some(Cursor::new(ob.into_inner())) } else { None }, engine(p), None), 703)
    };
    let z = again(&y);
    h::check(z.asset_data.exports.len() == 1 && z.imports.len() == p.imports.len(), 704);
    for (a, b) in z.imports.iter().zip(&p.imports) { h::check(is(&a.class_package, b.pkg, &p.names) & is(&a.class_name, b.class, &p.names) & is(&a.object_name, b.name, &p.names), 705) }
    let (a, b) = (&x.asset_data.exports[0], &z.asset_data.exports[0]);
    h::check(is(&b.get_base_export().object_name, p.exports[0].name, &p.names), 706);
    h::check(std::mem::discriminant(a) == std::mem::discriminant(b), 707);
    f(b);
    // the source is not disturbed
    f(a);
    // moved back, it is what it was
    let mut back = open(p);
    back.asset_data.exports[0] = b.clone();
    back.rebuild_name_map();
    let (ea, eb, _) = p.encode();
    let (mut oa, mut ob) = (Cursor::new(vec![]), Cursor::new(vec![]));
    h::must(back.write_data(&mut oa, if p.split { Some(&mut ob) } else { None }), 708);
    h::check(oa.get_ref().len() == ea.len() && h::same(oa.get_ref(), &ea), 709);
    if let Some(eb) = eb { h::check(ob.get_ref().len() == eb.len() && h::same(ob.get_ref(), &eb), 710) }
}
fn extra() -> usize { [0, 3][h::choice(2) as usize] }
fn is(f: &FName, n: (i32, i32), p: &[(String, u32)]) -> bool { (f.get_number() == n.1) & f.get_content(|s| s == p[n.0 as usize].0) }
/// no properties, or one integer property with any value
fn props(p: &mut Pkg) -> Enc {
    let e = Enc::new();
    if h::flag() {
        let t = add(p, "IntProperty");
        let e = e.name(1, h::i32()).name(t, 0).i32(4).i32(0);
        let e = if p.object >= 503 { e.u8(0) } else { e };
        e.i32(h::i32()).name(0, 0)
    } else { e.name(0, 0) }
}
fn text(e: Enc) -> (Enc, Option<String>) { if h::flag() { let s = h::ascii(2); (e.str(&s), Some(s)) } else { (e.i32(0), None) } }
fn same_text(a: &Option<String>, b: &Option<String>) -> bool { match (a, b) { (Some(a), Some(b)) => h::same(a.as_bytes(), b.as_bytes()), (None, None) => true, _ => false } }
fn ints(e: Enc, n: usize) -> (Enc, Vec<i32>) { let mut e = e.i32(n as i32); let mut v = vec![]; for _ in 0..n { let x = h::i32(); v.push(x); e = e.i32(x) } (e, v) }
fn list(e: Enc) -> (Enc, Vec<i32>) { let n = h::choice(3) as usize; ints(e, n) }
fn eq(a: &[PackageIndex], b: &[i32]) { h::check(a.len() == b.len(), 20); for (a, b) in a.iter().zip(b) { h::check(a.index == *b, 21) } }
fn some_object() -> i32 { [459, 522][h::choice(2) as usize] }

fn normal() {
    let mut p = pkg("Thing", some_object(), 4, 35, 30);
    let b = props(&mut p);
    go(p, b, [0, 1, 4, 9][h::choice(4) as usize], |e| h::check(matches!(e, Export::NormalExport(_)), 22))
}
fn level() {
    let mut p = pkg("Level", some_object(), 4, 35, 30);
    let b = props(&mut p).i32(0);
    let (b, actors) = list(b);
    let (b, t0) = text(b);
    let (b, t1) = text(b);
    let (b, t2) = if t0.is_some() { text(b) } else { (b.str("m"), Some("m".to_string())) };
    let (b, t3) = (b.str("po"), Some("po".to_string()));
    let n = h::choice(3);
    let mut b = b.i32(n as i32);
    let mut opts = vec![];
    for _ in 0..n { let (c, t) = text(b); b = c; opts.push(t) }
    let (port, valid, model) = (h::i32(), h::i32(), h::i32());
    let (b, comps) = ints(b.i32(port).i32(valid).i32(model), (n as usize + actors.len()) % 3);
    let (ls, ns, ne) = (h::i32(), h::i32(), h::i32());
    let x = extra();
    go(p, b.i32(ls).i32(ns).i32(ne), x, move |e| match e {
        Export::LevelExport(l) => {
            eq(&l.actors, &actors);
            h::check(same_text(&l.url.protocol, &t0) & same_text(&l.url.host, &t1) & same_text(&l.url.map, &t2) & same_text(&l.url.portal, &t3), 23);
            h::check(l.url.options.len() == opts.len(), 24);
            for (a, b) in l.url.options.iter().zip(&opts) { h::check(same_text(a, b), 24) }
            h::check((l.url.port == port) & (l.url.valid == valid) & (l.model.index == model), 25);
            eq(&l.model_components, &comps);
            h::check((l.level_script.index == ls) & (l.nav_list_start.index == ns) & (l.nav_list_end.index == ne), 26)
        }
        _ => h::check(false, 27),
    })
}
fn world() {
    let mut p = pkg("World", some_object(), 4, 35, 30);
    let pl = h::i32();
    let b = props(&mut p).i32(0).i32(pl);
    let (b, eo) = list(b);
    let (b, sl) = list(b);
    let x = extra();
    go(p, b, x, |e| match e { Export::WorldExport(w) => { h::check(w.persistent_level.index == pl, 28); eq(&w.extra_objects, &eo); eq(&w.streaming_levels, &sl) } _ => h::check(false, 29) })
}
fn enums() {
    let object = [389, 390, 462, 463, 522][h::choice(5) as usize];
    let core = 1 + h::choice(2) as i32;
    let mut p = pkg(["Enum", "UserDefinedEnum"][h::choice(2) as usize], object, core, 35, 30);
    let n = h::choice(4);
    let mut b = props(&mut p).i32(0).i32(n as i32);
    let mut v = vec![];
    for i in 0..n as i64 {
        let nm = (1 + (i as i32 & 1), h::i32());
        b = b.name(nm.0, nm.1);
        let k = if object < 463 { i } else if core < 2 { let k = h::u8(); b = b.u8(k); k as i64 } else { let k = h::i64(); b = b.i64(k); k };
        v.push((nm, k))
    }
    let form = if object < 390 { let f = h::choice(2) as u8; b = b.i32(f as i32); f } else { let f = h::choice(3) as u8; b = b.u8(f); f };
    let names = p.names.clone();
    let x = extra();
    go(p, b, x, |e| match e {
        Export::EnumExport(e) => {
            h::check(e.value.names.len() == v.len(), 30);
            for (a, b) in e.value.names.iter().zip(&v) { h::check(is(&a.0, b.0, &names) & (a.1 == b.1), 31) }
            h::check(u8::from(e.value.cpp_form) == form, 32)
        }
        _ => h::check(false, 33),
    })
}
fn string_table() {
    let mut p = pkg(["StringTable", "MyStringTable"][h::choice(2) as usize], some_object(), 4, 35, 30);
    let (b, ns) = text(props(&mut p).i32(0));
    let n = h::choice(3) as usize;
    let mut b = b.i32(n as i32);
    let mut v = vec![];
    for k in ["key", "other"].iter().take(n) { let t = h::ascii(2); b = b.str(k).str(&t); v.push((*k, t)) }
    let x = extra();
    go(p, b, x, |e| match e {
        Export::StringTableExport(s) => {
            h::check(same_text(&s.namespace, &ns), 34);
            h::check(s.table.len() == v.len(), 35);
            for ((_, k, t), w) in s.table.iter().zip(&v) { h::check(k == w.0 && h::same(t.as_bytes(), w.1.as_bytes()), 36) }
        }
        _ => h::check(false, 37),
    })
}
fn int_prop(p: &mut Pkg, name: i32, v: i32) -> Enc {
    let t = add(p, "IntProperty");
    let e = Enc::new().name(name, 0).name(t, 0).i32(4).i32(0);
    (if p.object >= 503 { e.u8(0) } else { e }).i32(v)
}
fn data_table() {
    let mut p = pkg(["DataTable", "CompositeDataTable"][h::choice(2) as usize], some_object(), 4, 35, 30);
    let (rs, op) = (add(&mut p, "RowStruct"), add(&mut p, "ObjectProperty"));
    let kind = h::choice(4);
    let st = add(&mut p, if kind == 2 { "Guid" } else { "MyStruct" });
    p.imports.push(Imp { pkg: (4, 0), class: (3, 0), outer: 0, name: (st, 0), optional: 0 });
    let mut b = Enc::new();
    if kind > 0 {
        b = b.name(rs, 0).name(op, 0).i32(4).i32(0);
        if p.object >= 503 { b = b.u8(0) }
        b = b.i32(if kind == 3 { [0, 1, -9][h::choice(3) as usize] } else { -2 })
    }
    b = b.name(0, 0).i32(0);
    let n = h::choice(3);
    b = b.i32(n as i32);
    let mut v = vec![];
    for i in 0..n as i32 {
        let row = (1 + i, h::i32());
        b = b.name(row.0, row.1);
        if kind == 2 { let g = h::bytes::<16>(); b = b.raw(&g); v.push((row, 0, Some(g))) } else { let k = h::i32(); b = b.raw(&int_prop(&mut p, 2, k).0).name(0, 0); v.push((row, k, None)) }
    }
    let names = p.names.clone();
    let x = extra();
    go(p, b, x, |e| match e {
        Export::DataTableExport(d) => {
            h::check(d.table.data.len() == v.len(), 38);
            for (a, w) in d.table.data.iter().zip(&v) {
                h::check(is(&a.name, w.0, &names), 39);
                h::check(a.value.len() == 1, 40);
                match (&a.value[0], w.2) { (Property::IntProperty(i), None) => h::check(i.value == w.1, 41), (Property::GuidProperty(g), Some(w)) => h::check(h::same(&g.value.0, &w), 42), _ => h::check(false, 43) }
            }
        }
        _ => h::check(false, 44),
    })
}
struct S { next: Option<i32>, sup: i32, children: Vec<i32>, mem: i32, code: Vec<u8>, parsed: bool }
/// what structs, classes and functions have in common; `fp` are their properties in new versions
fn structure(p: &mut Pkg, framework: i32, engine: bool, fp: Option<(i32, Vec<u8>)>) -> (Enc, S) {
    let mut e = props(p).i32(0);
    let next = if framework < 29 { Some(h::i32()) } else { None };
    if let Some(n) = next { e = e.i32(n) }
    let sup = h::i32();
    let (mut e, children) = list(e.i32(sup));
    if let Some((n, b)) = fp { e = e.i32(n).raw(&b) }
    // expressions with their size in memory, then what can't be parsed
    let (code, mem, parsed): (Vec<u8>, Option<i32>, bool) = match h::choice(5) {
        0 => (vec![], Some(0), true),
        1 => (vec![0x0B, 0x53], Some(2), true),
        2 => { let v = h::bytes::<4>(); (vec![0x04, 0x1D, v[0], v[1], v[2], v[3], 0x53], Some(7), true) }
        3 => (vec![0x0B, 0xFE, 1, 2], None, false),
        _ => (vec![0x0B, 0x1D, 1, 2], None, false),
    };
    let parsed = engine && parsed;
    let mem = match mem { Some(m) if parsed => m, _ => h::i32() };
    e = e.i32(mem).i32(code.len() as i32).raw(&code);
    (e, S { next, sup, children, mem, code, parsed })
}
fn check_struct(x: &StructExport<PackageIndex>, s: &S) {
    h::check(x.field.next.map(|i| i.index) == s.next, 50);
    h::check(x.super_struct.index == s.sup, 51);
    eq(&x.children, &s.children);
    h::check(x.script_bytecode_size == s.mem, 52);
    h::check(x.script_bytecode.is_some() == s.parsed, 53);
    h::check(x.script_bytecode_raw.is_some() != s.parsed, 54);
    if let Some(r) = &x.script_bytecode_raw { h::check(h::same(r, &s.code), 55) }
    if let Some(c) = &x.script_bytecode { h::check(c.len() == [0, 0, 2, 0, 0, 0, 0, 2][s.code.len()], 56) }
}
/// object version, core, framework, has properties, bytecode is parsed
fn struct_version() -> (i32, i32, i32, bool, bool) { [(459, 1, 20, false, false), (513, 3, 28, false, true), (522, 4, 29, true, true)][h::choice(3) as usize] }
fn function() {
    let (o, c, f, n, b) = struct_version();
    let mut p = pkg("Function", o, c, f, 30);
    let (e, s) = structure(&mut p, f, b, if n { Some((0, vec![])) } else { None });
    let flags = h::u32();
    let x = extra();
    go(p, e.u32(flags), x, |e| match e { Export::FunctionExport(e) => { check_struct(&e.struct_export, &s); h::check(e.function_flags.bits() == flags, 57) } _ => h::check(false, 58) })
}
fn user_struct() {
    let (o, c, f, n, b) = struct_version();
    let mut p = pkg("UserDefinedStruct", o, c, f, 30);
    let (e, s) = structure(&mut p, f, b, if n { Some((0, vec![])) } else { None });
    let flags = h::u32();
    h::assume(flags & !0x00FF_FE7E == 0);
    let v = h::i32();
    let k = h::flag();
    let mut e = e.u32(flags);
    if k { e = e.raw(&int_prop(&mut p, 2, v).0) }
    let x = extra();
    go(p, e.name(0, 0), x, |e| match e {
        Export::UserDefinedStructExport(e) => {
            check_struct(&e.struct_export, &s);
            h::check(e.flags.bits() == flags, 59);
            h::check(e.default_struct_instance.len() == k as usize, 60);
            if let Some(Property::IntProperty(i)) = e.default_struct_instance.first() { h::check(i.value == v, 61) } else { h::check(!k, 61) }
        }
        _ => h::check(false, 62),
    })
}
fn class() {
    let (o, c, f, n, b) = [(240, 1, 20, false, false), (241, 1, 20, false, false), (314, 1, 20, false, false), (315, 1, 20, false, false), (360, 1, 20, false, false), (361, 1, 20, false, false), (513, 3, 28, false, true), (522, 4, 29, true, true)][h::choice(8) as usize];
    let mut p = pkg(["BlueprintGeneratedClass", "WidgetBlueprintGeneratedClass"][h::choice(2) as usize], o, c, f, 30);
    let mut e = props(&mut p).i32(0);
    let next = if f < 29 { Some(h::i32()) } else { None };
    if let Some(n) = next { e = e.i32(n) }
    let sup = h::i32();
    let mut e = e.i32(sup).i32(0);
    if n { e = e.i32(0) }
    e = e.i32(0).i32(0);
    let s = S { next, sup, children: vec![], mem: 0, code: vec![], parsed: b };
    let k = h::choice(3) as usize;
    let (flags, within, config, by) = (h::u32(), h::i32(), (2, h::i32()), h::i32());
    e = e.i32(k as i32);
    let mut funcs = vec![];
    for i in 0..k as i32 { let (nm, v) = ((1 + i, 5), h::i32()); e = e.name(nm.0, nm.1).i32(v); funcs.push((nm, v)) }
    e = e.u32(flags).i32(within).name(config.0, config.1);
    let mut ifs = vec![];
    let m = h::choice(3) as i32;
    let mut t = Enc::new().i32(m);
    for _ in 0..m { let (a, b, c) = (h::i32(), h::i32(), h::u32()); h::assume(c <= 1); t = t.i32(a).i32(b).u32(c); ifs.push((a, b, c)) }
    e = if o < 361 { e.raw(&t.0).i32(by) } else { e.i32(by).raw(&t.0) };
    let (dep, cooked, cdo) = (h::u32(), h::u32(), h::i32());
    h::assume((dep <= 1) & (cooked <= 1));
    e = e.u32(dep).name(0, 0);
    if o >= 241 { e = e.u32(cooked) }
    let names = p.names.clone();
    let x = extra();
    go(p, e.i32(cdo), x, |e| match e {
        Export::ClassExport(c) => {
            check_struct(&c.struct_export, &s);
            h::check(c.func_map.len() == funcs.len(), 63);
            for ((_, n, i), w) in c.func_map.iter().zip(&funcs) { h::check(is(n, w.0, &names) & (i.index == w.1), 64) }
            h::check(c.class_flags.bits() == if o < 315 { flags ^ 0x200 } else { flags }, 65);
            h::check((c.class_within.index == within) & is(&c.class_config_name, config, &names) & (c.class_generated_by.index == by) & (c.class_default_object.index == cdo), 66);
            h::check(c.interfaces.len() == ifs.len(), 67);
            for (a, b) in c.interfaces.iter().zip(&ifs) { h::check((a.class.index == b.0) & (a.pointer_offset == b.1) & (a.implemented_by_k2 == (b.2 == 1)), 68) }
            h::check((c.deprecated_force_script_order == (dep == 1)) & (c.cooked == if o >= 241 { Some(cooked == 1) } else { None }), 69)
        }
        _ => h::check(false, 70),
    })
}
struct G { name: (i32, i32), flags: u32, dim: i32, size: i32, pflags: u64, rep: u16, notify: (i32, i32), cond: u8 }
fn generic(e: Enc, sym: bool) -> (Enc, G) {
    let g = if sym {
        let g = G { name: (1, h::i32()), flags: h::u32(), dim: h::choice(3) as i32, size: h::i32(), pflags: h::u64(), rep: h::u16(), notify: (2, h::i32()), cond: [0, 8, 16][h::choice(3) as usize] };
        h::assume((g.flags <= 0x1FFF_FFFF) & (g.pflags & !0xff_ffdf_fb2f_6fff == 0));
        g
    } else { G { name: (2, 7), flags: 8, dim: 1, size: 4, pflags: 1, rep: 2, notify: (0, 0), cond: 0 } };
    (e.name(g.name.0, g.name.1).u32(g.flags).i32(g.dim).i32(g.size).u64(g.pflags).u16(g.rep).name(g.notify.0, g.notify.1).u8(g.cond), g)
}
fn is_generic(a: &FGenericProperty, g: &G, names: &[(String, u32)]) { h::check(is(&a.name, g.name, names) & (a.flags.bits() == g.flags) & (i32::from(a.array_dim) == g.dim) & (a.element_size == g.size) & (a.property_flags.bits() == g.pflags) & (a.rep_index == g.rep) & is(&a.rep_notify_func, g.notify, names) & (u8::from(a.blueprint_replication_condition) == g.cond), 71) }
const SIMPLE: [&str; 9] = ["ObjectProperty", "SoftObjectProperty", "DelegateProperty", "MulticastDelegateProperty", "MulticastInlineDelegateProperty", "InterfaceProperty", "ByteProperty", "StructProperty", "ClassProperty"];
/// the properties of a struct
fn fproperties() {
    let mut p = pkg("Function", 522, 4, 29, 30);
    let int = add(&mut p, "IntProperty");
    let kind = h::choice(16);
    let ty = match kind { k @ 0..=8 => SIMPLE[k as usize], 9 => "SoftClassProperty", 10 => "ArrayProperty", 11 => "SetProperty", 12 => "MapProperty", 13 => "EnumProperty", 14 => "BoolProperty", _ => ["IntProperty", "NumericProperty", "TextProperty"][h::choice(3) as usize] };
    let t = add(&mut p, ty);
    let (mut e, g) = generic(Enc::new().name(t, 0), true);
    let (a, b) = (h::i32(), h::i32());
    let (by, bools) = (h::bytes::<4>(), if kind == 14 { [h::choice(2) as u8, h::choice(2) as u8] } else { [0; 2] });
    let inner = |e: Enc| generic(e.name(int, 0), false).0;
    e = match kind { 0..=7 => e.i32(a), 8 | 9 => e.i32(a).i32(b), 10 | 11 => inner(e), 12 => inner(inner(e)), 13 => inner(e.i32(a)), 14 => e.raw(&by).raw(&bools), _ => e };
    let (mut n, mut body) = (1, e);
    if h::flag() { n = 2; body = generic(body.name(int, 0), false).0 }
    let e = Enc::new().name(0, 0).i32(0).i32(0).i32(0).i32(n).raw(&body.0).i32(0).i32(0).u32(3);
    let names = p.names.clone();
    go(p, e, 0, |e| {
        let e = match e { Export::FunctionExport(e) => &e.struct_export.loaded_properties, _ => { h::check(false, 72); unreachable!() } };
        h::check(e.len() == n as usize, 73);
        macro_rules! one { ($p:expr, $f:ident) => {{ is_generic(&$p.generic_property, &g, &names); h::check($p.$f.index == a, 74) }} }
        let int = |x: &FProperty| matches!(x, FProperty::FGenericProperty(g) if g.serialized_type.as_ref().map_or(false, |t| t == "IntProperty") && g.name.get_number() == 7);
        match (&e[0], kind) {
            (FProperty::FObjectProperty(x), 0) => one!(x, property_class), (FProperty::FSoftObjectProperty(x), 1) => one!(x, property_class),
            (FProperty::FDelegateProperty(x), 2) => one!(x, signature_function), (FProperty::FMulticastDelegateProperty(x), 3) => one!(x, signature_function), (FProperty::FMulticastInlineDelegateProperty(x), 4) => one!(x, signature_function),
            (FProperty::FInterfaceProperty(x), 5) => one!(x, interface_class), (FProperty::FByteProperty(x), 6) => one!(x, enum_value), (FProperty::FStructProperty(x), 7) => one!(x, struct_value),
            (FProperty::FClassProperty(x), 8) => { one!(x, property_class); h::check(x.meta_class.index == b, 75) }
            (FProperty::FSoftClassProperty(x), 9) => { one!(x, property_class); h::check(x.meta_class.index == b, 75) }
            (FProperty::FArrayProperty(x), 10) => { is_generic(&x.generic_property, &g, &names); h::check(int(&x.inner), 76) }
            (FProperty::FSetProperty(x), 11) => { is_generic(&x.generic_property, &g, &names); h::check(int(&x.element_prop), 76) }
            (FProperty::FMapProperty(x), 12) => { is_generic(&x.generic_property, &g, &names); h::check(int(&x.key_prop) & int(&x.value_prop), 76) }
            (FProperty::FEnumProperty(x), 13) => { one!(x, enum_value); h::check(int(&x.underlying_prop), 76) }
            (FProperty::FBoolProperty(x), 14) => { is_generic(&x.generic_property, &g, &names); h::check([x.field_size, x.byte_offset, x.byte_mask, x.field_mask] == by && [x.native_bool as u8, x.value as u8] == bools, 77) }
            (FProperty::FNumericProperty(x), 15) => is_generic(&x.generic_property, &g, &names),
            (FProperty::FGenericProperty(x), 15) => { is_generic(x, &g, &names); h::check(x.serialized_type.as_ref().map_or(false, |t| t == ty), 78) }
            _ => h::check(false, 79),
        }
    })
}
const UNARY: [&str; 12] = ["ObjectProperty", "SoftObjectProperty", "LazyObjectProperty", "ArrayProperty", "SetProperty", "DelegateProperty", "MulticastDelegateProperty", "MulticastInlineDelegateProperty", "InterfaceProperty", "ByteProperty", "StructProperty", "ClassProperty"];
const NULLARY: [&str; 11] = ["DoubleProperty", "FloatProperty", "IntProperty", "Int8Property", "Int16Property", "Int64Property", "UInt8Property", "UInt16Property", "UInt64Property", "NameProperty", "StrProperty"];
/// properties that are exports
fn uproperty() {
    let (fw, rel) = [(28, 20), (28, 21), (29, 21)][h::choice(3) as usize];
    let kind = h::choice(17);
    let nul = if kind == 16 { h::choice(12) as usize } else { 0 };
    let ty = match kind { k @ 0..=11 => UNARY[k as usize], 12 => "SoftClassProperty", 13 => "MapProperty", 14 => "EnumProperty", 15 => "BoolProperty", _ => if nul < 11 { NULLARY[nul] } else { "WeirdProperty" } };
    let mut p = pkg(ty, 513, 3, fw, rel);
    let mut e = Enc::new().name(0, 0).i32(0);
    let next = if fw < 29 { let v = h::i32(); e = e.i32(v); Some(v) } else { None };
    let (dim, pflags, notify, cond) = (h::choice(3) as i32, h::u64(), (2, h::i32()), if rel >= 21 { [0u8, 8, 16][h::choice(3) as usize] } else { 0 });
    h::assume(pflags & !0xff_ffdf_fb2f_6fff == 0);
    e = e.i32(dim).u64(pflags).name(notify.0, notify.1);
    if rel >= 21 { e = e.u8(cond) }
    let (a, b, by, nb) = (h::i32(), h::i32(), h::u8(), if kind == 15 { h::choice(2) as u8 } else { 0 });
    e = match kind { 0..=10 => e.i32(a), 11..=14 => e.i32(a).i32(b), 15 => e.u8(by).u8(nb), _ => e };
    let x = extra();
    let names = p.names.clone();
    p.exports[0].b[0] = 0;
    go(p, e, x, |e| {
        let e = match e { Export::PropertyExport(e) => &e.property, _ => { h::check(false, 80); unreachable!() } };
        let g = |x: &unreal_asset_exports::properties::uproperty::UGenericProperty| h::check((x.u_field.next.map(|i| i.index) == next) & (i32::from(x.array_dim) == dim) & (x.property_flags.bits() == pflags) & is(&x.rep_notify_func, notify, &names) & (x.blueprint_replication_condition.map(u8::from) == if rel >= 21 { Some(cond) } else { None }), 81);
        macro_rules! one { ($x:expr, $f:ident) => {{ g(&$x.generic_property); h::check($x.$f.index == a, 82) }} }
        macro_rules! two { ($x:expr, $f:ident, $k:ident) => {{ g(&$x.generic_property); h::check(($x.$f.index == a) & ($x.$k.index == b), 83) }} }
        use UProperty::*;
        match (e, kind, nul) {
            (UObjectProperty(x), 0, _) => one!(x, property_class), (USoftObjectProperty(x), 1, _) => one!(x, property_class), (ULazyObjectProperty(x), 2, _) => one!(x, property_class),
            (UArrayProperty(x), 3, _) => one!(x, inner), (USetProperty(x), 4, _) => one!(x, element_prop),
            (UDelegateProperty(x), 5, _) => one!(x, signature_function), (UMulticastDelegateProperty(x), 6, _) => one!(x, signature_function), (UMulticastInlineDelegateProperty(x), 7, _) => one!(x, signature_function),
            (UInterfaceProperty(x), 8, _) => one!(x, interface_class), (UByteProperty(x), 9, _) => one!(x, enum_value), (UStructProperty(x), 10, _) => one!(x, struct_value),
            (UClassProperty(x), 11, _) => two!(x, property_class, meta_class), (USoftClassProperty(x), 12, _) => two!(x, property_class, meta_class), (UMapProperty(x), 13, _) => two!(x, key_prop, value_prop), (UEnumProperty(x), 14, _) => two!(x, value, underlying_prop),
            (UBoolProperty(x), 15, _) => { g(&x.generic_property); h::check((x.element_size == by) & (x.native_bool == (nb == 1)), 84) }
            (UDoubleProperty(x), 16, 0) => g(&x.generic_property), (UFloatProperty(x), 16, 1) => g(&x.generic_property), (UIntProperty(x), 16, 2) => g(&x.generic_property), (UInt8Property(x), 16, 3) => g(&x.generic_property), (UInt16Property(x), 16, 4) => g(&x.generic_property), (UInt64Property(x), 16, 5) => g(&x.generic_property),
            (UUInt8Property(x), 16, 6) => g(&x.generic_property), (UUInt16Property(x), 16, 7) => g(&x.generic_property), (UUInt64Property(x), 16, 8) => g(&x.generic_property), (UNameProperty(x), 16, 9) => g(&x.generic_property), (UStrProperty(x), 16, 10) => g(&x.generic_property),
            (UGenericProperty(x), 16, 11) => g(x),
            _ => h::check(false, 85),
        }
    })
}
/// what cannot be understood is kept as it is
fn raw() {
    let class = ["Level", "World", "Enum", "StringTable", "DataTable", "Function", "UserDefinedStruct", "BlueprintGeneratedClass", "IntProperty"][h::choice(9) as usize];
    let (o, f) = [(459, 20), (522, 35)][h::choice(2) as usize];
    let mut p = pkg(class, o, 4, f, 30);
    let b = Enc::new().name(0, 0);
    // a flag for an identifier, cut off data, counts that cannot fit
    let b = match h::choice(4) {
        0 => { let v = h::i32(); h::assume(v != 0); b.i32(v).any(20) }
        1 => { h::assume(class != "IntProperty"); b.i32(0) }
        2 => { h::assume(class != "World" && class != "IntProperty" && class != "StringTable"); let v = h::i32(); h::assume(v < 0); let k = match class { "Function" | "UserDefinedStruct" | "BlueprintGeneratedClass" => if f < 29 { 8 } else { 4 }, _ => 0 }; b.i32(0).raw(&vec![0; k]).i32(v).raw(&[0; 24]) }
        _ => { let n = h::choice(8) as usize; Enc(b.0[..n].to_vec()) }
    };
    p.exports[0].data = b.0;
    h::stub_format(true);
    let x = open(&p);
    match &x.asset_data.exports[0] { Export::RawExport(r) => h::check(h::same(&r.data, &p.exports[0].data), 90), _ => h::check(false, 91) }
    h::stub_format(false);
    written(&x, &p)
}
/// a class says which structs the keys and values of its maps are; maps of that name in later exports are read so
fn class_maps() {
    let mut p = pkg("BlueprintGeneratedClass", 522, 4, 29, 30);
    let (map, st, int, point, thing) = (add(&mut p, "MapProperty"), add(&mut p, "StructProperty"), add(&mut p, "IntProperty"), add(&mut p, "IntPoint"), add(&mut p, "Thing"));
    p.imports.push(Imp { pkg: (4, 0), class: (3, 0), outer: 0, name: (point, 0), optional: 0 });
    p.imports.push(Imp { pkg: (4, 0), class: (3, 0), outer: 0, name: (thing, 0), optional: 0 });
    let (ks, vs) = (h::flag(), h::flag());
    // a map before it in the class that says nothing
    let other = h::flag();
    let gen = |e: Enc, ty: i32, name: i32| e.name(ty, 0).name(name, 0).u32(8).i32(1).i32(4).u64(1).u16(2).name(0, 0).u8(0);
    let side = |e: Enc, s: bool| { let e = gen(e, if s { st } else { int }, 2); if s { e.i32(-2) } else { e } };
    let mut b = Enc::new().name(0, 0).i32(0).i32(0).i32(0).i32(1 + other as i32);
    if other { b = side(side(gen(b, map, 2), false), false) }
    b = side(side(gen(b, map, 1), ks), vs);
    let b = b.i32(0).i32(0).i32(0).u32(0).i32(0).name(2, 0).i32(0).i32(0).u32(0).name(0, 0).u32(0).i32(0);
    let n = h::choice(3) as usize;
    let keys = [(3, 9), (4, -1)];
    let vals: Vec<(i32, i32)> = (0..n).map(|_| (h::i32(), h::i32())).collect();
    let one = |e: Enc, s: bool, v: (i32, i32)| if s { e.i32(v.0).i32(v.1) } else { e.i32(v.0) };
    let mut m = Enc::new().i32(0).i32(n as i32);
    for i in 0..n { m = one(one(m, ks, keys[i]), vs, vals[i]) }
    let t = Enc::new().name(1, 0).name(map, 0).i32(m.0.len() as i32).i32(0).name(if ks { st } else { int }, 0).name(if vs { st } else { int }, 0).u8(0).raw(&m.0).name(0, 0).i32(0);
    p.exports[0].data = b.0;
    let mut e = Exp::new(-3, 2, t.0);
    e.flags = 8;
    p.exports.push(e);
    p.depends = Some(vec![vec![], vec![]]);
    p.generations = vec![(2, p.names.len() as i32)];
    let x = open(&p);
    h::check(x.asset_data.exports.len() == 2 && matches!(&x.asset_data.exports[0], Export::ClassExport(_)), 95);
    let is = |p: &Property, s: bool, v: (i32, i32)| match p { Property::StructProperty(t) => s && t.value.len() == 1 && matches!(&t.value[0], Property::IntPointProperty(x) if (x.value.x == v.0) & (x.value.y == v.1)), Property::IntProperty(x) => !s && x.value == v.0, _ => false };
    let l = &h::some(x.asset_data.exports[1].get_normal_export(), 96).properties;
    h::check(l.len() == 1, 97);
    let Property::MapProperty(m) = &l[0] else { h::check(false, 98); return };
    h::check(m.value.len() == n, 99);
    for (i, (_, k, v)) in m.value.iter().enumerate() { h::check(i < n && is(k, ks, keys[i]) && is(v, vs, vals[i]), 100) }
    let (a, b, _) = p.encode();
    let (mut oa, mut ob) = (Cursor::new(vec![]), Cursor::new(vec![]));
    h::must(x.write_data(&mut oa, if b.is_some() { Some(&mut ob) } else { None }), 101);
    h::check(oa.get_ref().len() == a.len() && h::same(oa.get_ref(), &a), 102);
    if let Some(b) = &b { h::check(ob.get_ref().len() == b.len() && h::same(ob.get_ref(), b), 103) }
}
h::cases! {
    case_class_maps => class_maps,
    case_normal => normal, case_level => level, case_world => world, case_enum => enums, case_string_table => string_table, case_data_table => data_table, case_function => function, case_user_struct => user_struct,
    case_class => class, case_fproperties => fproperties, case_uproperty => uproperty, case_raw => raw
}
