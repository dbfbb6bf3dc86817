//! P29: data moved between packages keeps its names; every value of P15, P16, P17 and P20 is moved to an archive or package with another name table.
#![allow(dead_code, unused_imports)]
use harness as h;
#[path = "p15.rs"] mod p15;
#[path = "p16.rs"] mod p16;
#[path = "p17.rs"] mod p17;
#[path = "p20.rs"] mod p20;
use harness::{pkg::*, Enc};
use std::io::Cursor;
use unreal_asset::Asset;
use unreal_asset_base::{engine_version::EngineVersion, types::FName};
use unreal_asset_exports::{ExportBaseTrait, ExportNormalTrait};
use unreal_asset_properties::{int_property::IntProperty, Property, PropertyTrait};
type A = Asset<Cursor<Vec<u8>>>;
fn open(p: &Pkg) -> A { let (a, b, _) = p.encode(); h::must(Asset::new(Cursor::new(a), b.map(Cursor::new), EngineVersion::UNKNOWN, None), 1) }
fn again(a: &A, split: bool) -> A {
    let (mut oa, mut ob) = (Cursor::new(vec![]), Cursor::new(vec![]));
    h::must(a.write_data(&mut oa, if split { Some(&mut ob) } else { None }), 2);
    h::must(Asset::new(Cursor::new(oa.into_inner()), if split { Some(Cursor::new(ob.into_inner())) } else { None }, EngineVersion::UNKNOWN, None), 3)
}
fn is(f: &FName, t: &str, n: i32) -> bool { (f.get_number() == n) & f.get_content(|s| s == t) }
/// exports, imports and properties of two packages (which share some names and may share the whole table) end up in one; some of its own are made by hand
fn mixed() {
    let (o, u) = [(335, 0), (522, 0), (522, 1009)][h::choice(3) as usize];
    let split = o >= 507 && h::flag();
    let hash = |s: &str| if o >= 504 { unreal_asset_base::crc::generate_hash(s) } else { 0 };
    let table = |l: &[&str]| -> Vec<(String, u32)> { l.iter().map(|s| (s.to_string(), hash(s))).collect() };
    let numbers: [i32; 4] = [h::i32(), h::i32(), h::i32(), h::i32()];
    let mut p = Pkg::new(o, u, split);
    p.names = table(&["None", "A", "B", "Class", "/Script/Engine"]);
    p.imports[0].name = (1, numbers[0]);
    p.exports[0].name = (2, numbers[1]);
    let mut q = p.clone();
    let own = h::choice(4);
    // the other package: the same table, one in another order, one with other texts
    let texts: &[&str] = match own { 0 => &["None", "A", "B", "Class", "/Script/Engine"], 1 => &["Class", "B", "A", "None", "/Script/Engine"], 2 => &["None", "C", "B", "Class", "/Script/Other"], _ => &["X", "Y", "None", "A", "B", "Class", "/Script/Engine", "D"] };
    q.names = table(texts);
    let n = |s: &str| texts.iter().position(|t| *t == s).unwrap_or(1) as i32;
    q.imports[0] = Imp { pkg: (n("/Script/Engine"), 0), class: (n("Class"), 0), outer: 0, name: (n("A"), numbers[2]), optional: 0 };
    q.exports[0].name = (n("B"), numbers[3]);
    q.exports[0].data = Enc::new().name(n("None"), 0).i32(0).0;
    q.generations = vec![(1, texts.len() as i32)];
    q.name_refs = texts.len() as i32;
    let (mut x, y) = (open(&p), open(&q));
    let mut e = y.asset_data.exports[0].clone();
    e.get_base_export_mut().class_index.index = -2;
    // a property of a type no package has yet
    let v = h::i32();
    let made = h::choice(3);
    if made > 0 {
        let name = if made == 1 { x.add_fname("Made") } else { let mut z = open(&q); z.add_fname("Made") };
        if let Some(n) = e.get_normal_export_mut() { n.properties.push(Property::IntProperty(IntProperty { name, ancestry: Default::default(), property_guid: None, duplication_index: 0, value: v })) }
    }
    x.imports.push(y.imports[0].clone());
    x.asset_data.exports.push(e);
    x.rebuild_name_map();
    let z = again(&x, split);
    h::check(z.imports.len() == 2 && z.asset_data.exports.len() == 2, 10);
    let t = |s: &'static str| -> String { texts[n(s) as usize].to_string() };
    h::check(is(&z.imports[0].class_package, "/Script/Engine", 0) & is(&z.imports[0].class_name, "Class", 0) & is(&z.imports[0].object_name, "A", numbers[0]), 11);
    h::check(is(&z.imports[1].class_package, &t("/Script/Engine"), 0) & is(&z.imports[1].class_name, "Class", 0) & is(&z.imports[1].object_name, &t("A"), numbers[2]), 12);
    let (a, b) = (&z.asset_data.exports[0], &z.asset_data.exports[1]);
    h::check(is(&a.get_base_export().object_name, "B", numbers[1]) & is(&b.get_base_export().object_name, &t("B"), numbers[3]), 13);
    let l = &h::some(b.get_normal_export(), 14).properties;
    h::check(l.len() == if made > 0 { 1 } else { 0 }, 15);
    if made > 0 { let Property::IntProperty(i) = &l[0] else { h::check(false, 16); return }; h::check(is(&i.name, "Made", 0) & (i.value == v), 17) }
    // no text twice, the texts from before first
    let m = z.get_name_map();
    let m = m.get_ref();
    let l = m.get_name_map_index_list();
    for (i, s) in ["None", "A", "B", "Class", "/Script/Engine"].iter().enumerate() { h::check(l.get(i).is_some_and(|x| x == s), 18) }
    for i in 0..l.len() { for j in 0..i { h::check(l[i] != l[j], 19) } }
    // written the same a second time
    let out = |a: &A| { let (mut oa, mut ob) = (Cursor::new(vec![]), Cursor::new(vec![])); h::must(a.write_data(&mut oa, if split { Some(&mut ob) } else { None }), 20); (oa.into_inner(), ob.into_inner()) };
    let (f, g) = (out(&x), out(&x));
    h::check(f.0.len() == g.0.len() && f.1.len() == g.1.len() && h::same(&f.0, &g.0) && h::same(&f.1, &g.1), 21);
}
h::moved_cases! {
    case_mixed => mixed,
    case_p15_ints => p15::case_ints, case_p15_bools => p15::case_bools, case_p15_bytes_enums => p15::case_bytes_enums, case_p15_strings => p15::case_strings, case_p15_soft_paths => p15::case_soft_paths, case_p15_texts => p15::case_texts, case_p15_vectors => p15::case_vectors, case_p15_fixed => p15::case_fixed, case_p15_delegates => p15::case_delegates, case_p15_lists => p15::case_lists, case_p15_misc => p15::case_misc, case_p15_materials => p15::case_materials, case_p15_movie_values => p15::case_movie_values, case_p15_movie_trees => p15::case_movie_trees, case_p15_movie_lists => p15::case_movie_lists, case_p15_cloth => p15::case_cloth,
    case_p16_arrays => p16::case_arrays, case_p16_structs => p16::case_structs, case_p16_empty_custom => p16::case_empty_custom, case_p16_struct_arrays => p16::case_struct_arrays, case_p16_sets => p16::case_sets, case_p16_maps => p16::case_maps, case_p16_nested => p16::case_nested,
    case_p17_bare => p17::case_bare, case_p17_leaf => p17::case_leaf, case_p17_floats => p17::case_floats, case_p17_strings => p17::case_strings, case_p17_unary_a => p17::case_unary_a, case_p17_unary_b => p17::case_unary_b, case_p17_unary_c => p17::case_unary_c, case_p17_binary_a => p17::case_binary_a, case_p17_binary_b => p17::case_binary_b, case_p17_binary_c => p17::case_binary_c, case_p17_binary_d => p17::case_binary_d, case_p17_binary_e => p17::case_binary_e, case_p17_binary_f => p17::case_binary_f, case_p17_call_a => p17::case_call_a, case_p17_call_b => p17::case_call_b, case_p17_list_a => p17::case_list_a, case_p17_list_b => p17::case_list_b, case_p17_list_c => p17::case_list_c, case_p17_switch => p17::case_switch, case_p17_text => p17::case_text,
    case_p20_normal => p20::case_normal, case_p20_level => p20::case_level, case_p20_world => p20::case_world, case_p20_enum => p20::case_enum, case_p20_string_table => p20::case_string_table, case_p20_data_table => p20::case_data_table, case_p20_function => p20::case_function, case_p20_user_struct => p20::case_user_struct, case_p20_class => p20::case_class, case_p20_fproperties => p20::case_fproperties, case_p20_uproperty => p20::case_uproperty, case_p20_raw => p20::case_raw,
}
