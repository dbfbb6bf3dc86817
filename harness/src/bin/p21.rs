//! P21: unversioned headers and mappings files.
use harness as h;
use h::{arch::Cfg, Enc};
use std::io::Cursor;
use unreal_asset_base::{engine_version::EngineVersion, reader::ArchiveTrait, types::FName, unversioned::{header::*, properties::*, Ancestry, EUsmapCompressionMethod, EUsmapVersion, Usmap}, object_version::*};

fn cfg(u: bool) -> Cfg { let mut c = Cfg::new(EngineVersion::VER_UE5_1, &[]); c.unversioned = u; c }
/// fields of one packed fragment, by the documented layout
fn frag(v: u16) -> (u8, bool, bool, u8) { ((v & 0x7f) as u8, v & 0x80 != 0, v & 0x100 != 0, (v >> 9) as u8) }
fn one() {
    let v = h::u16();
    let f = UnversionedHeaderFragment::from(v);
    let (skip, zeros, last, num) = frag(v);
    h::check(f.skip_num == skip && f.has_zeros == zeros && f.is_last == last && f.value_num == num, 1);
    let (b, _) = cfg(true).wr(|w| h::must(f.write(w), 2));
    h::check(h::same(&b, &v.to_le_bytes()), 3);
}
/// `n` fragments, the last one marked; `tail` mask bytes
fn header(frags: &[u16], mask: &[u8], extra: &[u8]) {
    let mut e = Enc::new();
    for f in frags { e = e.u16(*f) }
    let b = e.raw(mask).raw(extra).0;
    let mut r = cfg(true).rd(b.clone());
    let hd = match UnversionedHeader::new(&mut r) { Ok(Some(x)) => x, _ => { h::check(false, 10); return } };
    h::check(r.position() == (frags.len() * 2 + mask.len()) as u64, 11);
    h::check(hd.fragments.len() == frags.len(), 12);
    let mut first = 0usize; let mut plain = 0usize; let mut masked = 0usize;
    for (i, f) in frags.iter().enumerate() {
        let (skip, zeros, last, num) = frag(*f);
        let g = hd.fragments[i];
        h::check(g.skip_num == skip && g.has_zeros == zeros && g.is_last == last && g.value_num == num, 13);
        first += skip as usize;
        h::check(g.first_num as usize == first, 14);
        first += num as usize;
        if num > 0 { h::check(g.get_last_num() as usize + 1 == first, 15); } else { let _ = g.get_last_num(); }
        if zeros { masked += num as usize } else { plain += num as usize }
    }
    h::check(hd.zero_mask.len() >= masked && hd.zero_mask.len() == mask.len() * 8, 16);
    let mut non_zero = plain > 0; let mut bad = false;
    for i in 0..masked { let bit = (mask[i / 8] >> (i % 8)) & 1 == 1; bad |= hd.zero_mask[i] != bit; non_zero |= !bit }
    h::check(!bad, 17);
    h::check(hd.has_non_zero_values == non_zero, 18);
    h::check(hd.unversioned_property_index == (frags[0] & 0x7f) as usize && hd.current_fragment_index == 0 && hd.zero_mask_index == 0, 19);
    let (w, _) = cfg(true).wr(|w| h::must(hd.write(w), 20));
    h::check(h::same(&w, &b[..frags.len() * 2 + mask.len()]), 21);
    h::observe(1, first as u64);
}
fn set_last(v: u16, last: bool) -> u16 { if last { v | 0x100 } else { v & !0x100 } }
/// no mask
fn plain(n: usize) {
    let f: Vec<u16> = (0..n).map(|i| { let v = h::u16(); h::assume(v & 0x80 == 0 && (v & 0x100 != 0) == (i + 1 == n)); v }).collect();
    header(&f, &[], &h::bytes::<2>());
}
fn bytes_for(n: usize) -> usize { if n == 0 { 0 } else if n <= 8 { 1 } else if n <= 16 { 2 } else { (n + 31) / 32 * 4 } }
fn mask_of(n: usize) -> Vec<u8> { let mut m = vec![0u8; bytes_for(n)]; h::fill(&mut m); m }
/// one masked fragment of every size class with an arbitrary skip, and arbitrary mask bytes
fn masked() {
    let n = [0usize, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 127][h::choice(14) as usize];
    let skip = h::u16() & 0x7f;
    let m = mask_of(n);
    if n <= 16 { header(&[set_last((n as u16) << 9 | 0x80 | skip, true)], &m, &[9, 9]) }
    else {
        // few arbitrary mask bytes keep the number of paths small
        let mut m2 = vec![[0xffu8, 0x00][h::choice(2) as usize]; m.len()]; let k = [0, n / 16, (n - 1) / 8][h::choice(3) as usize]; m2[k] = m[0];
        header(&[set_last((n as u16) << 9 | 0x80 | skip, true)], &m2, &[9, 9])
    }
}
/// masked and plain fragments mixed
fn mixed() {
    let k = 3; let mut f = vec![]; let mut n = 0;
    for i in 0..k { let num = [0usize, 2, 6][h::choice(3) as usize]; let z = h::flag(); if z { n += num } let skip = h::u16() & 0x7f; f.push(set_last((num as u16) << 9 | (z as u16) << 7 | skip, i + 1 == k)) }
    let m = mask_of(n);
    header(&f, &m, &[]);
}
/// many fragments: indices beyond 255 and 65535
fn many() {
    let n = [3usize, 130, 600][h::choice(3) as usize];
    let mut f = vec![127u16 | 127 << 9; n];
    let v = h::u16(); h::assume(v & 0x180 == 0); f[1] = v;
    f[n - 1] |= 0x100;
    header(&f, &[], &[]);
    let z = h::flag();
    if z && n > 500 { let mut f = vec![0x80u16 | 127 << 9; 520]; f[519] |= 0x100; let m = vec![0xffu8; bytes_for(520 * 127)]; header(&f, &m, &[]) }
}
/// truncated at any point, any bytes
fn truncated() {
    h::stub_format(true);
    let n = h::choice(6) as usize;
    let mut b = vec![0u8; n]; h::fill(&mut b);
    if n >= 2 { let num = b[1] >> 1; h::assume(num < 4 || num > 100); if n >= 4 { let num = b[3] >> 1; h::assume(num < 4) } }
    let mut r = cfg(true).rd(b.clone());
    let _ = UnversionedHeader::new(&mut r);
    let mut r = cfg(false).rd(b);
    h::check(matches!(UnversionedHeader::new(&mut r), Ok(None)), 30);
    h::check(r.position() == 0, 31);
}

// ---- mappings
const NAMES: [&str; 6] = ["Base", "Child", "PropA", "PropB", "EKind", "Kind_X"];
fn names(e: Enc) -> Enc { let mut e = e.u32(NAMES.len() as u32); for n in NAMES { e = e.u8(n.len() as u8 + 1).raw(n.as_bytes()) } e }
fn file(version: u8, body: &[u8], head: Enc) -> Vec<u8> { let mut e = Enc::new().u16(0xc430).u8(version); e = e.raw(&head.0); e.u8(0).u32(body.len() as u32).u32(body.len() as u32).raw(body).0 }
fn prop(index: u16, size: u8, name: i32) -> Enc { Enc::new().u16(index).u8(size).i32(name) }
const KINDS: [&str; 28] = ["ByteProperty", "BoolProperty", "IntProperty", "FloatProperty", "ObjectProperty", "NameProperty", "DelegateProperty", "DoubleProperty", "ArrayProperty", "StructProperty", "StrProperty", "TextProperty", "InterfaceProperty", "MulticastDelegateProperty", "WeakObjectProperty", "LazyObjectProperty", "AssetObjectProperty", "SoftObjectProperty", "UInt64Property", "UInt32Property", "UInt16Property", "Int64Property", "Int16Property", "Int8Property", "MapProperty", "SetProperty", "EnumProperty", "FieldPathProperty"];
fn shallow(d: &UsmapPropertyData, k: u8, id: u32) { match d { UsmapPropertyData::UsmapShallowPropertyData(s) => h::check(s.property_type as u8 == k && d.get_property_type().to_string() == if k == 255 { "Unknown" } else { KINDS[k as usize] }, id), _ => h::check(false, id) } }
fn simple_kind() -> u8 { let k = h::u8(); h::assume((k < 28 && k != 8 && k != 9 && k != 24 && k != 25 && k != 26) || k == 255); h::concrete(k as u64) as u8 }
fn kind() {
    let (b, want): (Enc, u8) = match h::choice(7) {
        0 => { let k = simple_kind(); (Enc::new().u8(k), k) }
        1 => { let k = [0u8, 2, 19, 27][h::choice(4) as usize]; (Enc::new().u8(8).u8(k), 8 | k << 5 & 0) }
        2 => (Enc::new().u8(9).i32(1), 9),
        3 => (Enc::new().u8(24).u8(5).u8(2), 24),
        4 => (Enc::new().u8(25).u8(10), 25),
        5 => (Enc::new().u8(26).u8(0).i32(4), 26),
        _ => (Enc::new().u8(8).u8(24).u8(9).i32(0).u8(25).u8(3), 8),
    };
    let inner = b.0.get(1).copied();
    let body = names(Enc::new()).u32(0).u32(1).i32(0).i32(1).u16(1).u16(1).raw(&prop(0, 1, 2).0).raw(&b.0).0;
    let m = h::must(Usmap::new(Cursor::new(file(0, &body, Enc::new()))), 40);
    let s = h::some(m.schemas.get_by_key("Base"), 41);
    let p = h::some(s.properties.get_by_index(0), 42);
    let d = &p.property_data;
    h::check(d.get_property_type() as u8 == want, 43);
    match d {
        UsmapPropertyData::UsmapArrayPropertyData(a) => match inner { Some(24) => match &*a.inner_type { UsmapPropertyData::UsmapMapPropertyData(m) => { match &*m.inner_type { UsmapPropertyData::UsmapStructPropertyData(s) => h::check(s.struct_type == "Base", 44), _ => h::check(false, 44) } match &*m.value_type { UsmapPropertyData::UsmapSetPropertyData(s) => shallow(&s.inner_type, 3, 45), _ => h::check(false, 45) } } _ => h::check(false, 44) }, k => shallow(&a.inner_type, k.unwrap(), 46) },
        UsmapPropertyData::UsmapStructPropertyData(s) => h::check(want == 9 && s.struct_type == "Child", 47),
        UsmapPropertyData::UsmapMapPropertyData(m) => { shallow(&m.inner_type, 5, 48); shallow(&m.value_type, 2, 48) }
        UsmapPropertyData::UsmapSetPropertyData(s) => shallow(&s.inner_type, 10, 49),
        UsmapPropertyData::UsmapEnumPropertyData(e) => { h::check(e.name == "EKind", 50); shallow(&e.inner_property, 0, 50) }
        UsmapPropertyData::UsmapShallowPropertyData(_) => shallow(d, want, 51),
    }
    h::check(p.name == "PropA" && p.array_index == 0 && p.array_size == 1 && p.schema_index == 0, 52);
}
/// a whole file: names, enums, schemas with supers, array properties, versions, module paths
fn whole() {
    let focus = h::choice(3);
    let version = if focus == 0 { h::choice(4) as u8 } else { 1 };
    let versioned = version > 0 && (focus != 0 || h::flag());
    let ext = if focus == 1 { h::choice(3) } else { 2 };
    let size = if focus == 1 { [0u8, 1, 2, 3][h::choice(4) as usize] } else { 2 };
    let a_index = if focus == 1 { h::u16() } else { 4 };
    h::assume(a_index <= 65532);
    let pc = if focus == 2 { h::u16() } else { 9 }; let sup = if focus == 2 { h::choice(2) as i32 } else { 0 };
    let ecount = if focus == 2 { h::choice(3) as u8 } else { 1 };
    let mut e = names(Enc::new()).u32(1).i32(4).u8(ecount);
    for _ in 0..ecount { e = e.i32(5) }
    e = e.u32(2).i32(0).i32(5).u16(pc).u16(2).raw(&prop(a_index, size, 2).0).u8(2).raw(&prop(7, 1, 3).0).u8(9).i32(1);
    e = e.i32(1).i32(sup).u16(1).u16(1).raw(&prop(0, 1, 2).0).u8(4);
    if ext == 1 { e = e.u32(0) }
    if ext == 2 { e = e.u32(1).u16(2).str("/Script/A").str("/Script/B").u8(1).u8(0) }
    let mut head = Enc::new();
    let (cl, cv) = (h::u32(), h::i32());
    if version > 0 { head = head.u8(versioned as u8) }
    if versioned { head = head.i32(522).i32(1008).i32(1).raw(&[1; 16]).i32(cv).u32(cl) }
    let m = h::must(Usmap::new(Cursor::new(file(version, &e.0, head))), 60);
    h::check(m.version as u8 == version && m.compression_method == EUsmapCompressionMethod::None, 61);
    h::check(m.name_map.len() == 6 && (0..6).all(|i| m.name_map[i] == NAMES[i]), 62);
    if versioned { h::check(m.net_cl == cl && m.custom_versions.len() == 1 && m.custom_versions[0].version == cv && m.object_version == ObjectVersion::VER_UE4_CORRECT_LICENSEE_FLAG && i32::from(m.object_version_ue5) == 1008, 63) }
    else { h::check(m.custom_versions.is_empty() && m.net_cl == 0 && m.object_version == ObjectVersion::UNKNOWN, 63) }
    h::check(m.enum_map.len() == 1, 64);
    let en = h::some(m.enum_map.get_by_key("EKind"), 64);
    h::check(en.len() == ecount as usize && en.iter().all(|x| x == "Kind_X"), 65);
    h::check(m.schemas.len() == 2, 66);
    let b = h::some(m.schemas.get_by_index(0), 67); let c = h::some(m.schemas.get_by_index(1), 67);
    h::check(b.name == "Base" && b.super_type == "Kind_X" && b.prop_count == pc && c.name == "Child" && c.super_type == NAMES[sup as usize] && c.prop_count == 1, 68);
    h::check(b.properties.len() == size as usize + 1 && c.properties.len() == 1, 69);
    for j in 0..size as usize {
        let p = h::some(b.properties.get_by_index(j), 70);
        h::check(p.name == "PropA" && p.schema_index == a_index + j as u16 && p.array_index == j as u16 && p.array_size == size, 71);
        shallow(&p.property_data, 2, 72);
        h::check(b.get_property("PropA", j as u32) == Some(p), 73);
    }
    h::check(b.get_property("PropA", size as u32).is_none(), 73);
    let q = h::some(b.properties.get_by_index(size as usize), 74);
    h::check(q.name == "PropB" && q.schema_index == 7 && b.get_property("PropB", 0) == Some(q) && matches!(&q.property_data, UsmapPropertyData::UsmapStructPropertyData(s) if s.struct_type == "Child"), 75);
    if ext == 2 { h::check(b.module_path.as_deref() == Some("/Script/B") && c.module_path.as_deref() == Some("/Script/A") && m.extension_version.bits() == 1, 76) }
    else { h::check(b.module_path.is_none() && c.module_path.is_none() && m.extension_version.bits() == 0, 76) }
    // lookups through the super type
    if sup == 0 {
        let a = Ancestry::new(FName::new_dummy("Child".into(), 0));
        let (p, g) = h::some(m.get_property_with_duplication_index(&FName::new_dummy("PropB".into(), 0), &a, 0), 77);
        h::check(p == q && g == 1 + 7, 78);
        let (p, g) = h::some(m.get_property_with_duplication_index(&FName::new_dummy("PropA".into(), 0), &a, 0), 79);
        h::check(g == 0 && p == h::some(c.properties.get_by_index(0), 79), 80);
        let all = m.get_all_properties("Child");
        h::check(all.len() == size as usize + 2 && all[0] == p && all[all.len() - 1] == q, 81);
        // an unknown name falls back to the property that contains it
        let x = m.get_property(&FName::new_dummy("0".into(), 0), &a.with_parent(FName::new_dummy("PropB".into(), 0)));
        h::check(x == Some(q), 82);
        h::check(m.get_property(&FName::new_dummy("Nope".into(), 0), &Ancestry::default()).is_none(), 83);
    }
    h::observe(1, m.schemas.len() as u64);
}
/// one arbitrary part in an otherwise well-formed file
fn corrupt() {
    h::stub_format(true);
    let part = h::choice(14);
    let good = |p: u64, v: i32| if part == p { h::size32(3) as i32 } else { v };
    let magic = if part == 0 { h::u16() } else { 0xc430 };
    let version = if part == 1 { h::u8() } else { 0 };
    let comp = if part == 2 { let c = h::u8(); h::assume(c != 2 && c != 3); c } else { 0 };
    let mut e = Enc::new().i32(good(3, 1));
    e = e.u8(if part == 4 { h::u8() } else { 5 }).raw(b"Base");
    e = e.i32(good(5, 1)).i32(good(6, 0)).u8(if part == 7 { h::u8() } else { 1 }).i32(0);
    e = e.u32(good(8, 1) as u32).i32(0).i32(0).u16(if part == 9 { h::u16() } else { 1 }).u16(1).raw(&prop(if part == 10 { h::u16() } else { 0 }, if part == 10 { 3 } else { 1 }, good(11, 0)).0).u8(if part == 12 { h::u8() } else { 2 });
    let path = part == 13;
    if path { e = e.u32(h::u32() & 3).u16(1).str("/S").u8(h::u8()) }
    let n = e.len() as u32;
    let extra = h::choice(3); h::assume(!(extra == 1 && part == 1));
    let (cs, ds) = if extra == 1 { (h::u32(), h::u32()) } else { (n, n) };
    let mut b = Enc::new().u16(magic).u8(version);
    if extra == 1 && !(cs == n && ds == n) { h::assume(cs != ds || cs > n || cs < 4) }
    let cs = if cs < 4 { h::concrete(cs as u64) as u32 } else { cs };
    b = b.u8(comp).u32(cs).u32(ds).raw(&e.0);
    let mut v = b.0;
    if extra == 2 { let k = h::choice(8) as usize; let l = v.len() * k / 8; v.truncate(l) }
    let r = Usmap::new(Cursor::new(v));
    if magic != 0xc430 || version > 3 || (comp != 0 && version == 0) || (extra == 1 && cs != ds) || extra == 2 { h::check(r.is_err(), 90) }
    else if extra == 0 && (part == 0 || (part == 1 && version == 0)) { h::check(r.is_ok(), 91) }
    if let Ok(m) = r { h::check(m.name_map.len() < 4, 92); h::observe(1, m.schemas.len() as u64) }
}
h::cases! { case_one => one, case_plain1 => || plain(1), case_plain3 => || plain(3), case_masked => masked, case_mixed => mixed, case_many => many, case_truncated => truncated, case_kind => kind, case_whole => whole, case_corrupt => corrupt, deep_plain6 => || plain(6) }
