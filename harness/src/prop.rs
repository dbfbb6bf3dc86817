//! Independent encoding of tagged properties and the round-trip judgement shared by P15 and P16.
use crate as h;
use crate::{arch::Cfg, Enc};
use unreal_asset_base::{custom_version::CustomVersionTrait, engine_version::EngineVersion, object_version::{ObjectVersion, ObjectVersionUE5}, reader::ArchiveTrait, types::FName, unversioned::Ancestry, Guid};
use unreal_asset_properties::{Property, PropertyDataTrait, PropertyTrait};

/// name table: texts used by every case, then `extra`
pub const NAMES: [&str; 7] = ["None", "A", "B/C", "D", "StructProperty", "IntProperty", "TypeName"];
pub fn cfg(object: i32, ue5: i32, extra: &[&str]) -> Cfg {
    let mut l: Vec<&str> = NAMES.to_vec();
    for e in extra { if !l.contains(e) { l.push(e) } }
    let mut c = Cfg::new(EngineVersion::VER_UE4_27, &l);
    c.object = h::must(ObjectVersion::try_from(object), 900);
    c.ue5 = h::must(ObjectVersionUE5::try_from(ue5), 900);
    c
}
/// 0: before tag identifiers and large coordinates, 1: last UE4, 2: UE5 before LWC, 3: LWC, 4: package names in soft paths
pub fn band(b: u64, extra: &[&str]) -> Cfg { let (o, u) = [(400, 0), (502, 0), (522, 0), (522, 1003), (522, 1004), (522, 1010)][b as usize]; cfg(o, u, extra) }
pub fn custom<T: CustomVersionTrait + Into<i32>>(c: &mut Cfg, v: i32) { for x in c.custom.iter_mut() { if x.guid == T::GUID { x.version = v } } }
pub fn obj(c: &Cfg) -> i32 { i32::from(c.object) }
pub fn u5(c: &Cfg) -> i32 { i32::from(c.ue5) }
pub fn lwc(c: &Cfg) -> bool { u5(c) >= 1004 }
pub fn idx(c: &Cfg, s: &str) -> i32 {
    let n = c.names.get_ref();
    let l = n.get_name_map_index_list();
    for (i, x) in l.iter().enumerate() { if x == s { return i as i32 } }
    h::check(false, 901); 0
}
/// an arbitrary instance of one of the plain names
pub fn anyname(e: Enc) -> (Enc, FNameV) { let i = 1 + h::choice(3) as i32; let n = h::i32(); (e.name(i, n), FNameV { i, n }) }
/// a fixed text with an arbitrary number
pub fn numbered(e: Enc, i: i32) -> (Enc, FNameV) { let n = h::i32(); (e.name(i, n), FNameV { i, n }) }
#[derive(Clone, Copy)]
pub struct FNameV { pub i: i32, pub n: i32 }
impl FNameV { pub fn is(&self, f: &FName) -> bool { let t = NAMES[self.i as usize]; (f.get_number() == self.n) & f.get_content(|x| x == t) } }
/// an Unreal string: none, empty, two arbitrary ASCII characters, or one arbitrary wide character
pub fn text(e: Enc, kinds: u64) -> (Enc, Option<String>) {
    match h::choice(kinds) {
        0 => { let s = h::ascii(2); (e.str(&s), Some(s)) }
        1 => (e.i32(0), None),
        2 => (e.str(""), Some(String::new())),
        _ => { let v = h::u16(); h::assume(v >= 0x800 && v < 0xD800); let ch = unsafe { char::from_u32_unchecked(v as u32) }; (e.i32(-2).u16(v).u16(0), Some(ch.to_string())) }
    }
}
pub fn same_text(a: &Option<String>, b: &Option<String>) -> bool { match (a, b) { (Some(a), Some(b)) => h::same(a.as_bytes(), b.as_bytes()), (None, None) => true, _ => false } }

/// the bytes of one tagged property; `hdr` sits between the tag and the identifier flag
pub struct Tag { pub bytes: Vec<u8>, pub name: FNameV, pub dup: i32, pub guid: Option<[u8; 16]> }
pub fn tag(c: &Cfg, ty: &str, len: i32, hdr: &[u8], val: &[u8]) -> Tag {
    let (e, name) = numbered(Enc::new(), 1);
    let dup = h::i32();
    let mut e = e.name(idx(c, ty), 0).i32(len).i32(dup).raw(hdr);
    let mut guid = None;
    if obj(c) >= 503 { if h::flag() { let g = h::bytes::<16>(); guid = Some(g); e = e.u8(1).raw(&g) } else { e = e.u8(0) } }
    Tag { bytes: e.raw(val).0, name, dup, guid }
}
/// tag without symbolic parts, for nesting
pub fn plain(c: &Cfg, name: i32, ty: &str, len: i32, hdr: &[u8], val: &[u8]) -> Vec<u8> {
    let e = Enc::new().name(name, 0).name(idx(c, ty), 0).i32(len).i32(0).raw(hdr);
    (if obj(c) >= 503 { e.u8(0) } else { e }).raw(val).0
}
pub fn guid_is(a: Option<Guid>, b: &Option<[u8; 16]>) -> bool { match (a, b) { (Some(a), Some(b)) => h::same(&a.0, b), (None, None) => true, _ => false } }
/// parse a tagged property followed by unrelated bytes, judge it, write it back
pub fn tagged(c: &Cfg, ty: &str, len: i32, hdr: &[u8], val: &[u8], f: &dyn Fn(&Property)) { judge(c, tag(c, ty, len, hdr, val), f) }
/// the same with a fixed name (where the library hashes it)
pub fn tagged_fixed(c: &Cfg, ty: &str, len: i32, hdr: &[u8], val: &[u8], f: &dyn Fn(&Property)) {
    let (name, dup) = (FNameV { i: 1, n: 0 }, h::i32());
    judge(c, Tag { bytes: { let e = Enc::new().name(1, 0).name(idx(c, ty), 0).i32(len).i32(dup).raw(hdr); (if obj(c) >= 503 { e.u8(0) } else { e }).raw(val).0 }, name, dup, guid: None }, f)
}
pub fn judge(c: &Cfg, t: Tag, f: &dyn Fn(&Property)) {
    let n = t.bytes.len();
    let mut rd = c.rd(Enc(t.bytes.clone()).any(3).0);
    let p = h::some(h::must(Property::new(&mut rd, Ancestry::default(), None, true), 1), 2);
    h::check(rd.position() == n as u64, 3);
    h::check(t.name.is(&p.get_name()) & (p.get_duplication_index() == t.dup), 4);
    h::check(guid_is(p.get_property_guid(), &t.guid), 5);
    f(&p);
    let (out, r) = c.wr(|w| Property::write(&p, w, true));
    h::must(r, 6);
    h::check(out.len() == n, 7);
    h::check(h::same(&out, &t.bytes), 8);
    #[cfg(feature = "moved")]
    moved(c, &p, &|p, w| Property::write(p, w, true).map(|_| ()));
}
/// the value alone, as it occurs inside arrays and custom structs
pub fn bare(c: &Cfg, ty: &str, len: i64, val: &[u8], reported: usize, f: &dyn Fn(&Property)) {
    let mut rd = c.rd(Enc(val.to_vec()).any(3).0);
    let p = h::must(Property::from_type(&mut rd, &c.name(ty), c.name("A"), Ancestry::default(), false, len, 0, 0, false), 11);
    h::check(rd.position() == val.len() as u64, 12);
    f(&p);
    let (out, r) = c.wr(|w| p.write(w, false));
    h::check(h::must(r, 13) == reported, 14);
    h::check(out.len() == val.len(), 15);
    h::check(h::same(&out, val), 16);
    #[cfg(feature = "moved")]
    moved(c, &p, &|p, w| p.write(w, false).map(|_| ()));
}
/// put into an archive with another name table, `x` is stored as before except for the table positions of its names, which keep their texts and numbers
#[cfg(feature = "moved")]
pub fn moved<T: unreal_asset_base::types::fname::FNameContainer + Clone>(c: &Cfg, x: &T, write: &dyn Fn(&T, &mut crate::arch::Wr) -> Result<(), unreal_asset_base::error::Error>) {
    use unreal_asset_base::containers::NameMap;
    let (a, la) = c.wr(|w| { h::must(write(x, w), 800); std::mem::take(&mut w.log) });
    let mut d = c.clone();
    d.names = NameMap::from_name_batch(&["Other".to_string(), "Names".to_string()]);
    let mut y = x.clone();
    let mut names = d.names.clone();
    y.traverse_fnames(&mut |f| {
        let t = f.get_owned_content();
        let n = f.get_number();
        *f = names.get_mut().add_fname_with_number(&t, n)
    });
    let (mut b, lb) = d.wr(|w| { h::must(write(&y, w), 801); std::mem::take(&mut w.log) });
    h::check(a.len() == b.len() && la.len() == lb.len(), 802);
    let table = d.names.get_ref();
    for ((pa, fa), (pb, fb)) in la.iter().zip(&lb) {
        h::check(pa == pb, 803);
        let FName::Backed { index, .. } = fb else { h::check(false, 804); return };
        let t = table.get_name_map_index_list().get(*index as usize);
        h::check(t.is_some_and(|t| fa == t.as_str()), 805);
        b[*pb..*pb + 4].copy_from_slice(&a[*pa..*pa + 4]);
    }
    drop(table);
    h::check(h::same(&a, &b), 806);
}
/// a struct tag whose value is custom-serialised as `ty`
pub fn in_struct(c: &Cfg, ty: &str, val: &[u8], f: &dyn Fn(&Property)) {
    let g = h::bytes::<16>();
    let hdr = Enc::new().name(idx(c, ty), 0);
    let hdr = if obj(c) >= 441 { hdr.raw(&g) } else { hdr };
    tagged(c, "StructProperty", val.len() as i32, &hdr.0, val, &|p| {
        let Property::StructProperty(s) = p else { h::check(false, 20); return };
        h::check(s.value.len() == 1, 21);
        h::check(s.struct_type.as_ref().map(|t| t == ty).unwrap_or(false), 22);
        h::check(guid_is(s.struct_guid, &if obj(c) >= 441 { Some(g) } else { None }), 23);
        f(&s.value[0])
    })
}
/// every way a custom-serialised struct value occurs
pub fn all(c: &Cfg, ty: &str, val: &[u8], f: &dyn Fn(&Property)) { match h::choice(3) { 0 => bare(c, ty, 0, val, val.len(), f), 1 => in_struct(c, ty, val, f), _ => tagged(c, ty, val.len() as i32, &[], val, f) } }
/// plain property kinds
pub fn simple(c: &Cfg, ty: &str, val: &[u8], f: &dyn Fn(&Property)) { match h::flag() { true => bare(c, ty, val.len() as i64, val, val.len(), f), false => tagged(c, ty, val.len() as i32, &[], val, f) } }
