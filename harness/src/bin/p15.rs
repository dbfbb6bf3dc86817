//! P15: simple property values.
use harness as h;
use harness::{prop::*, Enc};
use unreal_asset_base::custom_version::*;
use unreal_asset_properties::{int_property::BytePropertyValue, movies::*, soft_path_property::SoftObjectPathPropertyValue, object_property::SoftObjectPath, Property, Property as P};

macro_rules! on { ($p:expr, $k:ident, |$v:ident| $c:expr) => { match $p { P::$k($v) => h::check($c, 30), _ => h::check(false, 31) } } }
fn bandof(l: &[u64]) -> u64 { l[h::choice(l.len() as u64) as usize] }
fn ints() {
    let b = bandof(&[0, 1, 2, 4]);
    match h::choice(10) {
        0 => { let v = h::u8(); simple(&band(b, &["Int8Property"]), "Int8Property", &[v], &|p| on!(p, Int8Property, |x| x.value as u8 == v)) }
        1 => { let v = h::u16(); simple(&band(b, &["Int16Property"]), "Int16Property", &v.to_le_bytes(), &|p| on!(p, Int16Property, |x| x.value as u16 == v)) }
        2 => { let v = h::u32(); simple(&band(b, &["IntProperty"]), "IntProperty", &v.to_le_bytes(), &|p| on!(p, IntProperty, |x| x.value as u32 == v)) }
        3 => { let v = h::u64(); simple(&band(b, &["Int64Property"]), "Int64Property", &v.to_le_bytes(), &|p| on!(p, Int64Property, |x| x.value as u64 == v)) }
        4 => { let v = h::u16(); simple(&band(b, &["UInt16Property"]), "UInt16Property", &v.to_le_bytes(), &|p| on!(p, UInt16Property, |x| x.value == v)) }
        5 => { let v = h::u32(); simple(&band(b, &["UInt32Property"]), "UInt32Property", &v.to_le_bytes(), &|p| on!(p, UInt32Property, |x| x.value == v)) }
        6 => { let v = h::u64(); simple(&band(b, &["UInt64Property"]), "UInt64Property", &v.to_le_bytes(), &|p| on!(p, UInt64Property, |x| x.value == v)) }
        7 => { let v = h::u32(); simple(&band(b, &["FloatProperty"]), "FloatProperty", &v.to_le_bytes(), &|p| on!(p, FloatProperty, |x| x.value.0.to_bits() == v)) }
        8 => { let v = h::u64(); simple(&band(b, &["DoubleProperty"]), "DoubleProperty", &v.to_le_bytes(), &|p| on!(p, DoubleProperty, |x| x.value.0.to_bits() == v)) }
        _ => { let v = h::u32(); simple(&band(b, &["ObjectProperty"]), "ObjectProperty", &v.to_le_bytes(), &|p| on!(p, ObjectProperty, |x| x.value.index as u32 == v)) }
    }
}
fn bools() {
    let c = band(bandof(&[0, 1, 2, 4]), &["BoolProperty"]);
    let v = h::flag();
    let f = |p: &Property| on!(p, BoolProperty, |x| x.value == v);
    if h::flag() { tagged(&c, "BoolProperty", 0, &[v as u8], &[], &f) } else { bare(&c, "BoolProperty", 0, &[v as u8], 0, &f) }
}
/// byte and enum values
fn bytes_enums() {
    let c = band(bandof(&[0, 1, 2, 4]), &["ByteProperty", "EnumProperty"]);
    match h::choice(6) {
        0 => { let v = h::u8(); let (hd, t) = anyname(Enc::new()); tagged(&c, "ByteProperty", 1, &hd.0, &[v], &|p| on!(p, ByteProperty, |x| t.is(x.enum_type.as_ref().unwrap()) & matches!(x.value, BytePropertyValue::Byte(b) if b == v))) }
        1 => { let (val, v) = anyname(Enc::new()); let (hd, t) = anyname(Enc::new()); tagged(&c, "ByteProperty", 8, &hd.0, &val.0, &|p| on!(p, ByteProperty, |x| t.is(x.enum_type.as_ref().unwrap()) & matches!(&x.value, BytePropertyValue::FName(b) if v.is(b)))) }
        2 => { let (val, v) = anyname(Enc::new()); let (hd, t) = anyname(Enc::new()); tagged(&c, "EnumProperty", 8, &hd.0, &val.0, &|p| on!(p, EnumProperty, |x| t.is(x.enum_type.as_ref().unwrap()) & v.is(x.value.as_ref().unwrap()))) }
        3 => { let (val, v) = anyname(Enc::new()); bare(&c, "EnumProperty", 8, &val.0, 8, &|p| on!(p, EnumProperty, |x| v.is(x.value.as_ref().unwrap()))) }
        4 => { let v = h::u8(); bare(&c, "ByteProperty", 1, &[v], 1, &|p| on!(p, ByteProperty, |x| matches!(x.value, BytePropertyValue::Byte(b) if b == v))) }
        _ => { let (val, v) = anyname(Enc::new()); bare(&c, "ByteProperty", 8, &val.0, 8, &|p| on!(p, ByteProperty, |x| matches!(&x.value, BytePropertyValue::FName(b) if v.is(b)))) }
    }
}
fn strings() {
    match h::choice(4) {
        0 => { let c = band(bandof(&[0, 2, 4]), &["StrProperty"]); let (e, v) = text(Enc::new(), 4); simple(&c, "StrProperty", &e.0, &|p| on!(p, StrProperty, |x| same_text(&x.value, &v))) }
        1 => { let c = band(bandof(&[0, 2, 4]), &["AssetObjectProperty"]); let (e, v) = text(Enc::new(), 4); simple(&c, "AssetObjectProperty", &e.0, &|p| on!(p, AssetObjectProperty, |x| same_text(&x.value, &v))) }
        2 => { let c = band(bandof(&[0, 2, 4]), &["NameProperty"]); let (e, v) = anyname(Enc::new()); simple(&c, "NameProperty", &e.0, &|p| on!(p, NameProperty, |x| v.is(&x.value))) }
        _ => {
            let c = band(bandof(&[2, 4, 5]), &["SoftObjectProperty"]);
            let (e, v) = soft(&c);
            simple(&c, "SoftObjectProperty", &e.0, &|p| on!(p, SoftObjectProperty, |x| v.is(&x.value)))
        }
    }
}
struct Soft { package: Option<FNameV>, asset: FNameV, sub: Option<String> }
impl Soft { fn is(&self, s: &SoftObjectPath) -> bool { (match (&self.package, &s.asset_path.package_name) { (Some(a), Some(b)) => a.is(b), (None, None) => true, _ => false }) & self.asset.is(&s.asset_path.asset_name) & same_text(&self.sub, &s.sub_path_string) } }
fn soft(c: &harness::arch::Cfg) -> (Enc, Soft) {
    let (e, package) = if u5(c) >= 1007 { let (e, n) = numbered(Enc::new(), 3); (e, Some(n)) } else { (Enc::new(), None) };
    let (e, asset) = anyname(e);
    let (e, sub) = text(e, 4);
    (e, Soft { package, asset, sub })
}
fn soft_paths() {
    let names = ["SoftAssetPath", "SoftObjectPath", "SoftClassPath", "StringAssetReference"];
    let k = h::choice(4) as usize;
    let b = h::choice(5) as usize;
    let (o, u) = [(513, 0), (514, 0), (522, 0), (522, 1006), (522, 1007)][b];
    let c = cfg(o, u, &[names[k]]);
    let pick = |p: &Property| -> SoftObjectPathPropertyValue { match (p, k) { (P::SoftAssetPathProperty(x), 0) => x.value.clone(), (P::SoftObjectPathProperty(x), 1) => x.value.clone(), (P::SoftClassPathProperty(x), 2) => x.value.clone(), (P::StringAssetReferenceProperty(x), 3) => x.value.clone(), _ => { h::check(false, 32); Default::default() } } };
    if o < 514 { let (e, v) = text(Enc::new(), 4); all(&c, names[k], &e.0, &|p| match pick(p) { SoftObjectPathPropertyValue::Old(s) => h::check(same_text(&s, &v), 33), _ => h::check(false, 34) }) }
    else { let (e, v) = soft(&c); all(&c, names[k], &e.0, &|p| match pick(p) { SoftObjectPathPropertyValue::New(s) => h::check(v.is(&s), 35), _ => h::check(false, 36) }) }
}
fn texts() {
    let o = [225, 226, 367, 368, 522][h::choice(5) as usize];
    let mut c = cfg(o, 0, &["TextProperty"]);
    let stable = h::flag();
    custom::<FEditorObjectVersion>(&mut c, FEditorObjectVersion::CultureInvariantTextSerializationKeyStability as i32 - !stable as i32);
    let flags = h::u32();
    let focus = h::choice(3);
    let txt = |e: Enc, i: u64| if focus == i { text(e, 4) } else { text(e, 1) };
    let (e, want): (Enc, (i8, [Option<String>; 3], Option<FNameV>)) = if o < 368 {
        let (e, a) = txt(Enc::new(), 0);
        let (e, n) = if o >= 226 { txt(e, 1) } else { (e, None) };
        let (e, v) = txt(e, 2);
        (e.u32(flags), (0, [a, n, v], None))
    } else {
        let e = Enc::new().u32(flags);
        match h::choice(4) {
            0 => { let (e, n) = txt(e.u8(0), 1); let (e, v) = txt(e, 2); let (e, a) = txt(e, 0); (e, (0, [a, n, v], None)) }
            1 => { let (e, t) = anyname(e.u8(11)); let (e, v) = txt(e, 2); (e, (11, [None, None, v], Some(t))) }
            2 => { let e = e.u8(255); if stable { let s = h::ascii(2); (e.i32(1).str(&s), (-1, [Some(s), None, None], None)) } else { (e, (-1, [None, None, None], None)) } }
            _ => { let e = e.u8(255); (if stable { e.i32(0) } else { e }, (-1, [None, None, None], None)) }
        }
    };
    simple(&c, "TextProperty", &e.0, &|p| on!(p, TextProperty, |x| (x.flags == flags) & (i8::from(x.history_type) == want.0) & same_text(&x.culture_invariant_string, &want.1[0]) & same_text(&x.namespace, &want.1[1]) & same_text(&x.value, &want.1[2]) & match (&want.2, &x.table_id) { (Some(a), Some(b)) => a.is(b), (None, None) => true, _ => false }));
}
/// `n` floating-point coordinates in the width of the version
fn coords(c: &harness::arch::Cfg, n: usize) -> (Vec<u8>, Vec<u64>) {
    let mut e = Enc::new();
    let mut v = vec![];
    for _ in 0..n { if lwc(c) { let x = h::u64(); e = e.u64(x); v.push(x) } else { let x = h::u32(); h::assume(!((x & 0x7f80_0000 == 0x7f80_0000) & (x & 0x7f_ffff != 0))); e = e.u32(x); v.push((f32::from_bits(x) as f64).to_bits()) } }
    (e.0, v)
}
fn eqs(a: &[f64], b: &[u64]) -> bool { let mut ok = a.len() == b.len(); for i in 0..a.len().min(b.len()) { ok &= a[i].to_bits() == b[i] } ok }
fn vectors() {
    let names = ["Vector", "Rotator", "Vector2D", "Vector4", "Quat", "Plane", "Box", "Box2D"];
    let k = h::choice(8) as usize;
    let c = band(bandof(&[0, 1, 2, 3, 4]), &[names[k]]);
    let (mut val, v) = coords(&c, [3, 3, 2, 4, 4, 4, 6, 4][k]);
    let valid = h::flag();
    if k >= 6 { val.push(valid as u8) }
    let f = |p: &Property| match (p, k) {
        (P::VectorProperty(x), 0) => h::check(eqs(&[x.value.x.0, x.value.y.0, x.value.z.0], &v), 40),
        (P::RotatorProperty(x), 1) => h::check(eqs(&[x.value.x.0, x.value.y.0, x.value.z.0], &v), 40),
        (P::Vector2DProperty(x), 2) => h::check(eqs(&[x.value.x.0, x.value.y.0], &v), 40),
        (P::Vector4Property(x), 3) => h::check(eqs(&[x.value.x.0, x.value.y.0, x.value.z.0, x.value.w.0], &v), 40),
        (P::QuatProperty(x), 4) => h::check(eqs(&[x.value.x.0, x.value.y.0, x.value.z.0, x.value.w.0], &v), 40),
        (P::PlaneProperty(x), 5) => h::check(eqs(&[x.value.x.0, x.value.y.0, x.value.z.0, x.value.w.0], &v), 40),
        (P::BoxProperty(x), 6) => h::check(eqs(&[x.v1.value.x.0, x.v1.value.y.0, x.v1.value.z.0, x.v2.value.x.0, x.v2.value.y.0, x.v2.value.z.0], &v) & (x.is_valid == valid), 40),
        (P::Box2DProperty(x), 7) => h::check(eqs(&[x.v1.value.x.0, x.v1.value.y.0, x.v2.value.x.0, x.v2.value.y.0], &v) & (x.is_valid == valid), 40),
        _ => h::check(false, 41),
    };
    // Plane and Box2D are never struct values of their own name in this reader
    if k == 5 || k == 7 { if h::flag() { bare(&c, names[k], 0, &val, val.len(), &f) } else { tagged(&c, names[k], val.len() as i32, &[], &val, &f) } } else { all(&c, names[k], &val, &f) }
}
fn fixed() {
    let names = ["IntPoint", "LinearColor", "Color", "Timespan", "DateTime", "Guid", "FloatRange", "FontCharacter"];
    let k = h::choice(8) as usize;
    let c = band(bandof(&[0, 2, 4]), &[names[k]]);
    let b = h::bytes::<24>();
    let w = |i: usize| u32::from_le_bytes(b[i..i + 4].try_into().unwrap());
    let q = |i: usize| u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
    let n = [8, 16, 4, 8, 8, 16, 8, 21][k];
    let f = |p: &Property| match (p, k) {
        (P::IntPointProperty(x), 0) => h::check((x.value.x as u32 == w(0)) & (x.value.y as u32 == w(4)), 50),
        (P::LinearColorProperty(x), 1) => h::check((x.color.r.0.to_bits() == w(0)) & (x.color.g.0.to_bits() == w(4)) & (x.color.b.0.to_bits() == w(8)) & (x.color.a.0.to_bits() == w(12)), 50),
        (P::ColorProperty(x), 2) => h::check((x.color.b == b[0]) & (x.color.g == b[1]) & (x.color.r == b[2]) & (x.color.a == b[3]), 50),
        (P::TimeSpanProperty(x), 3) => h::check(x.ticks as u64 == q(0), 50),
        (P::DateTimeProperty(x), 4) => h::check(x.ticks as u64 == q(0), 50),
        (P::GuidProperty(x), 5) => h::check(h::same(&x.value.0, &b[..16]), 50),
        (P::FloatRangeProperty(x), 6) => h::check((x.lower_bound.0.to_bits() == w(0)) & (x.upper_bound.0.to_bits() == w(4)), 50),
        (P::FontCharacterProperty(_), 7) => {}
        _ => h::check(false, 51),
    };
    // a float range whose first bytes look like a name is read as a plain struct
    if k == 6 { h::assume(w(0) > 64) }
    all(&c, names[k], &b[..n], &f)
}
fn delegates() {
    let names = ["DelegateProperty", "MulticastDelegateProperty", "MulticastSparseDelegateProperty", "MulticastInlineDelegateProperty"];
    let k = h::choice(4) as usize;
    let c = band(bandof(&[0, 2, 4]), &[names[k]]);
    let n = if k == 0 { 1 } else { h::choice(3) as usize };
    let mut e = Enc::new();
    if k > 0 { e = e.i32(n as i32) }
    let mut want = vec![];
    for j in 0..n { let o = h::i32(); let (x, nm) = numbered(e.i32(o), 1 + j as i32); e = x; want.push((o, nm)) }
    let ok = |l: &[unreal_asset_properties::delegate_property::Delegate]| { let mut r = l.len() == want.len(); for (a, b) in l.iter().zip(&want) { r &= (a.object.index == b.0) & b.1.is(&a.delegate) } r };
    simple(&c, names[k], &e.0, &|p| match (p, k) {
        (P::DelegateProperty(x), 0) => h::check(ok(&[x.value.clone()]), 60),
        (P::MulticastDelegateProperty(x), 1) => h::check(ok(&x.value), 60),
        (P::MulticastSparseDelegateProperty(x), 2) => h::check(ok(&x.value), 60),
        (P::MulticastInlineDelegateProperty(x), 3) => h::check(ok(&x.value), 60),
        _ => h::check(false, 61),
    })
}
fn lists() {
    let names = ["PerPlatformBool", "PerPlatformInt", "PerPlatformFloat", "WeightedRandomSampler", "SkeletalMeshAreaWeightedTriangleSampler", "SkeletalMeshSamplingLODBuiltData", "GameplayTagContainer"];
    let k = h::choice(7) as usize;
    let c = band(bandof(&[0, 2, 4]), &[names[k]]);
    let n = h::choice(3) as usize;
    let mut e = Enc::new().i32(n as i32);
    let mut v: Vec<u32> = vec![];
    let mut tags = vec![];
    for _ in 0..n { match k { 0 => { let x = h::flag(); e = e.u8(x as u8); v.push(x as u32) } 6 => { let (x, t) = anyname(e); e = x; tags.push(t) } _ => { let x = h::u32(); e = e.u32(x); v.push(x) } } }
    let mut alias = vec![];
    let total = h::u32();
    if (3..6).contains(&k) { let m = h::choice(3) as usize; e = e.i32(m as i32); for _ in 0..m { let x = h::u32(); e = e.u32(x); alias.push(x) } e = e.u32(total) }
    let w = |l: &[unreal_asset_base::types::vector::Vector2<i32>]| l.len();
    let _ = w;
    let smp = |a: Vec<u32>, b: &Vec<i32>, t: u32| { let mut r = a.len() == v.len() && b.len() == alias.len(); for i in 0..v.len().min(a.len()) { r &= a[i] == v[i] } for i in 0..alias.len().min(b.len()) { r &= b[i] as u32 == alias[i] } r & (t == total) };
    let eql = |a: Vec<u32>| { let mut r = a.len() == v.len(); for i in 0..v.len().min(a.len()) { r &= a[i] == v[i] } r };
    all(&c, names[k], &e.0, &|p| match (p, k) {
        (P::PerPlatformBoolProperty(x), 0) => h::check(eql(x.value.iter().map(|b| *b as u32).collect()), 70),
        (P::PerPlatformIntProperty(x), 1) => h::check(eql(x.value.iter().map(|b| *b as u32).collect()), 70),
        (P::PerPlatformFloatProperty(x), 2) => h::check(eql(x.value.iter().map(|b| b.0.to_bits()).collect()), 70),
        (P::WeightedRandomSamplerProperty(x), 3) => h::check(smp(x.prob.iter().map(|b| b.0.to_bits()).collect(), &x.alias, x.total_weight.0.to_bits()), 70),
        (P::SkeletalMeshAreaWeightedTriangleSampler(x), 4) => h::check(smp(x.prob.iter().map(|b| b.0.to_bits()).collect(), &x.alias, x.total_weight.0.to_bits()), 70),
        (P::SkeletalMeshSamplingLODBuiltDataProperty(x), 5) => h::check(smp(x.sampler_property.prob.iter().map(|b| b.0.to_bits()).collect(), &x.sampler_property.alias, x.sampler_property.total_weight.0.to_bits()), 70),
        (P::GameplayTagContainerProperty(x), 6) => { let mut r = x.value.len() == tags.len(); for (a, b) in x.value.iter().zip(&tags) { r &= b.is(a) } h::check(r, 70) }
        _ => h::check(false, 71),
    })
}
fn misc() {
    h::stub_format(true);
    match h::choice(6) {
        0 => { // curve keys
            let old = h::flag();
            let c = band(if old { 2 } else { 4 }, &["RichCurveKey"]);
            let m = [h::u8(), h::u8(), h::u8()];
            let v: Vec<u32> = (0..6).map(|_| h::u32()).collect();
            h::assume((m[0] <= 3) & (m[1] <= 3) & (m[2] <= 3));
            let mut e = Enc::new().raw(&m);
            for x in &v { e = e.u32(*x) }
            all(&c, "RichCurveKey", &e.0, &|p| on!(p, RichCurveKeyProperty, |x| (i8::from(x.interp_mode) as u8 == m[0]) & (i8::from(x.tangent_mode) as u8 == m[1]) & (i8::from(x.tangent_weight_mode) as u8 == m[2]) & (x.time.0.to_bits() == v[0]) & (x.value.0.to_bits() == v[1]) & (x.arrive_tangent.0.to_bits() == v[2]) & (x.arrive_tangent_weight.0.to_bits() == v[3]) & (x.leave_tangent.0.to_bits() == v[4]) & (x.leave_tangent_weight.0.to_bits() == v[5])))
        }
        1 => {
            let c = band(bandof(&[0, 2, 4]), &["ViewTargetBlendParams"]);
            let (t, m, x, lock) = (h::u32(), h::u8(), h::u32(), h::flag());
            h::assume(m <= 4);
            all(&c, "ViewTargetBlendParams", &Enc::new().u32(t).u8(m).u32(x).u32(lock as u32).0, &|p| on!(p, ViewTargetBlendParamsProperty, |p| (p.blend_time.0.to_bits() == t) & (u8::from(p.blend_function) == m) & (p.blend_exp.0.to_bits() == x) & (p.lock_outgoing == lock)))
        }
        2 => {
            let mut c = band(2, &["SmartName"]);
            let (a, b) = (FAnimPhysObjectVersion::RemoveUIDFromSmartNameSerialize as i32, FAnimPhysObjectVersion::SmartNameRefactorForDeterministicCooking as i32);
            let v = [a - 1, a, b - 1, b][h::choice(4) as usize];
            custom::<FAnimPhysObjectVersion>(&mut c, v);
            let (mut e, n) = anyname(Enc::new());
            let (id, g) = (h::u16(), h::bytes::<16>());
            if v < a { e = e.u16(id) }
            if v < b { e = e.raw(&g) }
            all(&c, "SmartName", &e.0, &|p| on!(p, SmartNameProperty, |x| n.is(&x.display_name) & (x.smart_name_id == if v < a { Some(id) } else { None }) & guid_is(x.temp_guid, &if v < b { Some(g) } else { None })))
        }
        3 => { // a kind the library does not know: kept verbatim
            let c = band(bandof(&[0, 2, 4]), &["FooProperty"]);
            let b = h::bytes::<5>();
            let n = h::choice(6) as usize;
            simple(&c, "FooProperty", &b[..n], &|p| on!(p, UnknownProperty, |x| h::same(&x.value, &b[..n]) & (&x.serialized_type == "FooProperty")))
        }
        4 => { // font data
            let mut c = band(2, &["FontData"]);
            let a = FEditorObjectVersion::AddedFontFaceAssets as i32;
            let new = h::flag();
            custom::<FEditorObjectVersion>(&mut c, a - !new as i32);
            if !new { bare(&c, "FontData", 0, &[], 0, &|p| on!(p, FontDataProperty, |x| x.value.is_none())); return }
            let cooked = h::flag();
            let mut e = Enc::new().i32(cooked as i32);
            if cooked {
                let inline = h::flag();
                let (o, sub) = (if inline { 0 } else { let o = h::i32(); h::assume(o != 0); o }, h::i32());
                e = e.i32(o);
                let (hint, pol) = (h::u8(), h::u8());
                if inline { h::assume((hint <= 4) & (pol <= 2)); e = text(e, 4).0.u8(hint).u8(pol) }
                e = e.i32(sub);
            }
            all(&c, "FontData", &e.0, &|p| on!(p, FontDataProperty, |x| x.value.is_some()))
        }
        _ => { // network ids
            let c = band(bandof(&[0, 2, 4]), &["UniqueNetIdRepl"]);
            if h::flag() { all(&c, "UniqueNetIdRepl", &Enc::new().i32(0).0, &|p| on!(p, UniqueNetIdProperty, |x| x.value.is_none())); return }
            let (b, n) = anyname(Enc::new());
            let s = h::ascii(3);
            let b = b.str(&s);
            let e = Enc::new().i32(4 + b.len() as i32).raw(&b.0);
            all(&c, "UniqueNetIdRepl", &e.0, &|p| on!(p, UniqueNetIdProperty, |x| match &x.value { Some(v) => n.is(&v.ty) & same_text(&v.contents, &Some(s.clone())), None => false }))
        }
    }
}
fn materials() {
    let names = ["ExpressionInput", "MaterialAttributesInput", "ColorMaterialInput", "ScalarMaterialInput", "ShadingModelMaterialInput", "VectorMaterialInput", "Vector2MaterialInput"];
    let k = h::choice(7) as usize;
    let c = band(bandof(&[0, 2, 4]), &[names[k]]);
    let (out, extra) = (h::i32(), h::bytes::<20>());
    let (e, input) = anyname(Enc::new().i32(out));
    let (mut e, expr) = numbered(e.raw(&extra), 3);
    let (w, b4) = (h::u32(), h::bytes::<4>());
    if k >= 2 { e = e.u32(h::flag() as u32) }
    let mut xs = vec![];
    match k { 2 => e = e.raw(&b4), 3 | 4 => e = e.u32(w), 5 => { let (b, v) = coords(&c, 3); e = e.raw(&b); xs = v } 6 => { let (b, v) = coords(&c, 2); e = e.raw(&b); xs = v } _ => {} }
    let m = |x: &unreal_asset_properties::material_input_property::MaterialExpression| (x.output_index == out) & input.is(&x.input_name) & expr.is(&x.expression_name) & h::same(&x.extras, &extra);
    all(&c, names[k], &e.0, &|p| match (p, k) {
        (P::ExpressionInputProperty(x), 0) => h::check(m(&x.material_expression), 80),
        (P::MaterialAttributesInputProperty(x), 1) => h::check(m(&x.material_expression), 80),
        (P::ColorMaterialInputProperty(x), 2) => h::check(m(&x.material_expression) & (x.value.color.r == b4[2]) & (x.value.color.a == b4[3]), 80),
        (P::ScalarMaterialInputProperty(x), 3) => h::check(m(&x.material_expression) & (x.value.0.to_bits() == w), 80),
        (P::ShadingModelMaterialInputProperty(x), 4) => h::check(m(&x.material_expression) & (x.value == w), 80),
        (P::VectorMaterialInputProperty(x), 5) => h::check(m(&x.material_expression) & eqs(&[x.value.value.x.0, x.value.value.y.0, x.value.value.z.0], &xs), 80),
        (P::Vector2MaterialInputProperty(x), 6) => h::check(m(&x.material_expression) & eqs(&[x.value.value.x.0, x.value.value.y.0], &xs), 80),
        _ => h::check(false, 81),
    })
}
/// a frame range whose bound kinds are any pair, or fixed ones
fn range(e: Enc, vary: bool) -> Enc { let t = if vary { h::bytes::<2>() } else { [1, 0] }; h::assume((t[0] <= 3) & (t[1] <= 3)); e.u8(t[0]).any(4).u8(t[1]).any(4) }
fn tree(items: &dyn Fn(Enc) -> Enc) -> Enc {
    let vary = h::choice(3);
    let mut e = range(Enc::new(), vary == 1).any(16);
    let (a, b) = [(0, 0), (1, 2), (2, 1), (0, 1)][h::choice(4) as usize];
    e = e.i32(a); for _ in 0..a { e = e.any(12) }
    let n = if h::flag() { 1 } else { 0 };
    e = e.i32(n); for _ in 0..n { e = range(e, vary == 2).any(16) }
    e = e.i32(b); for _ in 0..b { e = e.any(12) }
    let n = h::choice(3) as i32;
    e = e.i32(n); for _ in 0..n { e = items(e) }
    e
}
fn movie_values() {
    let names = ["MovieSceneFloatChannel", "MovieSceneFloatValue", "MovieSceneFrameRange", "MovieSceneSegmentIdentifier", "MovieSceneTrackIdentifier", "MovieSceneSequenceId", "MovieSceneEvaluationKey", "MovieSceneSequenceInstanceDataPtr", "MovieSceneEventParameters"];
    let k = h::choice(9) as usize;
    let c = band(bandof(&[2, 4]), &[names[k]]);
    let value = |e: Enc, vary: u64| { let mut m = [1, 2, 3]; if vary < 3 { m[vary as usize] = h::u8(); h::assume(m[vary as usize] <= 3) } e.any(20).raw(&m) };
    match k {
        0 => {
            let vary = h::choice(5);
            let mut x = [2, 5]; if vary < 2 { x[vary as usize] = h::u8(); h::assume(x[vary as usize] <= 6) }
            let mut e = Enc::new().raw(&x).any(4);
            let n = h::choice(3) as i32; e = e.i32(n).any(4 * n as usize);
            let m = h::choice(3) as i32; e = e.any(4).i32(m); for i in 0..m { e = value(e, if i == m - 1 { vary.wrapping_sub(2) } else { 3 }) }
            e = e.any(4).u32(h::flag() as u32);
            let (num, den) = (h::i32(), h::i32());
            e = e.i32(num).i32(den);
            all(&c, names[k], &e.0, &|p| on!(p, MovieSceneFloatChannelProperty, |x| (x.value.times.len() == n as usize) & (x.value.values.len() == m as usize) & (x.value.tick_resolution.numerator == num) & (x.value.tick_resolution.denominator == den)))
        }
        1 => { let e = value(Enc::new(), h::choice(3)); let v = e.0.clone(); all(&c, names[k], &e.0, &|p| on!(p, MovieSceneFloatValueProperty, |x| x.value.value.0.to_bits() == u32::from_le_bytes(v[..4].try_into().unwrap()))) }
        2 => { let t = h::bytes::<2>(); h::assume((t[0] <= 3) & (t[1] <= 3)); let (a, b) = (h::i32(), h::i32()); all(&c, names[k], &Enc::new().u8(t[0]).i32(a).u8(t[1]).i32(b).0, &|p| on!(p, MovieSceneFrameRangeProperty, |x| (x.lower_bound.value == a) & (x.upper_bound.value == b))) }
        3 => { let v = h::i32(); all(&c, names[k], &v.to_le_bytes(), &|p| on!(p, MovieSceneSegmentIdentifierProperty, |x| x.value.identifier_index == v)) }
        4 => { let v = h::u32(); all(&c, names[k], &v.to_le_bytes(), &|p| on!(p, MovieSceneTrackIdentifierProperty, |x| x.value.value == v)) }
        5 => { let v = h::u32(); all(&c, names[k], &v.to_le_bytes(), &|p| on!(p, MovieSceneSequenceIdProperty, |x| x.value.value == v)) }
        6 => { let (a, b, d) = (h::u32(), h::u32(), h::u32()); all(&c, names[k], &Enc::new().u32(a).u32(b).u32(d).0, &|p| on!(p, MovieSceneEvaluationKeyProperty, |x| (x.value.sequence_id.value == a) & (x.value.track_identifier.value == b) & (x.value.section_index == d))) }
        7 => { let v = h::i32(); all(&c, names[k], &v.to_le_bytes(), &|p| on!(p, MovieSceneSequenceInstanceDataPtrProperty, |x| x.value.index == v)) }
        _ => { let (e, s) = soft(&c); let n = h::choice(4) as usize; let b = h::bytes::<3>(); let e = e.i32(n as i32).raw(&b[..n]); all(&c, names[k], &e.0, &|p| on!(p, MovieSceneEventParametersProperty, |x| s.is(&x.value.struct_type) & h::same(&x.value.struct_bytes, &b[..n]))) }
    }
}
fn movie_trees() {
    let names = ["MovieSceneEvaluationFieldEntityTree", "MovieSceneSubSequenceTree", "MovieSceneTrackFieldData", "SectionEvaluationDataTree"];
    let k = h::choice(4) as usize;
    let c = band(2, &[names[k]]);
    let e = match k {
        0 => tree(&|e| e.any(8)),
        1 => tree(&|e| { let f = h::u8(); h::assume(f <= 3); e.any(4).u8(f) }),
        2 => tree(&|e| e.any(4)),
        _ => tree(&|e| { let v = h::bytes::<4>(); e.raw(&plain(&c, 1, "IntProperty", 4, &[], &v)).name(0, 0) }),
    };
    all(&c, names[k], &e.0, &|p| match (p, k) { (P::MovieSceneEvaluationFieldEntityTreeProperty(_), 0) | (P::MovieSceneSubSequenceTreeProperty(_), 1) | (P::MovieSceneTrackFieldDataProperty(_), 2) | (P::SectionEvaluationDataTreeProperty(_), 3) => {} _ => h::check(false, 91) })
}
fn movie_lists() {
    let names = ["MovieSceneSegment", "MovieSceneEvalTemplatePtr", "MovieSceneTrackImplementationPtr", "NiagaraVariable", "NiagaraVariableWithOffset"];
    let k = h::choice(5) as usize;
    let c = band(bandof(&[1, 2]), &[names[k]]);
    let list = |mut e: Enc| { for _ in 0..h::choice(3) { let v = h::bytes::<4>(); e = e.raw(&plain(&c, 1, "IntProperty", 4, &[], &v)) } e.name(0, 0) };
    let e = match k {
        0 => { let mut e = range(Enc::new(), true).any(4).u32(h::flag() as u32); let n = h::choice(3) as i32; e = e.i32(n); for _ in 0..n { e = list(e) } e }
        1 | 2 => if h::flag() { Enc::new().i32(0) } else { let s = h::ascii(2); list(Enc::new().str(&s)) },
        _ => list(Enc::new().name(3, h::i32())).any(4),
    };
    let f = |p: &Property| match (p, k) { (P::MovieSceneSegmentProperty(_), 0) | (P::MovieSceneEvalTemplatePtrProperty(_), 1) | (P::MovieSceneTrackImplementationPtrProperty(_), 2) | (P::NiagaraVariableProperty(_), 3) | (P::NiagaraVariableWithOffsetProperty(_), 4) => {} _ => h::check(false, 91) };
    if h::flag() { bare(&c, names[k], 0, &e.0, e.len(), &f) } else { in_struct(&c, names[k], &e.0, &f) }
}
fn cloth() {
    let c = band(bandof(&[2, 4]), &["ClothLODData", "PositionBaryCoordsAndDist", "NormalBaryCoordsAndDist", "TangentBaryCoordsAndDist"]);
    let mut e = Enc::new();
    if h::flag() { let v = h::bytes::<4>(); e = e.raw(&plain(&c, 1, "IntProperty", 4, &[], &v)) }
    e = e.name(0, 0);
    for _ in 0..2 { let n = h::choice(2) as i32; e = e.i32(n); for _ in 0..n { for _ in 0..3 { let (b, _) = coords(&c, 4); e = e.raw(&b) } e = e.any(8).any(4).u32(0) } }
    let f = |p: &Property| on!(p, ClothLodDataProperty, |_x| true);
    if h::flag() { bare(&c, "ClothLODData", 0, &e.0, e.len(), &f) } else { in_struct(&c, "ClothLODData", &e.0, &f) }
}
/// counts and lengths that do not fit the data are errors
fn malformed() {
    h::stub_format(true);
    let names = ["FooProperty", "PerPlatformInt", "GameplayTagContainer", "WeightedRandomSampler", "MulticastDelegateProperty", "MovieSceneEventParameters", "MovieSceneFloatChannel", "MovieSceneTrackFieldData", "MovieSceneSegment", "ClothLODData", "StrProperty", "PerPlatformBool"];
    let k = h::choice(12) as usize;
    let c = band(2, &[names[k]]);
    let n = h::size32(3) as i32;
    let pre = match k { 5 => Enc::new().name(1, 0).i32(0), 6 => Enc::new().u16(0).i32(4), 7 => Enc::new().u8(0).i32(0).u8(0).i32(0).any(16), 8 => Enc::new().u8(0).i32(0).u8(0).i32(0).i32(1).i32(0), 9 => Enc::new().name(0, 0), _ => Enc::new() };
    let e = if k == 0 { Enc::new().any(3) } else { pre.i32(n).any(3) };
    let mut rd = c.rd(e.0.clone());
    let r = Property::from_type(&mut rd, &c.name(names[k]), c.name("A"), Default::default(), false, if k == 0 { n as i64 } else { 0 }, 0, 0, false);
    if r.is_ok() { h::check(n >= 0 && n <= 3 || (k == 10 && n < 0), 95) }
    if k == 0 { h::check(r.is_ok() == (n >= 0 && n <= 3), 96) }
}
h::cases! { case_ints => ints, case_bools => bools, case_bytes_enums => bytes_enums, case_strings => strings, case_soft_paths => soft_paths, case_texts => texts, case_vectors => vectors, case_fixed => fixed, case_delegates => delegates, case_lists => lists, case_misc => misc, case_materials => materials, case_movie_values => movie_values, case_movie_trees => movie_trees, case_movie_lists => movie_lists, case_cloth => cloth, case_malformed => malformed }
