//! P16: containers of property values.
use harness as h;
use harness::{arch::Cfg, prop::*, Enc};
use unreal_asset_properties::{array_property::ArrayProperty, int_property::BytePropertyValue, struct_property::StructProperty, Property, Property as P, PropertyDataTrait};

type Is = Box<dyn Fn(&Property) -> bool>;
const KINDS: [&str; 12] = ["IntProperty", "ByteProperty", "BoolProperty", "StrProperty", "NameProperty", "ObjectProperty", "SoftObjectProperty", "EnumProperty", "DoubleProperty", "FooProperty", "ByteProperty", "DelegateProperty"];
fn band16() -> (i32, i32) { [(440, 0), (441, 0), (499, 0), (500, 0), (502, 0), (503, 0), (522, 1004)][h::choice(7) as usize] }
fn near(b: usize) -> (i32, i32) { [(441, 0), (522, 0), (522, 1010)][b] }
/// one element of an array or set, without tag
fn elem(c: &Cfg, k: usize) -> (Vec<u8>, Is) {
    match k {
        0 => { let v = h::i32(); (v.to_le_bytes().to_vec(), Box::new(move |p| matches!(p, P::IntProperty(x) if x.value == v))) }
        1 => { let v = h::u8(); (vec![v], Box::new(move |p| matches!(p, P::ByteProperty(x) if matches!(x.value, BytePropertyValue::Byte(b) if b == v)))) }
        2 => { let v = h::flag(); (vec![v as u8], Box::new(move |p| matches!(p, P::BoolProperty(x) if x.value == v))) }
        3 => { let s = h::ascii(2); (Enc::new().str(&s).0, Box::new(move |p| matches!(p, P::StrProperty(x) if same_text(&x.value, &Some(s.clone()))))) }
        4 => { let (e, n) = numbered(Enc::new(), 3); (e.0, Box::new(move |p| matches!(p, P::NameProperty(x) if n.is(&x.value)))) }
        5 => { let v = h::i32(); (v.to_le_bytes().to_vec(), Box::new(move |p| matches!(p, P::ObjectProperty(x) if x.value.index == v))) }
        6 => {
            let (e, pk) = if u5(c) >= 1007 { let (e, n) = numbered(Enc::new(), 3); (e, Some(n)) } else { (Enc::new(), None) };
            let (e, n) = numbered(e, 1);
            let e = e.i32(0);
            (e.0, Box::new(move |p| matches!(p, P::SoftObjectProperty(x) if n.is(&x.value.asset_path.asset_name) & x.value.sub_path_string.is_none() & match (&pk, &x.value.asset_path.package_name) { (Some(a), Some(b)) => a.is(b), (None, None) => true, _ => false })))
        }
        7 => { let (e, n) = numbered(Enc::new(), 3); (e.0, Box::new(move |p| matches!(p, P::EnumProperty(x) if x.value.as_ref().map(|y| n.is(y)).unwrap_or(false)))) }
        8 => { let v = h::u64(); (v.to_le_bytes().to_vec(), Box::new(move |p| matches!(p, P::DoubleProperty(x) if x.value.0.to_bits() == v))) }
        9 => { let v = h::bytes::<5>(); (v.to_vec(), Box::new(move |p| matches!(p, P::UnknownProperty(x) if h::same(&x.value, &v)))) }
        10 => { let (e, n) = numbered(Enc::new(), 3); (e.0, Box::new(move |p| matches!(p, P::ByteProperty(x) if matches!(&x.value, BytePropertyValue::FName(b) if n.is(b))))) }
        _ => { let o = h::i32(); let (e, n) = numbered(Enc::new().i32(o), 3); (e.0, Box::new(move |p| matches!(p, P::DelegateProperty(x) if (x.value.object.index == o) & n.is(&x.value.delegate)))) }
    }
}
fn each(v: &[Property], l: &[Is]) -> bool { let mut r = v.len() == l.len(); for (p, f) in v.iter().zip(l) { r &= f(p) } r }
/// arrays of values
fn arrays() {
    let (o, u) = near(h::choice(3) as usize);
    let k = h::choice(12) as usize;
    let c = cfg(o, u, &["ArrayProperty", KINDS[k]]);
    let n = if matches!(k, 1 | 10) { h::choice(8) } else { h::choice(4) } as usize;
    let (mut e, mut l) = (Enc::new().i32(n as i32), vec![]);
    for _ in 0..n { let (b, f) = elem(&c, k); e = e.raw(&b); l.push(f) }
    tagged(&c, "ArrayProperty", e.len() as i32, &Enc::new().name(idx(&c, KINDS[k]), 0).0, &e.0, &|p| {
        let P::ArrayProperty(a) = p else { h::check(false, 100); return };
        h::check(each(&a.value, &l), 101);
        h::check(a.array_type.as_ref().map(|t| t == KINDS[k]).unwrap_or(false), 102);
    })
}
/// a list of tagged properties and its terminator
fn list(c: &Cfg, n: usize) -> (Vec<u8>, Vec<Is>) {
    let (mut e, mut l) = (Enc::new(), vec![]);
    for j in 0..n {
        let v = h::i32();
        let nm = [1, 3][j % 2];
        e = e.raw(&plain(c, nm, "IntProperty", 4, &[], &v.to_le_bytes()));
        l.push(Box::new(move |p: &Property| matches!(p, P::IntProperty(x) if (x.value == v) & (x.name == NAMES[nm as usize]))) as Is)
    }
    (e.name(0, 0).0, l)
}
fn is_list(s: &StructProperty, l: &[Is]) -> bool { each(&s.value, l) }
/// structs kept as a list of tagged properties
fn structs() {
    let (o, u) = band16();
    let c = cfg(o, u, &["Foo"]);
    let (ty, tn) = numbered(Enc::new(), 3);
    let g = h::bytes::<16>();
    let hdr = if o >= 441 { ty.raw(&g) } else { ty };
    let n = h::choice(4) as usize;
    let (val, l) = if n == 3 { (vec![], vec![]) } else { list(&c, n) };
    tagged(&c, "StructProperty", val.len() as i32, &hdr.0, &val, &|p| {
        let P::StructProperty(s) = p else { h::check(false, 110); return };
        h::check(is_list(s, &l), 111);
        h::check(s.struct_type.as_ref().map(|t| tn.is(t)).unwrap_or(false), 112);
        h::check(guid_is(s.struct_guid, &if o >= 441 { Some(g) } else { None }), 113);
    })
}
/// a struct of a custom type may be absent
fn empty_custom() {
    let (o, u) = near(h::choice(3) as usize);
    let ty = ["Vector", "Guid", "GameplayTagContainer", "RichCurveKey"][h::choice(4) as usize];
    let c = cfg(o, u, &[ty]);
    let e = Enc::new().name(idx(&c, ty), 0);
    let hdr = if o >= 441 { e.raw(&h::bytes::<16>()) } else { e };
    tagged(&c, "StructProperty", 0, &hdr.0, &[], &|p| { let P::StructProperty(s) = p else { h::check(false, 115); return }; h::check(s.value.is_empty(), 116) })
}
/// arrays of structs, with their inner tag from object version 500
fn struct_arrays() {
    let (o, u) = band16();
    let mut c = cfg(o, u, &["ArrayProperty", "Vector", "Generic"]);
    let custom = h::flag();
    // before the inner tag the element type comes from a table by array name
    if custom && o < 500 { c.struct_override = vec![("A".into(), "Vector".into())] }
    let n = h::choice(3) as usize;
    let (mut body, mut l): (Enc, Vec<Is>) = (Enc::new(), vec![]);
    for _ in 0..n {
        if custom {
            let mut v = vec![];
            for _ in 0..3 { if lwc(&c) { let x = h::u64(); body = body.u64(x); v.push(x) } else { let x = h::u32(); h::assume(x & 0x7f80_0000 != 0x7f80_0000); body = body.u32(x); v.push((f32::from_bits(x) as f64).to_bits()) } }
            l.push(Box::new(move |p| match p { P::StructProperty(s) => s.value.len() == 1 && matches!(&s.value[0], P::VectorProperty(x) if (x.value.x.0.to_bits() == v[0]) & (x.value.y.0.to_bits() == v[1]) & (x.value.z.0.to_bits() == v[2])), _ => false }))
        } else { let m = h::choice(2) as usize; let (b, f) = list(&c, m); body = body.raw(&b); l.push(Box::new(move |p| matches!(p, P::StructProperty(s) if is_list(s, &f)))) }
    }
    let mut e = Enc::new().i32(n as i32);
    let g = h::bytes::<16>();
    let (mut inner, mut ty) = (FNameV { i: 0, n: 0 }, FNameV { i: 0, n: 0 });
    if o >= 500 {
        let (x, a) = numbered(e, 3);
        inner = a;
        e = x.name(idx(&c, "StructProperty"), 0).i32(body.len() as i32).i32(0);
        if custom { e = e.name(idx(&c, "Vector"), 0) } else { let (x, t) = numbered(e, 3); e = x; ty = t }
        e = e.raw(&g);
        if o >= 503 { e = e.u8(0) }
    }
    let e = e.raw(&body.0);
    tagged(&c, "ArrayProperty", e.len() as i32, &Enc::new().name(idx(&c, "StructProperty"), 0).0, &e.0, &|p| {
        let P::ArrayProperty(a) = p else { h::check(false, 120); return };
        h::check(each(&a.value, &l), 121);
        if o >= 500 {
            let s: Vec<&StructProperty> = match n { 0 => a.dummy_property.iter().collect(), _ => a.value.iter().filter_map(|v| match v { P::StructProperty(s) => Some(s), _ => None }).collect() };
            h::check(s.len() == n.max(1), 122);
            let mut ok = true;
            for s in s { ok &= inner.is(&s.name) & guid_is(s.struct_guid, &Some(g)) & (custom || s.struct_type.as_ref().map(|t| ty.is(t)).unwrap_or(false)) }
            h::check(ok, 123);
        }
    })
}
/// sets: removed elements, then elements
fn sets() {
    let (o, u) = near(h::choice(3) as usize);
    let k = h::choice(13) as usize;
    let ty = if k == 12 { "StructProperty" } else { KINDS[k] };
    let c = cfg(o, u, &["SetProperty", ty]);
    let el = |c: &Cfg| -> (Vec<u8>, Is) { if k == 12 { let (b, f) = list(c, 1); (b, Box::new(move |p| matches!(p, P::StructProperty(s) if is_list(s, &f)))) } else { elem(c, k) } };
    // the element size of a byte or unknown kind is estimated from the whole set
    let r = if matches!(k, 1 | 9 | 10) { 0 } else { h::choice(3) as usize };
    let n = h::choice(4) as usize;
    let (mut rem, mut l) = (vec![], vec![]);
    let mut e = Enc::new().i32(r as i32);
    for _ in 0..r { let (b, f) = el(&c); e = e.raw(&b); rem.push(f) }
    e = e.i32(n as i32);
    for _ in 0..n { let (b, f) = el(&c); e = e.raw(&b); l.push(f) }
    tagged(&c, "SetProperty", e.len() as i32, &Enc::new().name(idx(&c, ty), 0).0, &e.0, &|p| {
        let P::SetProperty(s) = p else { h::check(false, 130); return };
        h::check(each(&s.removed_items.value, &rem), 131);
        h::check(each(&s.value.value, &l), 132);
        h::check(s.array_type.as_ref().map(|t| t == ty).unwrap_or(false), 133);
    })
}
/// a map key with a fixed text (its hash is computed by the library)
fn key(k: usize, j: usize) -> (Vec<u8>, Is) {
    match k {
        0 => { let v = [7i32, -1, 0][j]; (v.to_le_bytes().to_vec(), Box::new(move |p| matches!(p, P::IntProperty(x) if x.value == v))) }
        1 => { let s = ["a", "", "b/c"][j]; (Enc::new().str(s).0, Box::new(move |p| matches!(p, P::StrProperty(x) if x.value.as_deref() == Some(s)))) }
        2 => { let n = FNameV { i: [1, 3, 1][j], n: [0, 5, 2][j] }; (Enc::new().name(n.i, n.n).0, Box::new(move |p| matches!(p, P::NameProperty(x) if n.is(&x.value)))) }
        3 => { let n = FNameV { i: [3, 1, 1][j], n: [0, 0, 1][j] }; (Enc::new().name(n.i, n.n).0, Box::new(move |p| matches!(p, P::EnumProperty(x) if x.value.as_ref().map(|y| n.is(y)).unwrap_or(false)))) }
        _ => { let v = [3i32, -4, 0][j]; (v.to_le_bytes().to_vec(), Box::new(move |p| matches!(p, P::ObjectProperty(x) if x.value.index == v))) }
    }
}
const KEYS: [&str; 5] = ["IntProperty", "StrProperty", "NameProperty", "EnumProperty", "ObjectProperty"];
fn maps() {
    let (o, u) = near(h::choice(3) as usize);
    let kk = h::choice(5) as usize;
    // 12: plain struct values; 13: struct values of the custom kind given by the override table; 14: struct keys of that kind
    let vk = [0, 2, 3, 4, 5, 6, 7, 8, 11, 12, 13, 14][h::choice(12) as usize];
    let (kt, vt) = (if vk == 14 { "StructProperty" } else { KEYS[kk] }, if vk >= 14 { "IntProperty" } else if vk >= 12 { "StructProperty" } else { KINDS[vk] });
    if vk == 14 { h::assume(kk == 0) }
    let mut c = cfg(o, u, &["MapProperty", kt, vt]);
    if vk == 13 { c.value_override = vec![("A".into(), "IntPoint".into())] }
    if vk == 14 { c.key_override = vec![("A".into(), "IntPoint".into())] }
    let kf = |j: usize| -> (Vec<u8>, Is) { if vk == 14 { let (a, b) = [(1, 2), (2, 1), (-1, 0)][j]; (Enc::new().i32(a).i32(b).0, Box::new(move |p| matches!(p, P::StructProperty(s) if s.value.len() == 1 && matches!(&s.value[0], P::IntPointProperty(x) if x.value.x == a && x.value.y == b)))) } else { key(kk, j) } };
    let vf = |c: &Cfg| -> (Vec<u8>, Is) { match vk {
        12 => { let (b, f) = list(c, 1); (b, Box::new(move |p| matches!(p, P::StructProperty(s) if is_list(s, &f)))) }
        13 => { let (a, b) = (h::i32(), h::i32()); (Enc::new().i32(a).i32(b).0, Box::new(move |p| matches!(p, P::StructProperty(s) if s.value.len() == 1 && matches!(&s.value[0], P::IntPointProperty(x) if (x.value.x == a) & (x.value.y == b))))) }
        14 => elem(c, 0),
        _ => elem(c, vk),
    } };
    let (r, n) = [(0, 0), (0, 1), (0, 2), (1, 1), (2, 0), (2, 3), (3, 1)][h::choice(7) as usize];
    let (mut rem, mut l) = (vec![], vec![]);
    let mut e = Enc::new().i32(r as i32);
    for j in 0..r { let (b, f) = kf(j); e = e.raw(&b); rem.push(f) }
    e = e.i32(n as i32);
    for j in 0..n { let (b, f) = kf(j); let (b2, f2) = vf(&c); e = e.raw(&b).raw(&b2); l.push((f, f2)) }
    tagged_fixed(&c, "MapProperty", e.len() as i32, &Enc::new().name(idx(&c, kt), 0).name(idx(&c, vt), 0).0, &e.0, &|p| {
        let P::MapProperty(m) = p else { h::check(false, 140); return };
        h::check(m.value.len() == n, 141);
        let mut ok = true;
        for (i, (_, k, v)) in m.value.iter().enumerate() { if i < n { ok &= l[i].0(k) & l[i].1(v) } }
        h::check(ok, 142);
        h::check(match &m.keys_to_remove { None => r == 0, Some(v) => each(v, &rem) }, 143);
        h::check((m.key_type == kt) & (m.value_type == vt), 144);
        // keys find their values
        for j in 0..n { let k = m.value.iter().nth(j).unwrap().1; h::check(m.value.get_by_key(k).map(|v| l[j].1(v)).unwrap_or(false), 145) }
    })
}
/// containers inside containers
fn nested() {
    let (o, u) = [(522, 0), (522, 1010)][h::choice(2) as usize];
    let c = cfg(o, u, &["ArrayProperty", "MapProperty", "SetProperty", "NameProperty", "Outer", "StrProperty"]);
    let v = h::bytes::<4>();
    let w = h::i32();
    let x = i32::from_le_bytes(v);
    let tagd = |ty: &str, hdr: &[u8], val: &[u8]| plain(&c, 1, ty, val.len() as i32, hdr, val);
    let st = |body: &[u8]| { let b = Enc::new().raw(body).name(0, 0).0; tagd("StructProperty", &Enc::new().name(idx(&c, "Outer"), 0).raw(&[3; 16]).0, &b) };
    let ints = |k: i32| tagd("ArrayProperty", &Enc::new().name(idx(&c, "IntProperty"), 0).0, &{ let mut e = Enc::new().i32(k); for _ in 0..k { e = e.raw(&v) } e.0 });
    let map = tagd("MapProperty", &Enc::new().name(idx(&c, "NameProperty"), 0).name(idx(&c, "StructProperty"), 0).0, &Enc::new().i32(0).i32(1).name(3, 0).raw(&ints(1)).name(0, 0).0);
    let set = tagd("SetProperty", &Enc::new().name(idx(&c, "StructProperty"), 0).0, &Enc::new().i32(0).i32(1).raw(&ints(2)).name(0, 0).0);
    let arr = |bodies: &[Vec<u8>]| { let mut b = Enc::new(); for x in bodies { b = b.raw(x).name(0, 0) } let e = Enc::new().i32(bodies.len() as i32).name(1, 0).name(idx(&c, "StructProperty"), 0).i32(b.len() as i32).i32(0).name(idx(&c, "Outer"), 0).raw(&[9; 16]).u8(0).raw(&b.0); tagd("ArrayProperty", &Enc::new().name(idx(&c, "StructProperty"), 0).0, &e.0) };
    let body = match h::choice(6) {
        0 => st(&ints(2)),
        1 => st(&st(&plain(&c, 3, "IntProperty", 4, &[], &w.to_le_bytes()))),
        2 => arr(&[ints(1), map.clone()]),
        3 => arr(&[arr(&[ints(1)]), st(&[])]),
        4 => map.clone(),
        _ => st(&Enc::new().raw(&set).raw(&map).0),
    };
    // the whole is a struct value
    let val = Enc::new().raw(&body).name(0, 0).0;
    tagged(&c, "StructProperty", val.len() as i32, &Enc::new().name(idx(&c, "Outer"), 0).raw(&[0; 16]).0, &val, &|p| {
        let P::StructProperty(s) = p else { h::check(false, 150); return };
        h::check(s.value.len() == 1, 151);
        h::check(deep(&s.value[0], x) | deep(&s.value[0], w), 152);
    })
}
/// is some integer below `p` equal to v
fn deep(p: &Property, v: i32) -> bool {
    match p {
        P::IntProperty(x) => x.value == v,
        P::StructProperty(s) => { let mut r = s.value.is_empty(); for x in &s.value { r |= deep(x, v) } r }
        P::ArrayProperty(a) => { let mut r = false; for x in &a.value { r |= deep(x, v) } r }
        P::SetProperty(a) => { let mut r = false; for x in &a.value.value { r |= deep(x, v) } r }
        P::MapProperty(m) => { let mut r = false; for (_, _, x) in &m.value { r |= deep(x, v) } r }
        _ => false,
    }
}
/// any count: an error or as many elements as said
fn malformed() {
    h::stub_format(true);
    let k = h::choice(6) as usize;
    let ty = ["ArrayProperty", "ArrayProperty", "SetProperty", "SetProperty", "MapProperty", "MapProperty"][k];
    let c = cfg(522, 0, &[ty]);
    let n = h::size32(3) as i32;
    let int = idx(&c, "IntProperty");
    let hdr = if k >= 4 { Enc::new().name(int, 0).name(int, 0) } else { Enc::new().name(if k == 1 { idx(&c, "StructProperty") } else { int }, 0) };
    let e = match k { 3 | 5 => Enc::new().i32(0).i32(n), _ => Enc::new().i32(n) };
    let e = if k == 1 { e.name(1, 0).name(idx(&c, "StructProperty"), 0).i32(8).i32(0).name(1, 0).raw(&[0; 16]).u8(0) } else { e };
    let e = hdr.u8(0).raw(&e.0).raw(&[1, 0, 0, 0, 2, 0, 0, 0, 3, 0, 0, 0]);
    let mut rd = c.rd(e.0);
    let r = Property::from_type(&mut rd, &c.name(ty), c.name("A"), Default::default(), true, h::u32() as i32 as i64, 0, 0, false);
    if let Ok(p) = r {
        h::check(n >= 0, 160);
        let got = match &p { P::ArrayProperty(a) => a.value.len(), P::SetProperty(s) => if k == 2 { s.removed_items.value.len() } else { s.value.value.len() }, P::MapProperty(m) => if k == 4 { m.keys_to_remove.as_ref().map(|v| v.len()).unwrap_or(0) } else { m.value.len() }, _ => usize::MAX };
        h::check(got == n as usize, 161);
    }
}
/// an array made by hand writes its elements
fn made() {
    let c = cfg(522, 0, &["ArrayProperty"]);
    let v = [h::i32(), h::i32()];
    let l: Vec<Property> = v.iter().map(|x| unreal_asset_properties::int_property::IntProperty { name: c.name("A"), ancestry: Default::default(), property_guid: None, duplication_index: 0, value: *x }.into()).collect();
    let a: Property = ArrayProperty::from_arr(c.name("A"), Default::default(), Some(c.name("IntProperty")), l).into();
    let (out, r) = c.wr(|w| Property::write(&a, w, true));
    h::must(r, 170);
    let want = plain(&c, 1, "ArrayProperty", 12, &Enc::new().name(idx(&c, "IntProperty"), 0).0, &Enc::new().i32(2).i32(v[0]).i32(v[1]).0);
    h::check(h::same(&out, &want), 171);
    h::check(a.get_name() == "A", 172);
}
h::cases! { case_arrays => arrays, case_structs => structs, case_empty_custom => empty_custom, case_struct_arrays => struct_arrays, case_sets => sets, case_maps => maps, case_nested => nested, case_malformed => malformed, case_made => made }
