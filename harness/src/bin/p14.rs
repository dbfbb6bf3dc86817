//! P14: version tables.
use harness as h;
use std::io::Cursor;
use unreal_asset_base::{containers::{Chain, NameMap}, custom_version::*, engine_version::*, object_version::*, reader::{ArchiveReader, RawReader, RawWriter}, types::PackageIndex, Guid};

/// package version number of each retail engine
const UE4: [i32; 28] = [342, 352, 363, 382, 385, 401, 413, 434, 451, 482, 482, 498, 504, 505, 508, 510, 513, 513, 514, 516, 516, 517, 517, 517, 518, 518, 519, 522];
const FIRST: i32 = 2; // VER_UE4_0
const COUNT: i32 = 31;
fn engine(i: i32) -> EngineVersion { h::must(EngineVersion::try_from(FIRST + i), 1) }
fn name(i: i32) -> EngineVersion {
    use EngineVersion::*;
    [VER_UE4_0, VER_UE4_1, VER_UE4_2, VER_UE4_3, VER_UE4_4, VER_UE4_5, VER_UE4_6, VER_UE4_7, VER_UE4_8, VER_UE4_9, VER_UE4_10, VER_UE4_11, VER_UE4_12, VER_UE4_13, VER_UE4_14, VER_UE4_15, VER_UE4_16, VER_UE4_17, VER_UE4_18, VER_UE4_19, VER_UE4_20, VER_UE4_21, VER_UE4_22, VER_UE4_23, VER_UE4_24, VER_UE4_25, VER_UE4_26, VER_UE4_27, VER_UE5_0, VER_UE5_1, VER_UE5_2][i as usize]
}
fn engines() {
    let i = h::choice(COUNT as u64) as i32;
    let e = engine(i);
    h::check(e == name(i) && i32::from(e) == FIRST + i, 2);
    let (o, o5) = get_object_versions(e);
    h::check(i32::from(o) == if i < 28 { UE4[i as usize] } else { 522 }, 3);
    h::check(if i < 28 { o5 == ObjectVersionUE5::UNKNOWN } else { i32::from(o5) == [1004, 1008, 1010][i as usize - 28] }, 4);
    if i > 0 { let p = get_object_versions(engine(i - 1)); h::check(p.0 <= o && p.1 <= o5 && engine(i - 1) < e, 5) }
    let g = guess_engine_version(o, o5, &[]);
    h::check(get_object_versions(g) == (o, o5), 6);
    let g = guess_engine_version(o, o5, &CustomVersion::get_default_custom_version_container(e));
    h::check(get_object_versions(g) == (o, o5), 7);
    // the guess tells engines apart as far as their custom versions do
    let (a, b) = (CustomVersion::get_default_custom_version_container(g), CustomVersion::get_default_custom_version_container(e));
    for x in &b { for y in &a { if x.guid == y.guid { h::check(x.version == y.version, 10) } } }
    let p = get_possible_versions(o, o5);
    h::check(p.contains(&e), 8);
    for q in p { h::check(get_object_versions(q) == (o, o5), 9) }
    h::observe(1, i32::from(g) as u64);
}
/// any 32-bit number
fn numbers() {
    let v = h::i32();
    match ObjectVersion::try_from(v) { Ok(o) => h::check(i32::from(o) == v, 20), Err(_) => h::check(v != 0 && !(v >= 214 && v <= 522), 21) }
    match ObjectVersionUE5::try_from(v) { Ok(o) => h::check(i32::from(o) == v && (v == 0 || (v >= 1000 && v <= 1011)), 22), Err(_) => h::check(v != 0 && !(v >= 1000 && v <= 1009), 23) }
    match EngineVersion::try_from(v) { Ok(o) => h::check(i32::from(o) == v && v >= 0 && v < FIRST + COUNT + 2, 24), Err(_) => h::check(v < 0 || v >= FIRST + COUNT, 25) }
    match FAssetRegistryVersionType::try_from(v) { Ok(o) => h::check(i32::from(o) == v && v >= 0 && v <= 16, 26), Err(_) => h::check(v < 0 || v > 14, 27) }
}
fn bounds() { for (v, o) in [(0, ObjectVersion::UNKNOWN), (214, ObjectVersion::VER_UE4_OLDEST_LOADABLE_PACKAGE), (504, ObjectVersion::VER_UE4_NAME_HASHES_SERIALIZED), (507, ObjectVersion::VER_UE4_PRELOAD_DEPENDENCIES_IN_COOKED_EXPORTS), (522, ObjectVersion::VER_UE4_CORRECT_LICENSEE_FLAG)] { h::check(i32::from(o) == v, 28) } }
/// guessing never fails, whatever custom versions are claimed
fn guess_any() {
    let i = h::choice(COUNT as u64) as i32;
    let (o, o5) = get_object_versions(engine(i));
    let g = [FCoreObjectVersion::GUID, FEditorObjectVersion::GUID, FReleaseObjectVersion::GUID][h::choice(3) as usize];
    let v = h::i32();
    let r = guess_engine_version(o, o5, &[CustomVersion::new(g, v)]);
    h::check(get_object_versions(r) == (o, o5), 30);
}
fn mapping<T: CustomVersionTrait + Into<i32>>(a: i32) {
    let e = engine(a);
    let want = T::VERSION_MAPPINGS.iter().filter(|(m, _)| *m <= e).max_by_key(|(m, _)| *m).map(|x| x.1);
    let c = CustomVersion::new(T::GUID, 5);
    h::check(c.version == 5 && c.guid == T::GUID && c.friendly_name.as_deref() == Some(T::FRIENDLY_NAME), 40);
    h::check(c.get_version_number_from_engine_version(e) == want && want.is_some(), 41);
    if a > 0 { h::check(c.get_version_number_from_engine_version(engine(a - 1)) <= want, 42) }
    let d = CustomVersion::get_default_custom_version_container(e);
    let mut n = 0;
    for x in &d { if x.guid == T::GUID { h::check(Some(x.version) == want, 43); n += 1 } }
    h::check(n == 1, 44);
    // the engine that introduced a number is the one the table names
    for (m, v) in T::VERSION_MAPPINGS { if *m == e { h::check(c.get_engine_version_from_version_number(*v) == Some(e), 45) } }
}
fn mappings() {
    let a = h::choice(COUNT as u64) as i32;
    match h::choice(7) { 0 => mapping::<FCoreObjectVersion>(a), 1 => mapping::<FEditorObjectVersion>(a), 2 => mapping::<FFrameworkObjectVersion>(a), 3 => mapping::<FFortniteMainBranchObjectVersion>(a), 4 => mapping::<FReleaseObjectVersion>(a), 5 => mapping::<FSequencerObjectVersion>(a), _ => mapping::<FAnimPhysObjectVersion>(a) }
}
fn version_of<T: CustomVersionTrait + Into<i32>>(t: T, id: u32) { let v: i32 = t.into(); let c = h::must(roundtrip(T::GUID, v), id); h::check(c.version == v && c.guid == T::GUID, id) }
fn rd(b: Vec<u8>) -> RawReader<PackageIndex, Cursor<Vec<u8>>> { RawReader::new(Chain::new(Cursor::new(b), None), ObjectVersion::VER_UE4_CORRECT_LICENSEE_FLAG, ObjectVersionUE5::UNKNOWN, false, NameMap::new()) }
fn wr(f: impl FnOnce(&mut RawWriter<PackageIndex, Cursor<Vec<u8>>>)) -> Vec<u8> { let mut c = Cursor::new(vec![]); { let mut w = RawWriter::new(&mut c, ObjectVersion::VER_UE4_CORRECT_LICENSEE_FLAG, ObjectVersionUE5::UNKNOWN, false, NameMap::new()); f(&mut w); } c.into_inner() }
fn roundtrip(g: Guid, v: i32) -> Result<CustomVersion, unreal_asset_base::Error> {
    let c = CustomVersion::new(g, v);
    h::check(c.guid == g && c.version == v, 50);
    let b = wr(|w| h::must(c.write(w), 51));
    let mut want = <[u8; 16]>::from(g).to_vec(); want.extend(v.to_le_bytes());
    h::check(b.len() == 20 && h::same(&b, &want), 52);
    let r = CustomVersion::read(&mut rd(b))?;
    h::check(r == c, 53);
    Ok(r)
}
const GUIDS: [Guid; 6] = [FCoreObjectVersion::GUID, FAnimPhysObjectVersion::GUID, Guid::from_ints(0, 0, 0, 0xF99D40C1), Guid::from_ints(1, 2, 3, 4), FReleaseObjectVersion::GUID, Guid::from_ints(0, 0, 0, 0)];
fn stored() {
    let v = h::i32();
    h::must(roundtrip(GUIDS[h::choice(6) as usize], v), 54);
    version_of(FCoreObjectVersion::FProperties, 55);
    version_of(FAnimPhysObjectVersion::RemoveUIDFromSmartNameSerialize, 56);
    let c = CustomVersion::from_version(FAnimPhysObjectVersion::RemoveUIDFromSmartNameSerialize);
    let b = wr(|w| h::must(c.write(w), 57));
    h::check(h::must(CustomVersion::read(&mut rd(b)), 57) == c, 58);
}
/// containers: arbitrary counts and numbers
fn container() {
    use unreal_asset_base::custom_version::CustomVersion;
    h::stub_format(true);
    let n = h::choice(3) as usize;
    let count = h::size32(4) as i32;
    let mut b = count.to_le_bytes().to_vec();
    let mut want = vec![];
    for k in 0..n { let g = GUIDS[(h::choice(6)) as usize]; let v = h::i32(); b.extend(wr(|w| h::must(CustomVersion::new(g, v).write(w), 60))); want.push((g, v)); let _ = k; }
    let old = [CustomVersion::new(GUIDS[3], 77)];
    let r = rd(b).read_custom_version_container(unreal_asset_base::enums::ECustomVersionSerializationFormat::Optimized, if h::flag() { Some(&old) } else { None });
    match r {
        Ok(l) => { h::check(count < 0 || count as usize <= n, 61); let m = if count < 0 { 0 } else { h::concrete(count as u64) as usize }; h::check(l.len() >= m && l.len() <= m + 1, 62); for k in 0..m { h::check(l[k].guid == want[k].0 && l[k].version == want[k].1, 63) } if l.len() > m { h::check(l[m].guid == GUIDS[3] && l[m].version == 77 && !want[..m].iter().any(|x| x.0 == GUIDS[3]), 64) } }
        Err(_) => h::check(count > n as i32, 65),
    }
}
fn registry() {
    let v = h::i32();
    let g = h::flag();
    let mut b = wr(|w| h::must(FAssetRegistryVersionType::HardSoftDependencies.write(w), 70));
    h::check(b.len() == 20 && b[16..] == [1, 0, 0, 0], 71);
    if !g { b[0] ^= 1 }
    b[16..].copy_from_slice(&v.to_le_bytes());
    h::stub_format(true);
    match FAssetRegistryVersionType::new(&mut rd(b)) { Ok(t) => h::check(if g { i32::from(t) == v } else { t == FAssetRegistryVersionType::LatestVersion }, 72), Err(_) => h::check(g && !(v >= 0 && v <= 14), 73) }
}
h::cases! { case_engines => engines, case_numbers => numbers, case_bounds => bounds, case_guess => guess_any, case_mappings => mappings, case_stored => stored, case_container => container, case_registry => registry }
