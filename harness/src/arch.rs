//! An archive over a byte buffer with a chosen engine version, custom versions, names and object names.
use std::io::{self, Cursor, Read, Seek, SeekFrom, Write};
use unreal_asset_base::{containers::{Chain, IndexedMap, NameMap, SharedResource}, custom_version::{CustomVersion, CustomVersionTrait}, engine_version::{get_object_versions, EngineVersion}, error::Error, object_version::{ObjectVersion, ObjectVersionUE5}, passthrough_archive_reader, passthrough_archive_writer,
    reader::{ArchiveReader, ArchiveTrait, ArchiveType, ArchiveWriter, RawReader, RawWriter}, types::{FName, PackageIndex, PackageIndexTrait}, unversioned::Usmap};

#[derive(Clone)]
pub struct Cfg { pub engine: EngineVersion, pub object: ObjectVersion, pub ue5: ObjectVersionUE5, pub custom: Vec<CustomVersion>, pub unversioned: bool, pub edl: bool, pub names: SharedResource<NameMap>, pub objects: Vec<FName>,
    pub struct_override: Vec<(String, String)>, pub key_override: Vec<(String, String)>, pub value_override: Vec<(String, String)> }
impl Cfg {
    pub fn new(engine: EngineVersion, names: &[&str]) -> Self {
        let (object, ue5) = get_object_versions(engine);
        let names = NameMap::from_name_batch(&names.iter().map(|x| x.to_string()).collect::<Vec<_>>());
        Cfg { engine, object, ue5, custom: CustomVersion::get_default_custom_version_container(engine), unversioned: false, edl: true, names, objects: vec![], struct_override: vec![], key_override: vec![], value_override: vec![] }
    }
    pub fn name(&self, s: &str) -> FName { self.names.get_mut_clone(s) }
    /// import -1-i is called names[i]
    pub fn object(mut self, s: &str) -> Self { let f = self.name(s); self.objects.push(f); self }
    pub fn rd(&self, b: Vec<u8>) -> Rd { Rd { raw: RawReader::new(Chain::new(Cursor::new(b), None), self.object, self.ue5, self.edl, self.names.clone()), maps: maps(self), c: self.clone() } }
    pub fn wr<T>(&self, f: impl FnOnce(&mut Wr) -> T) -> (Vec<u8>, T) {
        let mut cur = Cursor::new(vec![]);
        let t = { let mut w = Wr { raw: RawWriter::new(&mut cur, self.object, self.ue5, self.edl, self.names.clone()), maps: maps(self), c: self.clone(), log: vec![] }; f(&mut w) };
        (cur.into_inner(), t)
    }
}
trait Add { fn get_mut_clone(&self, s: &str) -> FName; }
impl Add for SharedResource<NameMap> { fn get_mut_clone(&self, s: &str) -> FName { let mut r = self.clone(); let f = r.get_mut().add_fname(s); f } }
fn maps(c: &Cfg) -> [IndexedMap<String, String>; 3] {
    let m = |l: &Vec<(String, String)>| { let mut r = IndexedMap::new(); for (a, b) in l { r.insert(a.clone(), b.clone()); } r };
    [m(&c.struct_override), m(&c.key_override), m(&c.value_override)]
}
pub struct Rd { pub raw: RawReader<PackageIndex, Cursor<Vec<u8>>>, maps: [IndexedMap<String, String>; 3], pub c: Cfg }
pub struct Wr<'a> { pub raw: RawWriter<'a, PackageIndex, Cursor<Vec<u8>>>, maps: [IndexedMap<String, String>; 3], pub c: Cfg, /** where names were written, and which */ pub log: Vec<(usize, FName)> }
macro_rules! common { () => {
    fn get_archive_type(&self) -> ArchiveType { ArchiveType::UAsset }
    fn get_custom_version<T>(&self) -> CustomVersion where T: CustomVersionTrait + Into<i32> {
        for v in &self.c.custom { if v.guid == T::GUID { return v.clone() } }
        CustomVersion::new(T::GUID, 0)
    }
    fn has_unversioned_properties(&self) -> bool { self.c.unversioned }
    fn use_event_driven_loader(&self) -> bool { self.c.edl }
    fn position(&mut self) -> u64 { self.raw.position() }
    fn get_name_map(&self) -> SharedResource<NameMap> { self.c.names.clone() }
    fn get_array_struct_type_override(&self) -> &IndexedMap<String, String> { &self.maps[0] }
    fn get_map_key_override(&self) -> &IndexedMap<String, String> { &self.maps[1] }
    fn get_map_value_override(&self) -> &IndexedMap<String, String> { &self.maps[2] }
    fn get_engine_version(&self) -> EngineVersion { self.c.engine }
    fn get_object_version(&self) -> ObjectVersion { self.c.object }
    fn get_object_version_ue5(&self) -> ObjectVersionUE5 { self.c.ue5 }
    fn get_mappings(&self) -> Option<&Usmap> { None }
    fn get_parent_class_export_name(&self) -> Option<FName> { None }
    fn get_object_name(&self, index: PackageIndex) -> Option<FName> {
        if index.is_import() { let i = -(index.index as i64) - 1; return self.c.objects.get(i as usize).cloned() }
        None
    }
    fn get_object_name_packageindex(&self, index: PackageIndex) -> Option<FName> { self.get_object_name(index) }
} }
impl ArchiveTrait<PackageIndex> for Rd { common!(); }
impl<'a> ArchiveTrait<PackageIndex> for Wr<'a> { common!(); }
impl ArchiveReader<PackageIndex> for Rd { passthrough_archive_reader!(raw); }
impl<'a> ArchiveWriter<PackageIndex> for Wr<'a> {
    passthrough_archive_writer!(raw);
    #[cfg(feature = "moved")]
    fn write_fname(&mut self, f: &FName) -> Result<(), Error> { let p = self.raw.position() as usize; self.log.push((p, f.clone())); self.raw.write_fname(f) }
}
impl Read for Rd { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.raw.read(b) } }
impl Seek for Rd { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { self.raw.seek(p) } }
impl<'a> Write for Wr<'a> { fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.raw.write(b) } fn flush(&mut self) -> io::Result<()> { self.raw.flush() } }
impl<'a> Seek for Wr<'a> { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { self.raw.seek(p) } }
