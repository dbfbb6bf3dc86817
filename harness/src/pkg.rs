//! Independent encoder of asset packages (.uasset with or without .uexp) in the canonical section order.
use crate::Enc;

#[derive(Clone)]
pub struct Ver { pub n: [u16; 3], pub build: u32, pub branch: Option<String> }
#[derive(Clone)]
pub struct Imp { pub pkg: (i32, i32), pub class: (i32, i32), pub outer: i32, pub name: (i32, i32), pub optional: u32 }
#[derive(Clone)]
pub struct Exp {
    pub class: i32, pub sup: i32, pub template: i32, pub outer: i32, pub name: (i32, i32), pub flags: u32, pub b: [u32; 3], pub guid: [u8; 16], pub inherited: u32, pub pflags: u32, pub not_editor: u32, pub asset: u32, pub public: u32,
    pub deps: [Vec<i32>; 4], pub data: Vec<u8>,
}
impl Exp { pub fn new(class: i32, name: i32, data: Vec<u8>) -> Self { Exp { class, sup: 0, template: 0, outer: 0, name: (name, 0), flags: 8, b: [0; 3], guid: [0; 16], inherited: 0, pflags: 0, not_editor: 0, asset: 1, public: 0, deps: Default::default(), data } } }
#[derive(Clone)]
pub struct Pkg {
    pub object: i32, pub ue5: i32, pub unversioned: bool, pub legacy: i32, pub split: bool, pub licensee: i32, pub custom: Vec<([u8; 16], i32)>, pub folder: String, pub flags: u32,
    pub names: Vec<(String, u32)>, pub soft_paths: (i32, i32), pub gather: (i32, i32), pub imports: Vec<Imp>, pub exports: Vec<Exp>, pub depends: Option<Vec<Vec<i32>>>, pub soft: Option<Vec<Option<String>>>, pub searchable: i32, pub thumb: i32,
    pub guid: [u8; 16], pub generations: Vec<(i32, i32)>, pub recorded: Ver, pub compatible: Ver, pub compression: u32, pub source: u32, pub registry: bool, pub tile: Option<Vec<u8>>, pub chunks: Vec<i32>, pub name_refs: i32, pub toc: i64, pub resource: i32,
}
/// where things are in the encoded package
#[derive(Default, Clone)]
pub struct Layout { pub names: usize, pub imports: usize, pub exports: usize, pub depends: usize, pub soft: usize, pub registry: usize, pub tile: usize, pub preload: usize, pub header: usize, pub bulk: usize, pub serial: Vec<usize> }
pub const TAIL: [u8; 4] = [0xc1, 0x83, 0x2a, 0x9e];
impl Pkg {
    /// names: None, A, B, Class, Object
    pub fn new(object: i32, ue5: i32, split: bool) -> Self {
        let names: Vec<(String, u32)> = ["None", "A", "B", "Class", "/Script/Engine"].iter().map(|s| (s.to_string(), unreal_asset_base::crc::generate_hash(s))).collect();
        let v = Ver { n: [4, 27, 2], build: 17, branch: Some("++UE4".to_string()) };
        let n = names.len() as i32;
        Pkg {
            object, ue5, unversioned: false, legacy: if ue5 > 0 { -8 } else { -7 }, split, licensee: 0, custom: vec![], folder: "None".to_string(), flags: 0, names, soft_paths: (0, 0), gather: (0, 0),
            imports: vec![Imp { pkg: (4, 0), class: (3, 0), outer: 0, name: (1, 0), optional: 0 }], exports: vec![Exp::new(-1, 2, Enc::new().name(0, 0).i32(0).0)], depends: Some(vec![vec![]]), soft: None, searchable: 0, thumb: 0,
            guid: [7; 16], generations: vec![(1, n)], recorded: v.clone(), compatible: v, compression: 0, source: 5, registry: false, tile: None, chunks: vec![0], name_refs: n, toc: 0, resource: 0,
        }
    }
    pub fn header(&self, l: &Layout) -> Vec<u8> {
        let (o, u) = (self.object, self.ue5);
        let mut e = Enc::new().raw(&[0xC1, 0x83, 0x2A, 0x9E]).i32(self.legacy);
        if self.legacy != -4 { e = e.i32(if self.unversioned { 0 } else { 864 }) }
        e = e.i32(if self.unversioned { 0 } else { o });
        if self.legacy <= -8 { e = e.i32(if self.unversioned { 0 } else { u }) }
        e = e.i32(self.licensee);
        if self.legacy <= -2 { e = e.i32(self.custom.len() as i32); for (g, v) in &self.custom { e = e.raw(g).i32(*v) } }
        e = e.i32(l.header as i32).str(&self.folder).u32(self.flags).i32(self.names.len() as i32).i32(l.names as i32);
        if u >= 1008 { e = e.i32(self.soft_paths.0).i32(self.soft_paths.1) }
        if o >= 459 { e = e.i32(self.gather.0).i32(self.gather.1) }
        e = e.i32(self.exports.len() as i32).i32(l.exports as i32).i32(self.imports.len() as i32).i32(l.imports as i32).i32(if (507..511).contains(&o) { 0 } else { l.depends as i32 });
        if o >= 384 { e = e.i32(self.soft.as_ref().map(|s| s.len()).unwrap_or(0) as i32).i32(l.soft as i32) }
        if o >= 510 { e = e.i32(self.searchable) }
        e = e.i32(self.thumb).raw(&self.guid).i32(self.generations.len() as i32);
        for (a, b) in &self.generations { e = e.i32(*a).i32(*b) }
        let ver = |e: Enc, v: &Ver| { let e = e.u16(v.n[0]).u16(v.n[1]).u16(v.n[2]).u32(v.build); match &v.branch { Some(s) => e.str(s), None => e.i32(0) } };
        e = if o >= 336 { ver(e, &self.recorded) } else { e.u32(self.recorded.build) };
        if o >= 444 { e = ver(e, &self.compatible) }
        e = e.u32(self.compression).i32(0).u32(self.source).i32(0);
        if self.legacy > -7 { e = e.i32(0) }
        e = e.i32(l.registry as i32).i64(l.bulk as i64);
        if o >= 224 { e = e.i32(l.tile as i32) }
        if o >= 326 { e = e.i32(self.chunks.len() as i32); for c in &self.chunks { e = e.i32(*c) } } else if o >= 278 { e = e.i32(self.chunks[0]) }
        if o >= 507 { e = e.i32(if self.split { self.exports.iter().map(|x| x.deps.iter().map(|d| d.len()).sum::<usize>()).sum::<usize>() as i32 } else { -1 }).i32(l.preload as i32) }
        if u >= 1001 { e = e.i32(self.name_refs) }
        if u >= 1002 { e = e.i64(self.toc) }
        if u >= 1009 { e = e.i32(self.resource) }
        e.0
    }
    pub fn export_table(&self, l: &Layout) -> Vec<u8> {
        let (o, u) = (self.object, self.ue5);
        let mut e = Enc::new();
        let mut first = 0;
        for (i, x) in self.exports.iter().enumerate() {
            e = e.i32(x.class).i32(x.sup);
            if o >= 508 { e = e.i32(x.template) }
            e = e.i32(x.outer).name(x.name.0, x.name.1).u32(x.flags);
            let at = l.serial.get(i).copied().unwrap_or(0);
            e = if o < 511 { e.i32(x.data.len() as i32).i32(at as i32) } else { e.i64(x.data.len() as i64).i64(at as i64) };
            for b in x.b { e = e.u32(b) }
            if u < 1005 { e = e.raw(&x.guid) }
            if u >= 1006 { e = e.u32(x.inherited) }
            e = e.u32(x.pflags);
            if o >= 365 { e = e.u32(x.not_editor) }
            if o >= 485 { e = e.u32(x.asset) }
            if u >= 1003 { e = e.u32(x.public) }
            if o >= 507 {
                e = e.i32(if self.split { first } else { -1 });
                for d in &x.deps { e = e.i32(d.len() as i32); first += d.len() as i32 }
            }
        }
        e.0
    }
    pub fn encode(&self) -> (Vec<u8>, Option<Vec<u8>>, Layout) {
        let (o, u) = (self.object, self.ue5);
        let mut l = Layout::default();
        let mut at = self.header(&l).len();
        let mut names = Enc::new();
        for (s, hash) in &self.names { names = names.text(s); if o >= 504 { names = names.u32(*hash) } }
        l.names = if self.names.is_empty() { 0 } else { at };
        at += names.len();
        let mut imports = Enc::new();
        for i in &self.imports { imports = imports.name(i.pkg.0, i.pkg.1).name(i.class.0, i.class.1).i32(i.outer).name(i.name.0, i.name.1); if u >= 1003 { imports = imports.u32(i.optional) } }
        l.imports = if self.imports.is_empty() { 0 } else { at };
        at += imports.len();
        l.exports = if self.exports.is_empty() { 0 } else { at };
        at += self.export_table(&l).len();
        let mut rest = Enc::new();
        if let Some(d) = &self.depends { l.depends = at + rest.len(); for x in d { rest = rest.i32(x.len() as i32); for y in x { rest = rest.i32(*y) } } }
        if let Some(s) = &self.soft { l.soft = at + rest.len(); for x in s { rest = match x { Some(x) => rest.str(x), None => rest.i32(0) } } }
        if self.registry { l.registry = at + rest.len(); rest = rest.i32(0) }
        if let Some(t) = &self.tile { l.tile = at + rest.len(); rest = rest.raw(t) }
        l.preload = at + rest.len();
        if self.split { for x in &self.exports { for d in &x.deps { for y in d { rest = rest.i32(*y) } } } }
        at += rest.len();
        l.header = at;
        let mut data = Enc::new();
        for x in &self.exports { l.serial.push(at + data.len()); data = data.raw(&x.data) }
        l.bulk = at + data.len();
        data = data.raw(&TAIL);
        let head = Enc(self.header(&l)).raw(&names.0).raw(&imports.0).raw(&self.export_table(&l)).raw(&rest.0);
        if self.split { (head.0, Some(data.0), l) } else { (head.raw(&data.0).0, None, l) }
    }
}
