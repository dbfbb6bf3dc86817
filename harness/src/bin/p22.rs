//! P22: asset registries.
use harness as h;
use harness::Enc;
use std::io::Cursor;
use unreal_asset_base::{containers::{Chain, NameMap}, object_version::{ObjectVersion, ObjectVersionUE5}, reader::RawReader, types::FName};
use unreal_asset_registry::{objects::{depends_node::{AssetIdentifier, DependsNode}, store::{EValueType, Store}}, AssetRegistryState};

const NAMES: [&str; 5] = ["None", "Alpha", "beta", "Alpha", "Ünï"];
fn object(new: bool) -> ObjectVersion { if new { ObjectVersion::VER_UE4_CORRECT_LICENSEE_FLAG } else { ObjectVersion::VER_UE4_STREAMABLE_TEXTURE_AABB } }
fn reader(d: Vec<u8>, o: bool, names: bool) -> RawReader<unreal_asset_base::types::PackageIndex, Cursor<Vec<u8>>> {
    let m = NameMap::new();
    if names { for n in NAMES { m.clone().get_mut().add_name_reference(n.to_string(), true); } }
    RawReader::new(Chain::new(Cursor::new(d), None), object(o), ObjectVersionUE5::UNKNOWN, false, m)
}
struct R { version: i32, hashes: bool, names: Vec<&'static str>, assets: Enc, n_assets: i32, nodes: Enc, n_nodes: i32, packages: Enc, n_packages: i32 }
impl R {
    fn new(version: i32) -> Self { R { version, hashes: false, names: NAMES.to_vec(), assets: Enc::new(), n_assets: 0, nodes: Enc::new(), n_nodes: 0, packages: Enc::new(), n_packages: 0 } }
    fn encode(&self) -> Vec<u8> {
        let mut e = Enc::new().u32(0x717F9EE7).u32(0xE9B0493A).u32(0x88B39132).u32(0x1B388107).i32(self.version);
        let mut body = Enc::new().i32(self.n_assets).raw(&self.assets.0);
        if self.version >= 7 { body = body.i64(self.nodes.len() as i64 + 4) }
        body = body.i32(self.n_nodes).raw(&self.nodes.0).i32(self.n_packages).raw(&self.packages.0);
        if self.version < 8 {
            let at = (e.len() + 8 + body.len()) as i64;
            e = e.i64(at).raw(&body.0).i32(self.names.len() as i32);
            for n in &self.names { e = e.text(n); if self.hashes { e = e.u32(unreal_asset_base::crc::generate_hash(n)) } }
            e
        } else { e.raw(&body.0) }.0
    }
    fn read(&self) -> AssetRegistryState { h::must(AssetRegistryState::new(&mut reader(self.encode(), self.hashes, self.version >= 8)), 1) }
    /// reads, lets `f` look, writes the same and reads that again
    fn go(&self, f: impl Fn(&AssetRegistryState)) {
        let d = self.encode();
        let s = self.read();
        f(&s);
        let mut out = Cursor::new(vec![]);
        h::must(s.write(&mut out), 2);
        h::check(out.get_ref().len() == d.len(), 3);
        h::check(h::same(out.get_ref(), &d), 4);
        f(&h::must(AssetRegistryState::new(&mut reader(out.into_inner(), self.hashes, self.version >= 8)), 5))
    }
}
type N = (i32, i32);
fn name() -> N { (1 + h::choice(2) as i32, h::i32()) }
fn put(e: Enc, n: N) -> Enc { e.name(n.0, n.1) }
fn is(a: &FName, n: N) -> bool { (a.get_number() == n.1) & a.get_content(|s| s == NAMES[n.0 as usize]) }
fn is_opt(a: &Option<FName>, n: Option<N>) -> bool { match (a, n) { (Some(a), Some(n)) => is(a, n), (None, None) => true, _ => false } }
fn version() -> i32 { 4 + h::choice(11) as i32 }

struct A { n: [N; 6], tags: Vec<(N, Option<String>)>, chunks: Vec<i32>, flags: u32 }
fn asset(r: &mut R, rich: bool) -> A {
    let a = if rich {
        let n = [(1, h::i32()), (2, h::i32()), (3, h::i32()), (4, h::i32()), (0, h::i32()), (1, h::i32())];
        let mut tags = vec![];
        for i in 0..h::choice(3) { tags.push(((1 + i as i32, 3), if h::flag() { Some(h::ascii(2)) } else { None })) }
        let chunks = (0..h::choice(3)).map(|_| h::i32()).collect();
        let flags = h::u32();
        h::assume(flags & !(0x8000_0201 | 0x0002_0000) == 0);
        A { n, tags, chunks, flags }
    } else { A { n: [(1, 0), (2, 1), (3, 2), (4, 3), (0, 4), (1, 5)], tags: vec![((2, 9), Some("vwx".into()))], chunks: vec![7], flags: 0x200 } };
    let mut e = put(put(std::mem::replace(&mut r.assets, Enc::new()), a.n[0]), a.n[1]);
    e = if r.version >= 14 { put(put(e, a.n[2]), a.n[3]) } else { put(e, a.n[2]) };
    e = put(put(e, a.n[4]), a.n[5]).i32(a.tags.len() as i32);
    for (k, v) in &a.tags { e = put(e, *k); e = match v { Some(v) => e.str(v), None => e.i32(0) } }
    e = e.i32(a.chunks.len() as i32);
    for c in &a.chunks { e = e.i32(*c) }
    r.assets = e.u32(a.flags);
    r.n_assets += 1;
    a
}
fn assets() {
    let mut r = R::new(version());
    r.hashes = h::flag();
    let mut v = vec![];
    for i in 0..h::choice(3) { v.push(asset(&mut r, i == 0)) }
    r.go(|s| {
        h::check(i32::from(s.get_version()) == r.version, 10);
        h::check(s.assets_data.len() == v.len(), 11);
        h::check(s.depends_nodes.is_empty() & s.package_data.is_empty(), 12);
        for (a, w) in s.assets_data.iter().zip(&v) {
            h::check(is(&a.object_path, w.n[0]) & is(&a.package_path, w.n[1]) & is(&a.package_name, w.n[4]) & is(&a.asset_name, w.n[5]), 13);
            if r.version >= 14 {
                let p = h::some(a.asset_path.as_ref(), 14);
                h::check(is(&p.package_name, w.n[2]) & is(&p.asset_name, w.n[3]) & a.asset_class.is_none(), 15)
            } else { h::check(is_opt(&a.asset_class, Some(w.n[2])) & a.asset_path.is_none(), 16) }
            h::check(a.tags_and_values.len() == w.tags.len(), 17);
            for ((_, k, t), (wk, wt)) in a.tags_and_values.iter().zip(&w.tags) {
                h::check(is(k, *wk), 18);
                h::check(match (t, wt) { (Some(a), Some(b)) => h::same(a.as_bytes(), b.as_bytes()), (None, None) => true, _ => false }, 19)
            }
            h::check(a.chunk_ids.len() == w.chunks.len(), 20);
            for (a, b) in a.chunk_ids.iter().zip(&w.chunks) { h::check(a == b, 21) }
            h::check(a.package_flags.bits() == w.flags, 22)
        }
    })
}
fn ident(e: Enc, bits: u8) -> (Enc, [Option<N>; 4]) {
    let mut e = e.u8(bits);
    let mut v = [None; 4];
    for i in 0..4 { if bits >> i & 1 == 1 { let n = (1 + i as i32, h::i32()); e = put(e, n); v[i] = Some(n) } }
    (e, v)
}
fn is_ident(a: &AssetIdentifier, v: &[Option<N>; 4]) { h::check(is_opt(&a.package_name, v[0]) & is_opt(&a.primary_asset_type, v[1]) & is_opt(&a.object_name, v[2]) & is_opt(&a.value_name, v[3]), 30) }
/// ordered positions of nodes
fn list(n: i32) -> Vec<i32> { match h::choice(4) { 0 => vec![], 1 => vec![h::choice(n as u64) as i32], 2 => vec![0, n - 1], _ => vec![n - 1, n - 1] } }
/// how many dependencies of each kind the node has
fn counts(a: &DependsNode) -> [usize; 6] { [a.hard_dependencies.len(), a.soft_dependencies.len(), a.name_dependencies.len(), a.soft_manage_dependencies.len(), a.hard_manage_dependencies.len(), a.referencers.len()] }
fn old_nodes() {
    let mut r = R::new(4 + h::choice(3) as i32);
    let n = 1 + h::choice(2) as i32;
    r.n_nodes = n;
    let which = h::choice(n as u64) as i32;
    let mut want = vec![];
    let pair = h::choice(7) as usize;
    let bits = if pair == 6 { h::choice(16) as u8 } else { 1 };
    for i in 0..n {
        let (e, id) = ident(std::mem::replace(&mut r.nodes, Enc::new()), if i == which { bits } else { 3 });
        // two of the six lists vary
        let mut l: [Vec<i32>; 6] = Default::default();
        if i == which { if pair < 6 { l[pair] = list(n); l[(pair + 1) % 6] = list(n) } } else { for (k, l) in l.iter_mut().enumerate() { if k % 2 == 0 { l.push(0) } } }
        if r.version < 5 { l[4].clear() }
        let mut e = e;
        for (k, l) in l.iter().enumerate() { if k != 4 || r.version >= 5 { e = e.i32(l.len() as i32) } }
        for l in &l { for x in l { e = e.i32(*x) } }
        r.nodes = e;
        want.push((id, [l[0].len(), l[1].len(), l[2].len(), l[3].len(), l[4].len(), l[5].len()]));
    }
    let next = n == 2;
    if next { package(&mut r, false); }
    r.go(|s| {
        h::check(s.depends_nodes.len() == want.len(), 31);
        h::check(s.package_data.len() == next as usize, 32);
        for (a, w) in s.depends_nodes.iter().zip(&want) { is_ident(&a.identifier, &w.0); h::check(counts(a) == w.1, 33) }
    })
}
/// indices, then flags of `width` bits each in words
fn flagged(e: Enc, l: &[i32], f: &[u8], width: usize) -> Enc {
    let mut e = e.i32(l.len() as i32);
    for x in l { e = e.i32(*x) }
    let mut words = vec![0u32; (l.len() * width + 31) / 32];
    for (i, x) in f.iter().enumerate() { words[i * width / 32] |= (*x as u32) << (i * width % 32) }
    for w in words { e = e.u32(w) }
    e
}
fn plain(e: Enc, l: &[i32]) -> Enc { let mut e = e.i32(l.len() as i32); for x in l { e = e.i32(*x) } e }
fn new_nodes() {
    let mut r = R::new([7, 8, 14][h::choice(3) as usize]);
    let n = 6;
    r.n_nodes = n;
    let mut want = vec![];
    let kind = h::choice(4);
    for i in 0..n {
        let (e, id) = ident(std::mem::replace(&mut r.nodes, Enc::new()), if i == 1 { h::choice(3) as u8 * 7 } else { 1 });
        let (mut hard, mut soft, mut names, mut mh, mut ms, mut refs): (Vec<i32>, Vec<i32>, Vec<i32>, Vec<i32>, Vec<i32>, Vec<i32>) = Default::default();
        let (mut fl, mut mf) = (vec![], vec![]);
        if i == 1 {
            match kind {
                // hard dependencies first, each kind in the order of the nodes
                0 => { for k in 0..h::choice(4) { hard.push(k as i32); fl.push(h::u8() | 0x80) } for k in 0..h::choice(4) { soft.push(2 * k as i32); fl.push(h::u8() & 0x7f) } }
                1 => { names = list(n).into_iter().collect(); refs = vec![h::choice(6) as i32, 5] ; refs.sort() ; names.sort() }
                2 => { for k in 0..h::choice(3) { mh.push(k as i32); mf.push(1) } for k in 0..h::choice(3) { ms.push(3 + k as i32); mf.push(0) } }
                _ => { for _ in 0..17 { mh.push(2); mf.push(1) } for _ in 0..17 { ms.push(3); mf.push(0) } for k in 0..5 { hard.push(k); fl.push(0x80 | k as u8) } }
            }
        }
        let e = flagged(e, &[hard.clone(), soft.clone()].concat(), &fl, 8);
        let e = plain(e, &names);
        let e = flagged(e, &[mh.clone(), ms.clone()].concat(), &mf, 1);
        r.nodes = plain(e, &refs);
        want.push((id, [hard.len(), soft.len(), names.len(), ms.len(), mh.len(), refs.len()], fl));
    }
    let next = h::flag();
    if next { package(&mut r, false); }
    r.go(|s| {
        h::check(s.depends_nodes.len() == want.len(), 40);
        h::check(s.package_data.len() == next as usize, 41);
        for (a, w) in s.depends_nodes.iter().zip(&want) {
            is_ident(&a.identifier, &w.0);
            h::check(counts(a) == w.1, 42);
            let f = h::some(a.package_flags.as_ref(), 43);
            h::check(f.len() == w.2.len() * 8, 44)
        }
    })
}
/// flagged dependencies in any order read as the same sets, each with its own flags
fn order() {
    let mut r = R::new(7);
    r.n_nodes = 3;
    let l: [i32; 2] = [[0, 2], [2, 0], [1, 0]][h::choice(3) as usize];
    let fl = [[0x81, 0x02], [0x02, 0x81], [0x84, 0xff], [0x04, 0x7f]][h::choice(4) as usize];
    for i in 0..3 {
        let e = std::mem::replace(&mut r.nodes, Enc::new()).u8(0);
        let e = if i == 0 { flagged(e, &l, &fl, 8) } else { e.i32(0) };
        r.nodes = e.i32(0).i32(0).i32(0);
    }
    // hard first, then by node
    let mut want: Vec<(i32, u8)> = l.iter().copied().zip(fl).collect();
    want.sort_by_key(|(i, f)| (f & 0x80 == 0, *i));
    let mut t = R::new(7);
    t.n_nodes = 3;
    for i in 0..3 {
        let e = std::mem::replace(&mut t.nodes, Enc::new()).u8(0);
        let e = if i == 0 { flagged(e, &[want[0].0, want[1].0], &[want[0].1, want[1].1], 8) } else { e.i32(0) };
        t.nodes = e.i32(0).i32(0).i32(0);
    }
    let s = r.read();
    let mut out = Cursor::new(vec![]);
    h::must(s.write(&mut out), 50);
    h::check(out.get_ref() == &t.encode(), 51)
}
struct P { name: N, size: i64, guid: [u8; 16], md5: Option<[u8; 16]>, file: [i32; 3], flags: u32, custom: Vec<([u8; 16], i32)>, classes: Vec<N> }
fn package(r: &mut R, rich: bool) -> P {
    let p = if rich {
        let md5 = if h::flag() { Some(h::bytes()) } else { None };
        let custom = (0..h::choice(3)).map(|i| ([i as u8 + 1; 16], h::i32())).collect();
        let classes = (0..h::choice(3)).map(|i| (i as i32, h::i32())).collect();
        P { name: name(), size: h::i64(), guid: h::bytes(), md5, file: [h::i32(), h::i32(), h::i32()], flags: h::u32(), custom, classes }
    } else { P { name: (2, 4), size: 5, guid: [7; 16], md5: Some([3; 16]), file: [1, 2, 3], flags: 8, custom: vec![([5; 16], 6)], classes: vec![(1, 1)] } };
    let v = r.version;
    let mut e = put(std::mem::replace(&mut r.packages, Enc::new()), p.name).i64(p.size).raw(&p.guid);
    if v >= 6 { e = match &p.md5 { Some(m) => e.u32(1).raw(m), None => e.u32(0) } }
    if v >= 9 {
        e = e.i32(p.file[0]);
        if v >= 11 { e = e.i32(p.file[1]) }
        e = e.i32(p.file[2]).u32(p.flags).i32(p.custom.len() as i32);
        for (g, n) in &p.custom { e = e.raw(g).i32(*n) }
    }
    if v >= 10 { e = e.i32(p.classes.len() as i32); for c in &p.classes { e = put(e, *c) } }
    r.packages = e;
    r.n_packages += 1;
    p
}
fn packages() {
    let mut r = R::new(version());
    let mut v = vec![];
    for i in 0..h::choice(3) { v.push(package(&mut r, i == 0)) }
    let n = r.version;
    r.go(|s| {
        h::check(s.package_data.len() == v.len(), 60);
        for (a, w) in s.package_data.iter().zip(&v) {
            h::check(is(&a.package_name, w.name) & (a.disk_size == w.size) & h::same(&a.package_guid.0, &w.guid), 61);
            h::check(a.cooked_hash.is_some() == (n >= 6), 62);
            if let Some(m) = &a.cooked_hash { h::check(match (&m.hash, &w.md5) { (Some(a), Some(b)) => h::same(a, b), (None, None) => true, _ => false }, 63) }
            if n >= 9 {
                h::check((a.file_version == w.file[0]) & (a.file_version_licensee_ue == w.file[2]) & (a.flags == w.flags), 64);
                if n >= 11 { h::check(h::some(a.ue5_version, 65) == w.file[1], 65) }
                let c = h::some(a.custom_versions.as_ref(), 66);
                h::check(c.len() == w.custom.len(), 67);
                for (a, b) in c.iter().zip(&w.custom) { h::check((a.guid.0 == b.0) & (a.version == b.1), 68) }
            }
            if n >= 10 {
                let c = h::some(a.imported_classes.as_ref(), 69);
                h::check(c.len() == w.classes.len(), 70);
                for (a, b) in c.iter().zip(&w.classes) { h::check(is(a, *b), 71) }
            }
        }
    })
}
/// any value in the place of a count, index or size is read or rejected
fn corrupt() {
    h::stub_format(true);
    let mut r = R::new([6, 7, 14][h::choice(3) as usize]);
    asset(&mut r, false);
    package(&mut r, false);
    r.n_nodes = 2;
    for _ in 0..2 {
        let e = std::mem::replace(&mut r.nodes, Enc::new());
        r.nodes = if r.version < 7 { let e = e.u8(1).name(1, 0).i32(1).i32(0).i32(1).i32(0); (if r.version >= 5 { e.i32(1) } else { e }).i32(1).raw(&vec![0; if r.version >= 5 { 16 } else { 12 }]) } else { e.u8(1).name(1, 0).i32(1).i32(1).u32(0x81).i32(1).i32(0).i32(1).i32(0).u32(1).i32(1).i32(1) };
    }
    let mut d = r.encode();
    // every field that takes 4 bytes (some fields follow one byte), up to the count of names
    let end = if r.version < 8 { d[20] as usize + d[21] as usize * 256 + 4 } else { d.len() };
    let node = (if r.version < 8 { 28 } else { 20 }) + 4 + r.assets.len() + if r.version >= 7 { 8 } else { 0 } + 4;
    let mut fields = vec![];
    let mut p = 16;
    while p + 4 <= end { if p == node || p == node + r.nodes.len() / 2 { p += 1 } fields.push(p); p += 4 }
    h::check(fields.last() == Some(&(end - 4)), 82);
    let at = fields[h::choice(fields.len() as u64) as usize];
    // small values one by one, all others at once (not for identifiers of custom versions, which are looked up by hash)
    let id = d[at..at + 4] == [5; 4];
    let small = h::choice(d.len() as u64 + if id { 9 } else { 10 }) as i32 - 4;
    let v = if small == d.len() as i32 + 5 { let v = h::i32(); h::assume((v < -4) | (v >= small)); v } else { small };
    d[at..at + 4].copy_from_slice(&v.to_le_bytes());
    if let Ok(s) = AssetRegistryState::new(&mut reader(d, false, r.version >= 8)) { let _ = s.write(&mut Cursor::new(vec![])); }
}
/// a registry that ends early is rejected
fn cut() {
    let mut r = R::new([4, 7, 8, 14][h::choice(4) as usize]);
    asset(&mut r, false);
    package(&mut r, false);
    let d = r.encode();
    let n = h::choice(d.len() as u64) as usize;
    h::stub_format(true);
    h::check(AssetRegistryState::new(&mut reader(d[..n].to_vec(), false, r.version >= 8)).is_err(), 80)
}
/// versions without a known layout are refused
fn versions() {
    h::stub_format(true);
    let v = h::i32();
    h::assume((v < 4) | (v > 16));
    let r = R::new(4);
    let mut d = r.encode();
    d[16..20].copy_from_slice(&v.to_le_bytes());
    h::check(AssetRegistryState::new(&mut reader(d, false, false)).is_err(), 81)
}
/// names that were added are written and found again
fn added() {
    let mut r = R::new([4, 7][h::choice(2) as usize]);
    r.hashes = h::flag();
    asset(&mut r, false);
    let mut s = r.read();
    let t = ["Alpha", "beta", "New", "new"][h::choice(4) as usize];
    let i = s.add_fname(t);
    let k = NAMES.iter().position(|n| *n == t);
    h::check(match k { Some(0) => false, Some(k) => NAMES[i as usize] == NAMES[k], None => i == NAMES.len() as i32 }, 90);
    let j = s.add_name_reference(t, true);
    h::check(j == NAMES.len() as i32 + k.is_none() as i32, 91);
    let mut out = Cursor::new(vec![]);
    h::must(s.write(&mut out), 92);
    if k.is_none() { r.names.push(t) }
    r.names.push(t);
    h::check(out.get_ref() == &r.encode(), 93)
}
fn store() {
    let new = h::flag();
    let mut counts = [0i32; 11];
    let nn: Vec<u32> = (0..h::choice(2)).map(|_| h::u32()).collect();
    let names: Vec<N> = (0..h::choice(2)).map(|_| name()).collect();
    let ne: Vec<[u32; 3]> = (0..h::choice(2)).map(|_| [h::u32(), h::u32(), h::u32()]).collect();
    let ex: Vec<[N; 3]> = (0..h::choice(2)).map(|_| [(1, h::i32()), (2, h::i32()), (4, h::i32())]).collect();
    let texts: Vec<String> = (0..h::choice(2)).map(|_| h::ascii(2)).collect();
    let rich = h::choice(3) as usize;
    let (a, w) = (h::lower(3), [h::u8(), h::u8()]);
    h::assume((w[0] != 0) & (w[1] != 0) & (w[1] & 0xf8 != 0xd8));
    // ab\0c\0 and their offsets, in characters
    let ansi = [vec![], vec![0], vec![0, 3]][rich].clone();
    let wide = [vec![], vec![0, 2], vec![2]][rich].clone();
    let ansi_buf: Vec<u8> = [&a.as_bytes()[..2], &[0], &a.as_bytes()[2..], &[0]].concat();
    let wide_buf: Vec<u8> = vec![w[0], 3, 0, 0, 5, w[1], 0, 0];
    let vals: Vec<(u32, u32)> = (0..h::choice(2)).map(|_| (h::choice(7) as u32, h::u32())).collect();
    for (_, i) in &vals { h::assume(*i < 1 << 29) }
    let k = h::u32();
    counts[..9].copy_from_slice(&[nn.len() as i32, names.len() as i32, ne.len() as i32, ex.len() as i32, texts.len() as i32, ansi.len() as i32, wide.len() as i32, if rich > 0 { 5 } else { 0 }, if rich > 0 { 4 } else { 0 }]);
    counts[9] = vals.len() as i32;
    counts[10] = vals.len() as i32;
    let mut e = Enc::new().u32(if new { 0x12345679 } else { 0x12345678 });
    for c in counts { e = e.i32(c) }
    let te = |e: Enc| { let mut e = e; for t in &texts { e = e.str(t) } e };
    if new { e = te(e.u32(texts.len() as u32 * 7)) }
    for x in &nn { e = e.u32(*x) }
    for x in &names { e = put(e, *x) }
    for x in &ne { e = e.u32(x[0]).u32(x[1]).u32(x[2]) }
    for x in &ex { e = put(put(put(e, x[0]), x[1]), x[2]) }
    if !new { e = te(e) }
    for x in &ansi { e = e.i32(*x) }
    for x in &wide { e = e.i32(*x) }
    if rich > 0 { e = e.raw(&ansi_buf).raw(&wide_buf) }
    for (t, i) in &vals { e = e.u32(k).u32(t | i << 3) }
    for (t, i) in &vals { e = e.name(1, k as i32).u32(t | i << 3) }
    let s = h::must(Store::new(&mut reader(e.u32(0x87654321).0, true, true)), 100);
    let ty = |t: &EValueType| match t { EValueType::AnsiString => 0, EValueType::WideString => 1, EValueType::NumberlessName => 2, EValueType::Name => 3, EValueType::NumberlessExportPath => 4, EValueType::ExportPath => 5, EValueType::LocalizedText => 6 };
    h::check(s.numberless_names.len() == nn.len() && s.names.len() == names.len() && s.numberless_export_paths.len() == ne.len() && s.export_paths.len() == ex.len() && s.texts.len() == texts.len() && s.ansi_strings.len() == ansi.len() && s.wide_strings.len() == wide.len() && s.numberless_pairs.len() == vals.len() && s.pairs.len() == vals.len(), 101);
    for (a, b) in s.numberless_names.iter().zip(&nn) { h::check(a == b, 102) }
    for (a, b) in s.names.iter().zip(&names) { h::check(is(a, *b), 103) }
    for (a, b) in s.numberless_export_paths.iter().zip(&ne) { h::check((a.class == b[0]) & (a.object == b[1]) & (a.package == b[2]), 104) }
    for (a, b) in s.export_paths.iter().zip(&ex) { h::check(is(&a.class, b[0]) & is(&a.object, b[1]) & is(&a.package, b[2]), 105) }
    for (a, b) in s.texts.iter().zip(&texts) { h::check(a.as_ref().map_or(false, |a| h::same(a.as_bytes(), b.as_bytes())), 106) }
    for (x, o) in s.ansi_strings.iter().zip(&ansi) { h::check(h::same(x.as_bytes(), if *o == 0 { &a.as_bytes()[..2] } else { &a.as_bytes()[2..] }), 107) }
    for (x, o) in s.wide_strings.iter().zip(&wide) { let c: Vec<u32> = x.chars().map(|c| c as u32).collect(); h::check(c.len() == 1 && c[0] == if *o == 0 { w[0] as u32 | 0x300 } else { 5 | (w[1] as u32) << 8 }, 108) }
    for (a, b) in s.numberless_pairs.iter().zip(&vals) { h::check((a.key == k) & (ty(&a.value.value_type) == b.0) & (a.value.index as u32 == b.1), 109) }
    for (a, b) in s.pairs.iter().zip(&vals) { h::check(is(&a.key, (1, k as i32)) & (ty(&a.value.value_type) == b.0) & (a.value.index as u32 == b.1), 110) }
}
fn bad_store() {
    h::stub_format(true);
    let mut c = [0i32; 11];
    c[5] = 1;
    c[7] = 2;
    let i = h::choice(13) as usize;
    let v = h::i32();
    if i < 11 { c[i] = v }
    let mut e = Enc::new().u32(if i == 12 { v as u32 } else { 0x12345678 });
    for x in c { e = e.i32(x) }
    e = e.i32(if i == 11 { v } else { 0 }).raw(b"a\0").u32(0x87654321);
    let _ = Store::new(&mut reader(e.0, true, true));
}
h::cases! {
    case_assets => assets, case_old_nodes => old_nodes, case_new_nodes => new_nodes, case_order => order, case_packages => packages, case_corrupt => corrupt, case_cut => cut, case_versions => versions, case_added => added, case_store => store, case_bad_store => bad_store
}
