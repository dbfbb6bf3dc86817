//! P27: mod files and index files are taken over by the mod manager. Everything below mod_processing is the real code; the file system
//! is the one in memory, HTTP client, lock and graph library are stand-ins.
#![allow(dead_code, unused_imports, static_mut_refs)]
use harness as h;
use std::collections::BTreeMap;
use std::ffi::c_int;
use std::io::Cursor;
use std::path::PathBuf;
use std::sync::Arc;
use parking_lot::Mutex;
use semver::Version;
use unreal_pak::{pakversion::PakVersion, PakWriter};
#[path = "../memfs.rs"]
mod memfs;
use memfs::*;
#[path = "../../mm/error.rs"]
mod error;
#[path = "../../mm/game_mod.rs"]
mod game_mod;
#[path = "../../mm/version.rs"]
mod version;
#[path = "../../mm/mod_processing/mod.rs"]
mod mod_processing;
use error::{ModLoaderWarning, ModLoaderWarningKind as K};
use game_mod::{GameMod, SelectedVersion};
use mod_processing::index_file;
use version::GameBuild;
#[derive(Debug, Clone)]
pub(crate) struct FileToProcess { pub path: PathBuf, pub newly_added: bool }
impl FileToProcess { pub fn new(path: PathBuf, newly_added: bool) -> Self { FileToProcess { path, newly_added } } }
#[derive(Debug, Default)]
pub(crate) struct ModLoaderAppData { pub mods_path: Option<PathBuf>, pub game_mods: BTreeMap<String, GameMod> }

fn cat(p: &[&str]) -> String { p.concat() }
fn pak(meta: &str) -> Vec<u8> {
    let mut c = Cursor::new(vec![]);
    let mut w = PakWriter::new(&mut c, PakVersion::FnameBasedCompressionMethod);
    h::must(w.write_entry(&"metadata.json".to_string(), &meta.as_bytes().to_vec(), false), 90);
    h::must(w.finish_write(), 90);
    c.into_inner()
}
fn meta(id: &str, version: &str, rest: &str) -> String { cat(&["{\"schema_version\":2,\"name\":\"N\",\"mod_id\":\"", id, "\",\"version\":\"", version, "\"", rest, "}"]) }
/// puts files into the mods folder and processes them
fn run(files: &[(String, Vec<u8>)], new: bool, data: ModLoaderAppData) -> (ModLoaderAppData, Vec<ModLoaderWarning>) {
    let f = fs();
    for d in ["/w", "/w/mods"] { f.dirs.push(p(d)) }
    f.out = p("/w/mods");
    let mut v = vec![];
    for (n, d) in files {
        let mut x = p("/w/mods");
        x.push(n.as_bytes().to_vec());
        f.files.push((x, d.clone()));
        v.push(FileToProcess::new(PathBuf::from(cat(&["/w/mods/", n])), new))
    }
    let mut data = data;
    data.mods_path = Some(PathBuf::from("/w/mods"));
    let data = Arc::new(Mutex::new(data));
    let w = mod_processing::process_modfiles(&v, &data, true);
    let d = std::mem::take(&mut *data.lock());
    (d, w)
}
fn there(n: &str) -> bool { let mut x = p("/w/mods"); x.push(n.as_bytes().to_vec()); fs().file(&x).is_some() }
fn text(v: Vec<u8>) -> String { unsafe { String::from_utf8_unchecked(v) } }
fn letter() -> u8 { let c = h::u8(); h::assume((c < 0x80) & (c != 0) & (c != b'/')); c }
/// one character of a well-formed file name is arbitrary
fn name() {
    let t = b"000-Mod.a-1.2.3_P.pak";
    let at = h::choice(t.len() as u64) as usize;
    let c = letter();
    let mut n = t.to_vec();
    n[at] = c;
    let n = text(n);
    h::stub_format(true);
    let new = at % 2 == 0;
    let (d, w) = run(&[(n.clone(), pak(&meta("Mod.a", "1.2.3", "")))], new, ModLoaderAppData::default());
    let good = if at < 3 { c.is_ascii_digit() } else { c == t[at] };
    h::check(d.game_mods.len() == good as usize && w.len() == !good as usize, 2);
    h::check(there(&n) == (good || !new), 3);
    if !good { h::check(w[0].mod_id.is_some(), 4) }
}
/// a file name that was changed in the same way as the metadata: the version has to be one
fn version_text() {
    let t = b"10.2.30";
    let at = h::choice(t.len() as u64) as usize;
    let c = letter();
    h::assume((c != b'"') & (c != b'\\') & (c >= 0x20));
    let mut v = t.to_vec();
    v[at] = c;
    let v = text(v);
    h::stub_format(true);
    let n = cat(&["000-Mod.a-", &v, "_P.pak"]);
    let (d, w) = run(&[(n.clone(), pak(&meta("Mod.a", &v, "")))], true, ModLoaderAppData::default());
    // the first digit of a number of two digits is not 0
    let good = if t[at] == b'.' { c == b'.' } else { c.is_ascii_digit() & !((at == 0 || at == 5) & (c == b'0')) };
    if t[at] != b'.' && c == b'.' { h::check(d.game_mods.is_empty(), 2) }
    h::check(d.game_mods.len() == good as usize && w.len() == !good as usize, 2);
    h::check(there(&n) == good, 3);
    if good {
        let d10 = |a: u8, b: u8| (a - b'0') as u64 * 10 + (b - b'0') as u64;
        let b = v.as_bytes();
        let want = Version::new(d10(b[0], b[1]), (b[3] - b'0') as u64, d10(b[5], b[6]));
        let g = &d.game_mods["Mod.a"];
        h::check(g.versions.len() == 1 && g.versions.contains_key(&want), 5);
    }
}
/// what the metadata says differs from the file name
fn other() {
    let c = letter();
    h::assume((c != b'"') & (c != b'\\') & (c >= 0x20));
    let mut id = b"Mod.a".to_vec();
    let mut v = b"1.2.3".to_vec();
    let at = h::choice(5) as usize;
    let same = if h::flag() { let s = c == id[at]; id[at] = c; s } else { let s = c == v[at]; v[at] = c; s };
    h::stub_format(true);
    let n = "000-Mod.a-1.2.3_P.pak".to_string();
    let (d, w) = run(&[(n.clone(), pak(&meta(&text(id), &text(v), "")))], true, ModLoaderAppData::default());
    h::check(d.game_mods.len() == same as usize && w.len() == !same as usize, 2);
    h::check(there(&n) == same, 3);
}
/// files that are no mods are left out, and only those
fn broken() {
    let good = pak(&meta("Mod.a", "1.2.3", ""));
    let mut c = Cursor::new(vec![]);
    let mut w = PakWriter::new(&mut c, PakVersion::FnameBasedCompressionMethod);
    h::must(w.write_entry(&"other.json".to_string(), &b"{}".to_vec(), false), 90);
    h::must(w.finish_write(), 90);
    let none = c.into_inner();
    let kind = h::choice(6);
    let bad = match kind {
        0 => vec![],
        1 => good[..h::choice(16) as usize * 8].to_vec(),
        2 => none,
        3 => pak("{"),
        4 => pak("{\"schema_version\":2,\"name\":\"N\",\"version\":\"1.2.3\"}"),
        _ => { let mut x = good.clone(); let n = x.len(); x[n - 204 + h::choice(4) as usize] ^= 1 << h::choice(8); x }
    };
    let new = h::flag();
    h::stub_format(true);
    let first = h::flag();
    let mut files = vec![("000-Mod.a-1.2.3_P.pak".to_string(), bad), ("000-Ok-1.0.0_P.pak".to_string(), pak(&meta("Ok", "1.0.0", "")))];
    if first { files.swap(0, 1) }
    let (d, w) = run(&files, new, ModLoaderAppData::default());
    h::check(d.game_mods.len() == 1 && d.game_mods.contains_key("Ok") && w.len() == 1, 2);
    h::check(there("000-Mod.a-1.2.3_P.pak") == !new && there("000-Ok-1.0.0_P.pak"), 3);
    match &w[0].kind { K::MissingMetadata => h::check(kind == 2, 4), K::InvalidMetadata => h::check(kind == 3 || kind == 4, 4), _ => h::check(kind != 2, 4) }
}
fn digit() -> u8 { let c = h::u8(); h::assume((c >= b'0') & (c <= b'9')); c }
/// three versions of one mod, the newest is taken, its fields are those of the mod
fn versions() {
    let at = h::choice(3) as usize;
    let mut vs = vec![];
    let mut files = vec![];
    let fill = ["", "x", "xy"];
    h::stub_format(true);
    for i in 0..3 {
        let mut v = b"5.5.5".to_vec();
        v[2 * at] = digit();
        for o in &vs { h::assume(*o != v[2 * at]) }
        vs.push(v[2 * at]);
        let v = text(v);
        let rest = cat(&[",\"author\":\"A", fill[i], "\",\"description\":\"D", fill[i], "\",\"game_build\":\"1.2.3.", ["4", "5", "6"][i], "\""]);
        files.push((cat(&["000-Mod.a-", &v, "_P.pak"]), pak(&meta("Mod.a", &v, &rest))));
    }
    let (d, w) = run(&files, true, ModLoaderAppData::default());
    h::check(w.is_empty() && d.game_mods.len() == 1, 2);
    let g = &d.game_mods["Mod.a"];
    let mut top = 0;
    for i in 1..3 { if vs[i] > vs[top] { top = i } }
    let mut want = [5u64; 3];
    want[at] = (vs[top] - b'0') as u64;
    let want = Version::new(want[0], want[1], want[2]);
    h::check(g.versions.len() == 3 && g.enabled && g.latest_version.as_ref() == Some(&want) && g.selected_version == SelectedVersion::LatestIndirect(Some(want.clone())), 5);
    h::check(g.author.as_deref() == Some(&cat(&["A", fill[top]])[..]) && g.description.as_deref() == Some(&cat(&["D", fill[top]])[..]), 6);
    h::check(g.game_build == Some(GameBuild::new(1, 2, 3, 4 + top)) && g.size == files[top].1.len() as u64, 7);
    for (i, (_, v)) in g.versions.iter().enumerate() { h::check(v.downloaded && v.download_url.is_none() && v.mod_id == "Mod.a" && v.metadata.is_some() && i < 3, 8) }
}
fn info() -> unreal_mod_metadata::DownloadInfo { let m = unreal_mod_metadata::from_slice(meta("Mod.a", "1.0.0", ",\"download\":{\"type\":\"index_file\",\"url\":\"u\"}").as_bytes()); h::must(m, 90).download.unwrap() }
/// an index file with one arbitrary character and any status
fn index() {
    let t = b"{\"mods\":{\"Mod.a\":{\"latest_version\":\"1.2.3\",\"versions\":{\"1.2.3\":{\"download_url\":\"u\",\"filename\":\"000-Mod.a-1.2.3_P.pak\"}}}}}";
    h::stub_format(true);
    let mut b = t.to_vec();
    let st = h::u16();
    let mut ok = (st >= 200) & (st < 300);
    let at = h::choice(t.len() as u64 + 1) as usize;
    // keys of maps are hashed, there a few characters are tried
    let key = (9..16).contains(&at) || (55..64).contains(&at);
    if at < t.len() { b[at] = if key { b"0129.xM-+\\\"{ ,"[h::choice(14) as usize] } else { letter() }; ok &= b[at] == t[at]; h::assume((st == 200) | (st == 404)) }
    unsafe { reqwest::ANSWER = Some((st, text(b))) }
    match index_file::download_index_file("Mod.a".to_string(), &info()) {
        Ok((id, m)) => {
            h::check(id == "Mod.a" && (st >= 200) & (st < 300), 2);
            if ok { h::check(m.latest_version == Version::new(1, 2, 3) && m.versions.len() == 1, 5) }
            // taken over without a panic, the file names are those of mod files
            let mut d = ModLoaderAppData::default();
            d.game_mods.insert(id.clone(), GameMod::default());
            let mut f = std::collections::HashMap::new();
            f.insert(id, m);
            let w = index_file::insert_index_file_data(&f, &mut d);
            let g = &d.game_mods["Mod.a"];
            if ok { h::check(w.is_empty() && g.versions.len() == 1 && g.selected_version == SelectedVersion::Latest(Version::new(1, 2, 3)), 6) }
            for v in g.versions.values() { let n = v.file_name.as_bytes(); h::check(n.len() == 21 && n[3] == b'-' && !n.contains(&b'/') && n[17] == b'.' && !v.downloaded && v.download_url.is_some(), 7) }
            if let SelectedVersion::Latest(v) = &g.selected_version { h::check(g.versions.contains_key(v), 9) }
        }
        Err(w) => { h::check(!ok, 3); h::check(w.mod_id.as_deref() == Some("Mod.a"), 4) }
    }
}
/// game builds keep their four numbers through text
fn build() {
    let mut n = [0usize; 4];
    for x in n.iter_mut() { let c = h::u8(); h::assume(c < 10); *x = c as usize }
    let b = GameBuild::new(n[0], n[1], n[2], n[3]);
    match GameBuild::try_from(&b.to_string()) { Ok(x) => h::check(x == b, 2), Err(_) => h::check(false, 2) }
    let o = GameBuild::new(h::u8() as usize, h::u8() as usize, h::u8() as usize, h::u8() as usize);
    h::check((o < b) == ([o.major, o.minor, o.patch, o.build] < n), 3);
    let mut t = *b"1.2.3.4";
    let k = h::choice(7) as usize;
    t[k] = letter();
    let t = text(t.to_vec());
    let c = t.as_bytes()[k];
    match GameBuild::try_from(&t) {
        Ok(x) => { h::check(if k % 2 == 1 { c == b'.' } else { c.is_ascii_digit() }, 4); if k == 2 { h::check(x == GameBuild::new(1, (c - b'0') as usize, 3, 4), 5) } }
        Err(_) => h::check(if k % 2 == 1 { c != b'.' } else { !c.is_ascii_digit() }, 6),
    }
}
h::cases! { case_name => name, case_version => version_text, case_other => other, case_broken => broken, case_versions => versions, case_index => index, case_build => build }
