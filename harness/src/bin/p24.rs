//! P24: the command line tool on a file system kept in memory. The system functions the standard library uses are defined below,
//! so that neither the symbolic nor the native run touches a real file.
#![allow(static_mut_refs, dead_code, invalid_runtime_symbol_definitions)]
use harness as h;
use std::ffi::{c_char, c_int, CString};
use std::io::Cursor;
use unreal_pak::{pakversion::PakVersion, PakWriter};

mod cli {
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/cli.rs"));
    pub fn run() { main() }
}

#[path = "../memfs.rs"]
mod memfs;
use memfs::*;
/// runs the tool; `end` sees its exit code
fn tool(args: &[&str], end: fn(c_int)) {
    let a: Vec<CString> = ["unreal_pak_cli"].iter().chain(args).map(|x| CString::new(*x).unwrap()).collect();
    let mut v: Vec<*const c_char> = a.iter().map(|x| x.as_ptr()).collect();
    v.push(std::ptr::null());
    let init: extern "C" fn(c_int, *const *const c_char, *const *const c_char) = unsafe { std::mem::transmute(sym_init_fn()) };
    init(a.len() as c_int, v.as_ptr(), [std::ptr::null()].as_ptr());
    std::mem::forget((a, std::mem::ManuallyDrop::new(v)));
    fs().last = Some(end);
    cli::run();
    unsafe { exit(0) }
}
fn pak(files: &[(String, Vec<u8>)]) -> Vec<u8> {
    let mut c = Cursor::new(vec![]);
    let mut w = PakWriter::new(&mut c, PakVersion::FnameBasedCompressionMethod);
    for (n, d) in files { h::must(w.write_entry(n, d, false), 10); }
    h::must(w.finish_write(), 10);
    c.into_inner()
}
static mut WANT: Vec<(String, Vec<u8>)> = vec![];
fn want() -> &'static mut Vec<(String, Vec<u8>)> { unsafe { &mut WANT } }
/// place of an entry below the output folder; None when it is not a plain relative name
fn place(name: &str) -> Option<P> {
    let mut r = fs().out.clone();
    let n = r.len();
    let mut last = false;
    for c in name.split('/') {
        if c == ".." { return None }
        last = !c.is_empty() && c != ".";
        if last { r.push(c.as_bytes().to_vec()) }
    }
    if name.starts_with('/') || !last || r.len() == n { None } else { Some(r) }
}
/// whether a name, taken as a path below the output folder, leaves it
fn leaves(name: &str) -> bool {
    if name.starts_with('/') { return true }
    let mut d = 0i32;
    for c in name.split('/') { if c == ".." { d -= 1 } else if !c.is_empty() && c != "." { d += 1 } if d < 0 { return true } }
    false
}
/// after extracting WANT: all there, nothing else
fn extracted(code: c_int) {
    if want().iter().any(|w| leaves(&w.0)) { h::check(code != 0, 2); return }
    let places: Vec<_> = want().iter().map(|w| place(&w.0)).collect();
    if places.iter().any(|x| x.is_none()) { return }
    h::check(code == 0, 3);
    let mut n = 0;
    for f in &fs().files { if f.0.starts_with(&fs().out) { n += 1 } }
    h::check(n == places.len(), 4);
    for (x, w) in places.iter().zip(want()) {
        let i = h::some(fs().file(x.as_ref().unwrap()), 5);
        h::check(h::same(&fs().files[i].1, &w.1), 6)
    }
}
fn start(out: &str) { let f = fs(); f.dirs.push(p("/w")); f.out = p(out) }
/// a pak with one entry of any name of n characters
fn any(n: usize) {
    start("/w/out");
    want().push((h::ascii(n), vec![1, 2]));
    fs().files.push((p("/w/x.pak"), pak(want())));
    tool(&["extract", "x.pak", "out"], extracted)
}
/// names of up to n parts with every mix of parents, current directories, empty parts and plain names
fn shapes(n: u64) {
    start("/w/out");
    let mut s = String::new();
    let n = 1 + h::choice(n);
    for i in 0..n { if i > 0 { s.push('/') } s.push_str(["..", "", "a", ".", "..b", "..."][h::choice(6) as usize]) }
    want().push((s, h::bytes::<3>().to_vec()));
    fs().files.push((p("/w/x.pak"), pak(want())));
    tool(&["extract", "x.pak", "out"], extracted)
}
/// a hostile entry behind a harmless one
fn second() {
    start("/w/out");
    want().push(("a".into(), vec![1]));
    want().push((["../b", "/b", "../out/b", "../../w/out2/x", "c/../../b", "b", "c/d", "../out2"][h::choice(8) as usize].into(), vec![2]));
    if h::flag() { want().reverse() }
    fs().files.push((p("/w/x.pak"), pak(want())));
    tool(&["extract", "x.pak", "out"], extracted)
}
/// several entries with arbitrary contents, plain or compressed, over what may already be there
fn contents() {
    start("/w/out");
    let n = h::choice(4) as usize;
    for i in 0..n {
        let mut d = vec![0; [0, 1, 5, 40][(i + h::choice(4) as usize) % 4]];
        h::fill(&mut d);
        want().push((["Game/Content/A.uasset", "Game/Content/A.uexp", "b"][i].into(), d))
    }
    let v = [PakVersion::FnameBasedCompressionMethod, PakVersion::IndexEncryption, PakVersion::FrozenIndex, PakVersion::RelativeChunkOffsets][h::choice(4) as usize];
    let mut c = Cursor::new(vec![]);
    let mut w = PakWriter::new(&mut c, v);
    let z = h::flag();
    for (n, d) in want().iter() { h::must(w.write_entry(n, d, z), 10); }
    h::must(w.finish_write(), 10);
    fs().files.push((p("/w/x.pak"), c.into_inner()));
    // what an earlier run left behind
    if n > 2 && h::flag() {
        fs().dirs.push(p("/w/out"));
        fs().dirs.push(p("/w/out/Game"));
        fs().files.push((p("/w/out/b"), vec![9; 50]));
    }
    tool(&["extract", "x.pak", "out"], extracted)
}
/// where the folder and the pak are
fn folders() {
    let f = fs();
    for d in ["/w", "/w/d", "/w/d/sub", "/t"] { f.dirs.push(p(d)) }
    want().push(("b/c".into(), h::bytes::<2>().to_vec()));
    want().push(("a".into(), vec![]));
    let (arg, at, none) = [("x.pak", "/w/x.pak", "/w/x"), ("d/x.y.pak", "/w/d/x.y.pak", "/w/d/x.y"), ("./x.pak", "/w/x.pak", "/w/x"), ("/t/x.pak", "/t/x.pak", "/t/x"), ("../t/x.pak", "/t/x.pak", "/t/x"), ("d/../x.pak", "/w/x.pak", "/w/x")][h::choice(6) as usize];
    f.files.push((p(at), pak(want())));
    let (o, out) = [("", none), ("out", "/w/out"), ("out/", "/w/out"), ("new/er/out", "/w/new/er/out"), ("/t", "/t"), ("/t/u/v", "/t/u/v"), ("../t/z", "/t/z"), ("d/sub", "/w/d/sub"), ("./q", "/w/q"), (".", "/w")][h::choice(10) as usize];
    f.out = p(out);
    // the pak may lie in the output folder
    if p(at).starts_with(&f.out) { want().clear(); tool(&["extract", arg, o], |c| h::check(c == 0, 7)) }
    if o.is_empty() { tool(&["extract", arg], extracted) } else { tool(&["extract", arg, o], extracted) }
}
/// a folder put into a pak and extracted again
fn created(code: c_int) {
    h::check(code == 0, 11);
    let d = { let f = fs(); let i = h::some(f.file(&p("/w/in.pak")), 12); f.files[i].1.clone() };
    // the pak holds exactly the files, under their names relative to the folder
    let mut r = unreal_pak::PakReader::new(Cursor::new(d));
    h::must(r.load_index(), 13);
    h::check(r.get_entry_names().len() == want().len(), 14);
    for (n, d) in want().iter() { h::check(h::same(&h::must(r.read_entry(n), 15), d), 16) }
}
fn create() {
    let f = fs();
    for d in ["/w", "/w/in", "/w/in/Game", "/w/in/Game/Sub", "/w/in/empty", "/t"] { f.dirs.push(p(d)) }
    f.files.push((p("/w/other"), vec![1]));
    let n = h::choice(4) as usize;
    for i in 0..n {
        let mut d = vec![0; [0, 1, 5, 40][(i + h::choice(4) as usize) % 4]];
        h::fill(&mut d);
        let name = ["Game/Sub/A.uasset", "b.x", "Game/c"][i];
        f.files.push((p(&["/w/in/", name].concat()), d.clone()));
        want().push((name.into(), d))
    }
    // an older pak in its place
    if h::flag() { f.files.push((p("/w/in.pak"), vec![7; 900])) }
    f.out = p("/w/in.pak");
    let dir = ["in", "in/", "/w/in", "./in", "../w/in"][h::choice(5) as usize];
    match h::choice(4) { 0 => tool(&["create", dir], created), 1 => tool(&["create", dir, "in.pak"], created), 2 => tool(&["create", dir, "/w/in.pak", "--no-compression"], created), _ => tool(&["create", "-n", dir], created) }
}
/// damaged paks are reported
fn check() {
    start("/w/none");
    want().push(("a".into(), h::bytes::<2>().to_vec()));
    want().push(("b/c".into(), vec![0; 40]));
    let mut d = pak(want());
    let header = h::flag();
    let c = if header { "check-header" } else { "check" };
    match h::choice(5) {
        0 => { fs().files.push((p("/w/x.pak"), d)); tool(&[c, "x.pak"], |c| h::check(c == 0, 20)) }
        1 => tool(&[c, "x.pak"], |c| h::check(c != 0, 21)),
        // (without some of the last 32 bytes, empty names of compression methods, it is a pak with fewer names)
        2 => { let n = h::choice(d.len() as u64) as usize; h::assume((d.len() - n) % 32 != 0 || d.len() - n > 160); d.truncate(n); fs().files.push((p("/w/x.pak"), d)); tool(&[c, "x.pak"], |c| h::check(c != 0, 22)) }
        // the version and the magic in the trailer
        3 => { let n = d.len(); let at = n - 204 + h::choice(4) as usize; let b = h::u8(); h::assume(b != d[at]); d[at] = b; fs().files.push((p("/w/x.pak"), d)); tool(&[c, "x.pak"], |c| h::check(c != 0, 23)) }
        // a record that isn't there
        _ => { fs().files.push((p("/w/x.pak"), d[2..].to_vec())); tool(&[c, "x.pak"], |c| h::check(c != 0, 24)) }
    }
}
h::cases! { case_any1 => || any(1), case_any2 => || any(2), case_any3 => || any(3), case_any4 => || any(4), case_any6 => || any(6), deep_any9 => || any(9), case_shapes => || shapes(3), deep_shapes => || shapes(5), case_second => second, case_contents => contents, case_folders => folders, case_create => create, case_check => check }
