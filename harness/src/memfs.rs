//! A file system in memory behind the system functions std uses; neither the symbolic nor the native run touches a real file.
#![allow(static_mut_refs, dead_code, invalid_runtime_symbol_definitions)]
use harness as h;
use std::ffi::{c_char, c_int, c_void, CString};

pub type P = Vec<Vec<u8>>;
pub struct Open { file: usize, pos: usize, append: bool }
pub struct Dir { items: Vec<(Vec<u8>, bool)>, at: usize, buf: Box<[u8; 280]> }
pub struct Fs { pub dirs: Vec<P>, pub files: Vec<(P, Vec<u8>)>, pub open: Vec<Open>, pub lists: Vec<Dir>, pub out: P, pub last: Option<fn(c_int)> }
static mut FS: Fs = Fs { dirs: vec![], files: vec![], open: vec![], lists: vec![], out: vec![], last: None };
pub fn fs() -> &'static mut Fs { unsafe { &mut FS } }
extern "C" { fn __errno_location() -> *mut c_int; pub fn sym_done() -> !; pub fn sym_init_fn() -> *const c_void; }
const ENOENT: c_int = 2;
const EBADF: c_int = 9;
const EEXIST: c_int = 17;
const ENOTDIR: c_int = 20;
const EISDIR: c_int = 21;
fn fail(e: c_int) -> c_int { unsafe { *__errno_location() = e }; -1 }
pub fn p(s: &str) -> P { s.split('/').filter(|x| !x.is_empty()).map(|x| x.as_bytes().to_vec()).collect() }
/// working directory of the tool
fn cwd() -> P { p("/w") }
impl Fs {
    pub fn dir(&self, x: &P) -> bool { x.is_empty() || self.dirs.contains(x) }
    pub fn file(&self, x: &P) -> Option<usize> { self.files.iter().position(|f| &f.0 == x) }
    /// the place a path denotes and whether it must be a directory
    fn at(&self, path: &[u8]) -> Result<(P, bool), c_int> {
        if path.is_empty() { return Err(ENOENT) }
        let mut cur = if path[0] == b'/' { vec![] } else { cwd() };
        let mut slash = false;
        for c in path.split(|b| *b == b'/') {
            if c.is_empty() { slash = true; continue }
            if !self.dir(&cur) { return Err(if self.file(&cur).is_some() { ENOTDIR } else { ENOENT }) }
            slash = c == b"." || c == b"..";
            if c == b".." { cur.pop(); } else if c != b"." { cur.push(c.to_vec()) }
        }
        if slash && self.file(&cur).is_some() { return Err(ENOTDIR) }
        Ok((cur, slash))
    }
    /// everything that is created, changed or removed must be in the output folder
    fn touch(&self, x: &P, dir: bool) { h::check(x.starts_with(&self.out) || dir && self.out.starts_with(x), 1) }
}
unsafe fn path(s: *const c_char) -> Result<(P, bool), c_int> { let mut n = 0; while *s.add(n) != 0 { n += 1 } fs().at(std::slice::from_raw_parts(s as *const u8, n)) }
#[no_mangle] pub unsafe extern "C" fn open64(s: *const c_char, flags: c_int, _mode: u32) -> c_int {
    let (x, slash) = match path(s) { Ok(x) => x, Err(e) => return fail(e) };
    let f = fs();
    if f.dir(&x) { return fail(EISDIR) }
    let i = match f.file(&x) {
        Some(_) if flags & 0o300 == 0o300 => return fail(EEXIST),
        Some(i) => i,
        None => {
            if flags & 0o100 == 0 { return fail(ENOENT) }
            if slash { return fail(EISDIR) }
            f.touch(&x, false);
            f.files.push((x.clone(), vec![]));
            f.files.len() - 1
        }
    };
    if flags & 0o1000 != 0 { f.touch(&x, false); f.files[i].1.clear() }
    f.open.push(Open { file: i, pos: 0, append: flags & 0o2000 != 0 });
    100 + f.open.len() as c_int - 1
}
fn opened(fd: c_int) -> Option<&'static mut Open> { fs().open.get_mut((fd - 100) as usize) }
#[no_mangle] pub extern "C" fn close(_: c_int) -> c_int { 0 }
#[no_mangle] pub unsafe extern "C" fn read(fd: c_int, b: *mut u8, n: usize) -> isize {
    let Some(o) = opened(fd) else { return fail(EBADF) as isize };
    let d = &fs().files[o.file].1;
    let n = n.min(d.len().saturating_sub(o.pos));
    if n > 0 { std::ptr::copy_nonoverlapping(d.as_ptr().add(o.pos), b, n) }
    o.pos += n;
    n as isize
}
#[no_mangle] pub unsafe extern "C" fn write(fd: c_int, b: *const u8, n: usize) -> isize {
    if fd <= 2 { return n as isize }
    let Some(o) = opened(fd) else { return fail(EBADF) as isize };
    let f = &mut fs().files[o.file];
    fs().touch(&f.0, false);
    let d = std::slice::from_raw_parts(b, n);
    if o.append { o.pos = f.1.len() }
    while f.1.len() < o.pos { f.1.push(0) }
    let k = n.min(f.1.len() - o.pos);
    f.1[o.pos..o.pos + k].copy_from_slice(&d[..k]);
    f.1.extend_from_slice(&d[k..]);
    o.pos += n;
    n as isize
}
#[repr(C)] pub struct Iov { b: *const u8, n: usize }
#[no_mangle] pub unsafe extern "C" fn writev(fd: c_int, v: *const Iov, n: c_int) -> isize {
    let mut t = 0;
    for i in 0..n as usize { let x = &*v.add(i); let r = write(fd, x.b, x.n); if r < 0 { return r } t += r }
    t
}
#[no_mangle] pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    let Some(o) = opened(fd) else { return fail(EBADF) as i64 };
    let base = match whence { 0 => 0, 1 => o.pos as i64, _ => fs().files[o.file].1.len() as i64 };
    match base.checked_add(off) { Some(x) if x >= 0 => { o.pos = x as usize; x } _ => fail(22) as i64 }
}
#[no_mangle] pub unsafe extern "C" fn mkdir(s: *const c_char, _mode: u32) -> c_int {
    match path(s) {
        Err(e) => fail(e),
        Ok((x, _)) => {
            let f = fs();
            if f.dir(&x) || f.file(&x).is_some() { return fail(EEXIST) }
            f.touch(&x, true);
            f.dirs.push(x);
            0
        }
    }
}
#[no_mangle] pub unsafe extern "C" fn unlink(s: *const c_char) -> c_int {
    match path(s) { Err(e) => fail(e), Ok((x, _)) => match fs().file(&x) { Some(i) => { fs().touch(&x, false); fs().files[i].0 = vec![b"?".to_vec()]; 0 } None => fail(ENOENT) } }
}
#[no_mangle] pub unsafe extern "C" fn ftruncate64(fd: c_int, n: i64) -> c_int { match opened(fd) { Some(o) => { let f = &mut fs().files[o.file]; fs().touch(&f.0, false); f.1.resize(n as usize, 0); 0 } None => fail(EBADF) } }
unsafe fn describe(x: &P, b: *mut u8) -> c_int {
    let f = fs();
    let (mode, size) = if f.dir(x) { (0o040755u16, 0) } else if let Some(i) = f.file(x) { (0o100644, f.files[i].1.len() as u64) } else { return fail(ENOENT) };
    for i in 0..256 { *b.add(i) = 0 }
    *(b as *mut u32) = 0x7ff;
    *(b.add(4) as *mut u32) = 4096;
    *(b.add(28) as *mut u16) = mode;
    *(b.add(40) as *mut u64) = size;
    0
}
#[no_mangle] pub unsafe extern "C" fn statx(fd: c_int, s: *const c_char, _flags: c_int, _mask: u32, b: *mut u8) -> c_int {
    if b.is_null() { return fail(14) }
    if *s == 0 { return match opened(fd) { Some(o) => describe(&fs().files[o.file].0, b), None => fail(EBADF) } }
    match path(s) { Ok((x, _)) => describe(&x, b), Err(e) => fail(e) }
}
#[no_mangle] pub unsafe extern "C" fn getcwd(b: *mut u8, n: usize) -> *mut u8 { let w = b"/w\0"; if n < 3 { fail(34); return std::ptr::null_mut() } for i in 0..3 { *b.add(i) = w[i] } b }
#[no_mangle] pub unsafe extern "C" fn realpath(s: *const c_char, _: *mut u8) -> *mut u8 {
    match path(s) {
        Ok((x, _)) if fs().dir(&x) || fs().file(&x).is_some() => { let mut r = vec![]; for c in &x { r.push(b'/'); r.extend(c) } if r.is_empty() { r.push(b'/') } CString::new(r).unwrap().into_raw() as *mut u8 }
        Ok(_) => { fail(ENOENT); std::ptr::null_mut() }
        Err(e) => { fail(e); std::ptr::null_mut() }
    }
}
#[no_mangle] pub unsafe extern "C" fn opendir(s: *const c_char) -> *mut c_void {
    let x = match path(s) { Ok((x, _)) => x, Err(e) => { fail(e); return std::ptr::null_mut() } };
    let f = fs();
    if !f.dir(&x) { fail(if f.file(&x).is_some() { ENOTDIR } else { ENOENT }); return std::ptr::null_mut() }
    let mut items = vec![(b".".to_vec(), true), (b"..".to_vec(), true)];
    for d in &f.dirs { if d.len() == x.len() + 1 && d.starts_with(&x) { items.push((d[x.len()].clone(), true)) } }
    for (d, _) in &f.files { if d.len() == x.len() + 1 && d.starts_with(&x) { items.push((d[x.len()].clone(), false)) } }
    f.lists.push(Dir { items, at: 0, buf: Box::new([0; 280]) });
    f.lists.len() as *mut c_void
}
#[no_mangle] pub unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut u8 {
    let d = &mut fs().lists[d as usize - 1];
    if d.at == d.items.len() { return std::ptr::null_mut() }
    let (n, dir) = &d.items[d.at];
    d.at += 1;
    d.buf[0] = d.at as u8;
    d.buf[16] = 24 + n.len() as u8 / 8 * 8;
    d.buf[18] = if *dir { 4 } else { 8 };
    d.buf[19..19 + n.len()].copy_from_slice(n);
    d.buf[19 + n.len()] = 0;
    d.buf.as_mut_ptr()
}
#[no_mangle] pub extern "C" fn closedir(_: *mut c_void) -> c_int { 0 }
#[no_mangle] pub extern "C" fn dirfd(_: *mut c_void) -> c_int { 99 }
#[no_mangle] pub unsafe extern "C" fn exit(code: c_int) -> ! {
    if let Some(f) = fs().last.take() { f(code) }
    sym_done()
}
#[no_mangle] pub extern "C" fn sched_getaffinity(_: c_int, _: usize, _: *mut c_void) -> c_int { -1 }
#[no_mangle] pub extern "C" fn sysconf(n: c_int) -> i64 { if n == 30 { 4096 } else { 1 } }
