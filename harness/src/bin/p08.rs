//! P08: a chain of two streams reads as their concatenation.
use harness as h;
use std::io::{Cursor, Read, Seek, SeekFrom};
use unreal_asset_base::containers::Chain;

struct Model { data: Vec<u8>, pos: u64 }
impl Model {
    fn seek(&mut self, whence: u64, off: u64) -> Option<u64> {
        let base = match whence { 0 => return { self.pos = off; Some(off) }, 1 => self.data.len() as u64, _ => self.pos };
        let n = base as i128 + off as i64 as i128;
        if n < 0 || n > u64::MAX as i128 { return None; }
        self.pos = n as u64;
        Some(self.pos)
    }
    fn read(&mut self, n: usize) -> Vec<u8> {
        let len = self.data.len() as u64;
        if self.pos >= len { return vec![]; }
        let p = h::concrete(self.pos) as usize;
        let e = if n < self.data.len() - p { p + n } else { self.data.len() };
        self.pos = e as u64;
        self.data[p..e].to_vec()
    }
}
fn drain<C: Read>(c: &mut C, n: usize, id: u32) -> Vec<u8> {
    let mut b = vec![0u8; n];
    let mut got = 0;
    while got < n {
        let k = h::must(c.read(&mut b[got..]), id);
        h::check(k <= n - got, id + 1);
        if k == 0 { break }
        got += k;
    }
    b.truncate(got);
    b
}
fn make(a: usize, b: Option<usize>) -> (Chain<Cursor<Vec<u8>>>, Model) {
    let mut f = vec![0; a]; h::fill(&mut f);
    let s = b.map(|b| { let mut s = vec![0; b]; h::fill(&mut s); s });
    let mut data = f.clone();
    if let Some(s) = &s { data.extend(s) }
    (Chain::new(Cursor::new(f), s.map(Cursor::new)), Model { data, pos: 0 })
}
/// offsets of one operation: all in-range values one by one plus every other 64-bit value at once
fn step(c: &mut Chain<Cursor<Vec<u8>>>, m: &mut Model, wide: bool) {
    let len = m.data.len();
    match h::choice(4) {
        0 => {
            let n = if wide { h::choice(len as u64 + 2) as usize } else { [0, 1, 2, 5][h::choice(4) as usize] };
            let got = drain(c, n, 10);
            let want = m.read(n);
            h::check(h::same(&got, &want), 12);
            h::observe(1, got.len() as u64);
        }
        w => {
            let whence = w - 1;
            let off = if whence == 0 { h::size(len as u64 + 2) } else {
                let v = h::u64();
                let r = len as i64 + 2;
                if (v as i64) >= -r && (v as i64) <= r { h::concrete(v) } else { v }
            };
            let got = c.seek(match whence { 0 => SeekFrom::Start(off), 1 => SeekFrom::End(off as i64), _ => SeekFrom::Current(off as i64) });
            match (m.seek(whence, off), got) {
                (Some(p), Ok(g)) => h::check(p == g, 13),
                (None, Err(_)) => {}
                (None, Ok(_)) => h::check(false, 14),
                (Some(_), Err(_)) => h::check(false, 15),
            }
        }
    }
    let p = h::must(c.stream_position(), 16);
    h::check(p == m.pos, 17);
}
fn sizes() -> (usize, Option<usize>) { [(2, Some(2)), (0, Some(2)), (2, Some(0)), (1, Some(3)), (3, None)][h::choice(5) as usize] }
fn ops(steps: usize, a: usize, b: Option<usize>) { let (mut c, mut m) = make(a, b); for _ in 0..steps { step(&mut c, &mut m, true) } let g = drain(&mut c, 8, 20); h::check(h::same(&g, &m.read(8)), 22); }
/// only in-range positions, longer histories
fn inrange(steps: usize, a: usize, b: usize) {
    let (mut c, mut m) = make(a, Some(b));
    let len = (a + b) as u64;
    for _ in 0..steps {
        if h::flag() {
            let to = h::choice(len + 1);
            let p = match h::choice(3) { 0 => SeekFrom::Start(to), 1 => SeekFrom::End(to as i64 - len as i64), _ => SeekFrom::Current(to as i64 - m.pos as i64) };
            h::check(h::must(c.seek(p), 30) == to, 31);
            m.pos = to;
        } else {
            let n = [1, 2, len as usize][h::choice(3) as usize];
            let got = drain(&mut c, n, 32);
            h::check(h::same(&got, &m.read(n)), 34);
        }
    }
    let rest = { let mut v = vec![]; h::must(c.read_to_end(&mut v), 35); v };
    h::check(h::same(&rest, &m.read(1000)), 36);
}
/// an exact read that does not fit fails, one that fits succeeds
fn exact() {
    let (a, b) = sizes();
    let (mut c, mut m) = make(a, b);
    let len = m.data.len() as u64;
    let p = h::choice(len + 1);
    h::must(c.seek(SeekFrom::Start(p)), 40); m.pos = p;
    let n = h::choice(len + 2) as usize;
    let mut buf = vec![0u8; n];
    let r = c.read_exact(&mut buf);
    h::check(r.is_ok() == (p as usize + n <= len as usize), 41);
    if r.is_ok() { h::check(h::same(&buf, &m.read(n)), 42) }
}
h::cases! { case_ops => || { let (a, b) = sizes(); ops(2, a, b) }, case_ops3 => || ops(3, 1, Some(1)), deep_ops => || { let (a, b) = sizes(); ops(3, a, b) }, case_inrange => || inrange(4, 2, 2), case_exact => exact, case_wide => || inrange(3, 6, 5), deep_inrange => || inrange(6, 2, 3) }
