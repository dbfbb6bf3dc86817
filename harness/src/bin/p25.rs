//! P25: game paths and bit ranges.
use bitvec::prelude::*;
use harness as h;
use unreal_helpers::{game_to_absolute, BitVecExt};

/// what the path must become, when it names a file
fn oracle(game: &[u8], path: &[u8]) -> Option<(Vec<u8>, bool)> {
    let pre = b"/Game/";
    if path.len() < 6 || !h::same(&path[..6], pre) { return None; }
    let rest = &path[6..];
    let mut out = game.to_vec(); out.extend(b"/Content/"); out.extend(rest);
    let mut start = 0;
    for i in 0..rest.len() { if rest[i] == b'/' { start = i + 1 } }
    let last = &rest[start..];
    let plain = !last.is_empty() && !(last.len() == 1 && last[0] == b'.') && !(last.len() == 2 && last[0] == b'.' && last[1] == b'.');
    let mut dot = false;
    for i in 1..last.len() { dot |= last[i] == b'.' }
    if plain && !dot { out.extend(b".uasset") }
    Some((out, plain))
}
fn go(game: &str, path: &str) {
    let got = game_to_absolute(game, path);
    match oracle(game.as_bytes(), path.as_bytes()) {
        None => h::check(got.is_none(), 1),
        Some((want, plain)) => { let g = h::some(got, 2); if plain { h::check(h::same(g.as_bytes(), &want), 3) } else { h::check(g.len() >= game.len() + 8 && h::same(&g.as_bytes()[..game.len() + 8], &want[..game.len() + 8]), 4) } h::observe_bytes(1, g.as_bytes()) }
    }
}
/// an arbitrary tail behind the prefix
fn tail(n: usize) {
    let t = h::ascii(n);
    let mut p = ["/Game/", "/Game/Dir/", "/Game/Dir.ext/F", "/Game//Game/"][h::choice(4) as usize].to_string(); p.push_str(&t);
    go("TestGame", &p);
}
/// an arbitrary prefix
fn prefix() {
    let b = h::ascii(6);
    let mut p = b.clone(); p.push_str(["", "Items/Conveyor", "/Game/x"][h::choice(3) as usize]);
    go("TestGame", &p);
    // prefix in another place
    let mut q = h::ascii(1); q.push_str("/Game/x"); go("TestGame", &q);
}
fn short() { let k = h::choice(7) as usize; go("G", &"/Game/"[..k]); let n = h::choice(4) as usize; let p = h::ascii(n); go("G", &p); go("", "/Game/a"); }
/// an arbitrary game name ($ and friends included)
fn game(n: usize) {
    let g = h::ascii(n);
    let p = ["/Game/Items/Conveyor", "/Game/Maps/Planet.umap", "/Game/$0/${1}", "/game/x", "/Other/Game/x"][h::choice(5) as usize];
    let slash = g.as_bytes().iter().fold(false, |a, &c| a | (c == b'/') | (c == b'.'));
    h::assume(!slash);
    go(&g, p);
}
fn one(n: usize, pos: usize) { let mut b = vec![b'a'; n]; let c = h::u8(); h::assume(c != 0 && c < 128); b[pos] = c; let mut p = String::from("/Game/"); p.push_str(unsafe { std::str::from_utf8_unchecked(&b) }); go("TestGame", &p) }
fn long() { let n = [8, 20, 40][h::choice(3) as usize]; let pos = [0, 1, n / 2, n - 2, n - 1][h::choice(5) as usize]; one(n, pos) }
fn wide() { let c = h::any_char(); let v = c as u32; h::assume(v >= 0x80 && v < 0x10000); let mut p = String::from("/Game/a"); p.push(c); if h::flag() { p.push_str(".umap") } go("TestGame", &p) }

fn bits<T: BitStore, O: BitOrder>(dst: Vec<T>, src: Vec<T>, dl: usize, sl: usize, cases: &[(i32, i32, i32)]) {
    let mut d: BitVec<T, O> = BitVec::from_vec(dst); d.truncate(dl);
    let mut s: BitVec<T, O> = BitVec::from_vec(src); s.truncate(sl);
    let before: Vec<bool> = d.iter().map(|x| *x).collect();
    let from: Vec<bool> = s.iter().map(|x| *x).collect();
    let (index, num, off) = cases[h::choice(cases.len() as u64) as usize];
    d.set_range_from_range(index, num, &s, off);
    h::check(d.len() == dl && s.len() == sl, 10);
    let mut bad = false;
    for i in 0..dl {
        let k = i as i32 - index;
        let want = if k >= 0 && k < num { let j = (off + k) as usize; if j < sl { from[j] } else { false } } else { before[i] };
        bad |= d[i] != want;
    }
    for i in 0..sl { bad |= s[i] != from[i] }
    h::check(!bad, 11);
}
const R: &[(i32, i32, i32)] = &[(0, 0, 0), (5, 0, 3), (0, 1, 0), (19, 1, 15), (7, 2, 7), (3, 4, 0), (0, 16, 0), (2, 16, 0), (4, 16, 0), (0, 20, 0), (1, 8, 12), (9, 5, 9), (8, 8, 8), (6, 9, 1), (0, 5, 20), (12, 8, 3), (3, 4, -1 + 1), (15, 5, 14), (0, 8, 8), (10, 3, 13)];
/// source bits: six arbitrary ones in a fixed pattern
fn six(n: usize) -> Vec<u8> {
    let s = h::u8(); h::assume(s < 64);
    let base = [0x00u8, 0xFF, 0x65][h::choice(3) as usize];
    let mut v = vec![base; n];
    for i in 0..6 { let p = i * (n * 8 - 1) / 5; v[p / 8] ^= ((s >> i) & 1) << (p % 8) }
    v
}
fn range8l() { bits::<u8, Lsb0>(h::bytes::<3>().to_vec(), six(2), 20, 16, R) }
fn range8m() { bits::<u8, Msb0>(h::bytes::<3>().to_vec(), six(2), 20, 16, R) }
fn range32() {
    let b = six(8);
    bits::<u32, Lsb0>(vec![h::u32(), h::u32()], vec![u32::from_le_bytes([b[0], b[1], b[2], b[3]]), u32::from_le_bytes([b[4], b[5], b[6], b[7]])], 60, 64, &[(0, 0, 0), (31, 2, 31), (0, 40, 0), (10, 40, 0), (30, 10, 5), (32, 18, 22), (5, 27, 32), (49, 1, 39), (0, 50, 20), (58, 2, 62)])
}
/// every range of a small vector
fn small() {
    let d = h::u8(); let s = h::u8();
    let index = h::choice(7) as i32; let num = h::choice(7 - index as u64) as i32; let off = h::choice(8) as i32;
    bits::<u8, Lsb0>(vec![d], vec![s], 6, 6, &[(index, num, off)]);
}
h::cases! { case_tail2 => || tail(2), case_tail3 => || tail(3), deep_tail4 => || tail(4), case_prefix => prefix, case_short => short, case_game1 => || game(1), case_game3 => || game(3), case_long => long, case_wide => wide, case_range8l => range8l, case_range8m => range8m, case_range32 => range32, case_small => small }
