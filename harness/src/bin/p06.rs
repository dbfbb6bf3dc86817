//! P06: corrupt paks.
use harness as h;
#[path = "../pakspec.rs"] #[allow(dead_code)] mod spec;
use spec::*;
use std::io::Cursor;
use unreal_pak::{PakMemory, PakReader};

fn poke(p: &[u8]) {
    h::stub_format(true);
    let mut r = PakReader::new(Cursor::new(p));
    match r.load_index() {
        Ok(()) => {
            h::observe(1, r.get_entry_names().len() as u64);
            for (_, d) in r.iter() { match d { Ok(d) => { h::check(d.len() <= p.len() * 1100, 2); h::observe(2, d.len() as u64) } Err(_) => h::observe(3, 0) } }
        }
        Err(_) => h::observe(4, 0),
    }
}
fn load(p: &[u8]) { h::stub_format(true); if let Ok(m) = PakMemory::load_from(&mut Cursor::new(p)) { let mut c = Cursor::new(Vec::new()); let r = m.write(&mut c); h::observe(5, r.is_ok() as u64); } else { h::observe(6, 0) } }
fn sym(n: usize) -> Vec<u8> { let mut b = vec![0u8; n]; h::fill(&mut b); b }
/// every file too short to hold a trailer
fn short() { let n = [0, 1, 4, 0x2B][h::choice(4) as usize]; let b = sym(n); poke(&b); }
/// arbitrary trailer (each magic position) behind a fixed small body
fn trailer() {
    let mut o = vec![];
    let mut ix = vec![]; fstr(&mut ix, b"m"); u32le(&mut ix, 0);
    let lead = 20;
    o.extend(vec![0u8; lead]);
    o.extend(&ix);
    let k = [0x2C, 0xAC, 0xCC, 0xCD][h::choice(4) as usize];
    o.extend(vec![0u8; [0, 17][h::choice(2) as usize]]);
    let at = o.len();
    o.extend(MAGIC);
    let v = [1, 3, 4, 7, 8, 9, 10, 11, h::u32() | 16][h::choice(9) as usize]; u32le(&mut o, v); u64le(&mut o, h::size(40)); o.extend(vec![0; 8]); // version, offset, size
    o.extend(vec![0u8; at + k - o.len()]);
    poke(&o);
}
/// arbitrary trailer version and arbitrary compression names
fn methods() {
    let mut o = vec![]; let mut ix = vec![]; fstr(&mut ix, b""); u32le(&mut ix, 0);
    o.extend(&ix);
    o.extend(vec![0u8; 17]);
    o.extend(MAGIC); u32le(&mut o, [8, 9, 10, 11, 12][h::choice(5) as usize]); u64le(&mut o, 0); u64le(&mut o, ix.len() as u64); o.extend(sha(&ix));
    let n = h::choice(6) as usize;
    for i in 0..n { let mut m = vec![0u8; 32]; if i < 2 { let s = sym(5); m[..5].copy_from_slice(&s) } o.extend(m) }
    if h::flag() { o.push(0) }
    poke(&o);
}
/// index with one arbitrary length, count or header field (versions up to 9); the rest is well formed
fn index(what: u64) {
    let vi = if what == 2 || what == 5 { [0, 1, 2, 4, 8][h::choice(5) as usize] } else { [0, 2, 8][h::choice(3) as usize] };
    let ver = VERSIONS[vi].1;
    let mut o = vec![];
    let mut ix = vec![];
    if what == 6 { u32le(&mut ix, h::size32(12)) } else { u32le(&mut ix, 2) } ix.extend(b"m\0");
    if what == 0 { u32le(&mut ix, h::size32(4)) } else { u32le(&mut ix, 1) }
    if what == 1 { u32le(&mut ix, h::size32(24)) } else { u32le(&mut ix, 2) } ix.extend(b"a\0");
    if what == 2 { u64le(&mut ix, h::size(130)) } else { u64le(&mut ix, 1 << 40) }
    if what == 2 { ix.extend(sym(16)) } else { ix.extend([0; 16]) }
    let m = if what == 3 { h::size32(0x22) } else if what == 4 || what == 5 { [1, 5][h::choice(2) as usize] } else { 0 };
    u32le(&mut ix, m);
    ix.extend(vec![0u8; 20 + if ver == 1 { 8 } else { 0 }]);
    if ver >= 3 && m != 0 {
        u32le(&mut ix, if what == 4 { h::size32(6) } else { 1 });
        if what == 5 { ix.extend(sym(16)) } else { ix.extend([0; 16]) }
    }
    if what == 5 { ix.extend(sym(5)) }
    ix.extend(vec![0u8; 12]);
    o.extend(&ix);
    footer(&mut o, vi, 0, &ix, &[b"Zlib"]);
    poke(&o);
}
/// one valid index entry whose record header has one arbitrary part
fn record(what: u64) {
    let vi = if what < 2 { h::choice(10) as usize } else { [2, 4, 8][h::choice(3) as usize] };
    let ver = VERSIONS[vi].1;
    let mut o = vec![];
    let m = if what == 0 { [1, 2, 5, 6, 0x10, 0x20, h::u32() | 0x100][h::choice(7) as usize] } else if what == 1 { 0 } else { 1 };
    if what == 2 || what == 1 { o.extend(sym(16)) } else { u64le(&mut o, 0); u64le(&mut o, 16) }
    if what == 1 { u64le(&mut o, h::size(60)) } else if what == 2 { u64le(&mut o, h::u64()) } else { u64le(&mut o, 5) }
    u32le(&mut o, m);
    if ver == 1 { o.extend([0; 8]) }
    o.extend([0; 20]);
    let base = if ver >= 5 { header_len(ver, Some(1)) } else { header_len(ver, Some(1)) };
    if ver >= 3 && m != 0 {
        let n = if what == 3 { [0, 2, h::u32() | 4][h::choice(3) as usize] } else { 1 };
        u32le(&mut o, n);
        if what == 4 { let st = h::u64(); u64le(&mut o, st); u64le(&mut o, st.wrapping_add(h::size(30))) }
        else { u64le(&mut o, base); u64le(&mut o, base + 16) }
    }
    if ver >= 3 { if what == 2 || what == 1 { o.extend(sym(5)) } else { o.extend([0, 8, 0, 0, 0]) } }
    o.extend([0x78, 0x01, 1, 0, 0, 0xff, 0xff, 0, 0, 0, 1, 0, 0, 0, 0, 0]);
    let io = o.len() as u64;
    let mut ix = vec![]; fstr(&mut ix, b"m"); u32le(&mut ix, 1); fstr(&mut ix, b"a");
    let r = Rec { off: 0, size: 1, usize_: 1, method: 0, hash: [0; 20], blocks: vec![], block_size: 0 };
    header(&mut ix, ver, &r, 0);
    o.extend(&ix);
    footer(&mut o, vi, io, &ix, &[b"Zlib", b"Oodle"]);
    if h::flag() { poke(&o) } else { load(&o) }
}
/// compressed data with arbitrary bytes (the stored-block part of the zlib format)
fn zdata() {
    let vi = [2, 4, 8][h::choice(3) as usize];
    let ver = VERSIONS[vi].1;
    let mut o = vec![];
    let z = { let mut z = vec![0x78, 0x01, [0, 1, 6, 7][h::choice(4) as usize]]; z.extend(sym(4)); z.extend(b"abcdefgh"); z };
    let base = header_len(ver, Some(1));
    let r = Rec { off: 0, size: z.len() as u64, usize_: 8, method: 1, hash: [0; 20], blocks: vec![(base, base + z.len() as u64)], block_size: 8 };
    // the block after the stored one starts in "abcdefgh": keep it out of the modelled input by making the first one final or invalid
    h::assume((z[2] != 0 || z[3] > 8) && z[4] == 0 && z[3] < 20);
    header(&mut o, ver, &r, 0);
    o.extend(&z);
    let io = o.len() as u64;
    let mut ix = vec![]; fstr(&mut ix, b"m"); u32le(&mut ix, 1); fstr(&mut ix, b"a"); header(&mut ix, ver, &r, 0);
    o.extend(&ix);
    footer(&mut o, vi, io, &ix, &[b"Zlib"]);
    poke(&o);
}
/// the record offset in the index points anywhere
fn offset() {
    let vi = h::choice(10) as usize;
    let ver = VERSIONS[vi].1;
    let mut o = vec![];
    let r = Rec { off: 0, size: 4, usize_: 4, method: 0, hash: [1; 20], blocks: vec![], block_size: 0 };
    header(&mut o, ver, &r, 0); o.extend([1, 2, 3, 4]);
    let io = o.len() as u64;
    let mut ix = vec![]; fstr(&mut ix, b"m"); u32le(&mut ix, 1); fstr(&mut ix, b"a"); header(&mut ix, ver, &r, h::size(110));
    o.extend(&ix);
    footer(&mut o, vi, io, &ix, &[]);
    poke(&o);
}
/// path hash index versions: arbitrary index fields, directory offset, encoded offset and encoded entry
fn hashed(what: u64) {
    let vi = 10 + h::choice(2) as usize;
    let mut o = vec![9u8; 8];
    let io = o.len() as u64;
    let mut ix = vec![];
    fstr(&mut ix, b"m"); u32le(&mut ix, 1); u64le(&mut ix, 0);
    if what == 0 { ix.extend(sym(4)) } else { u32le(&mut ix, 0) }
    if what == 0 { ix.extend(sym(4)) } else { u32le(&mut ix, 1) }
    let dir_off = io + ix.len() as u64 + 36 + 4 + 32;
    if what == 0 { u64le(&mut ix, h::u64() | 1 << 40) } else if what == 1 { u64le(&mut ix, h::size(500)) } else { u64le(&mut ix, dir_off) }
    u64le(&mut ix, 0); ix.extend([0; 20]);
    u32le(&mut ix, 32);
    if what == 2 { ix.extend(sym(4)); let z = [0u8, 8, 77][h::choice(3) as usize]; for _ in 0..7 { ix.extend([z, 0, 0, 0]) } }
    else if what == 5 { ix.extend(sym(4)); for _ in 0..7 { u32le(&mut ix, h::u32() | 1 << 20) } }
    else if what == 6 { u32le(&mut ix, [0x8000_0000, 0xE080_0000, 0x803F, 0][h::choice(4) as usize]); u32le(&mut ix, h::size32(400)); ix.extend([0; 24]) }
    else { ix.extend([0; 32]) }
    let mut dir = vec![];
    if what == 3 { u32le(&mut dir, h::size32(4)) } else { u32le(&mut dir, 1) }
    fstr(&mut dir, b"/");
    if what == 3 { u32le(&mut dir, h::size32(4)) } else { u32le(&mut dir, 1) }
    fstr(&mut dir, b"a");
    if what == 4 { u32le(&mut dir, h::size32(500)) } else { u32le(&mut dir, 0) }
    o.extend(&ix); o.extend(&dir);
    footer(&mut o, vi, io, &ix, &[b"Zlib"]);
    poke(&o);
}
fn invalid_version() {
    // an in-memory pak of an unwritable version: error, not a crash
    use unreal_pak::pakversion::PakVersion as V;
    let v = [V::Invalid, V::PathHashIndex, V::Fnv64BugFix][h::choice(3) as usize];
    let m = PakMemory::new(v);
    h::check(m.write(&mut Cursor::new(Vec::new())).is_err(), 9);
    let n = h::u32();
    let v = V::from_num(n);
    if v != V::Invalid { h::check(v.to_num() == n, 10) } else { h::check(n == 0 || n > 11, 11) }
}
fn any44() {
    let mut o = sym(h::choice(13) as usize);
    o.extend(MAGIC); o.extend(sym(24)); o.extend([0; 20 - 4]); o.extend([0; 4]);
    poke(&o);
}
h::cases! { case_short => short, case_trailer => trailer, case_methods => methods, case_index_count => || index(0), case_index_name => || index(1), case_index_offset => || index(2), case_index_method => || index(3), case_index_blocks => || index(4), case_index_block => || index(5), case_index_mount => || index(6),
  case_record_method => || record(0), case_record_plain => || record(1), case_record_sizes => || record(2), case_record_blocks => || record(3), case_record_block => || record(4),
  case_zdata => zdata, case_offset => offset,
  case_hashed_flags => || hashed(0), case_hashed_dir => || hashed(1), case_hashed_entry => || hashed(2), case_hashed_sizes => || hashed(5), case_hashed_offset => || hashed(6), case_hashed_counts => || hashed(3), case_hashed_enc => || hashed(4), case_invalid => invalid_version, deep_any => any44 }
