//! P05: physical layout of written paks, and reading of independently built ones.
use harness as h;
#[path = "../pakspec.rs"] #[allow(dead_code)] mod spec;
use spec::*;
use std::io::Cursor;
use unreal_pak::{PakMemory, PakReader, PakWriter};

fn content(n: usize) -> Vec<u8> { let mut b = vec![0u8; n]; h::fill(&mut b); b }

/// checks every byte range of `pak` against the layout; `entries` in the order they were written, `lead` bytes before the first record
fn layout(pak: &[u8], vi: usize, mount: &str, entries: &[(String, Vec<u8>, bool)], bs: u32) {
    let ver = VERSIONS[vi].1;
    let fl = footer_len(vi);
    h::check(pak.len() >= fl, 1);
    let mut f = Rd(pak, pak.len() - fl);
    if ver >= 7 { let g = f.take(16).unwrap(); h::check(g.iter().all(|&b| b == 0), 2); }
    if ver >= 4 { h::check(f.u8().unwrap() == 0, 3); }
    h::check(f.take(4).unwrap() == MAGIC, 4);
    h::check(f.u32().unwrap() == ver, 5);
    let io = f.u64().unwrap() as usize; let is = f.u64().unwrap() as usize;
    h::check(io + is == pak.len() - fl, 6);
    h::check(io + is <= pak.len(), 7);
    let index = &pak[io..io + is];
    h::check(f.take(20).unwrap() == sha(index), 8);
    let mut methods = vec![];
    if ver == 9 { h::check(f.u8().unwrap() == 0, 9); }
    if ver >= 8 { for _ in 0..if vi == 7 { 4 } else { 5 } { let m = f.take(32).unwrap(); let k = m.iter().position(|&c| c == 0).unwrap_or(32); h::check(m[k..].iter().all(|&c| c == 0), 10); methods.push(m[..k].to_vec()); } }
    h::check(f.1 == pak.len(), 11);
    let mut ix = Rd(index, 0);
    h::check(h::some(ix.fstr(), 12) == mount.as_bytes(), 13);
    h::check(ix.u32() == Some(entries.len() as u32), 14);
    let mut idx: Vec<(Vec<u8>, Rec)> = vec![];
    for _ in 0..entries.len() { let n = h::some(ix.fstr(), 15); let (r, fl) = h::some(ix.header(ver), 16); h::check(fl == 0, 17); idx.push((n, r)); }
    h::check(ix.1 == is, 18);
    // records, back to back from the start of the file
    let mut at = 0usize;
    for (name, data, want_z) in entries {
        let e = h::some(idx.iter().find(|x| x.0 == name.as_bytes()), 20);
        h::check(e.1.off == at as u64, 21);
        let mut r = Rd(pak, at);
        let (rec, fl) = h::some(r.header(ver), 22);
        h::check(rec.off == 0 && fl == 0, 23);
        let hd = r.1 - at;
        let z = *want_z && data.len() >= 32;
        for q in [&rec, &e.1] {
            h::check(q.usize_ == data.len() as u64, 24);
            h::check(q.blocks == rec.blocks && q.block_size == rec.block_size && q.method == rec.method && q.size == rec.size && q.hash == rec.hash, 25);
        }
        let stored = h::some(r.take(rec.size as usize), 26);
        h::check(sha(stored) == rec.hash, 27);
        if z {
            h::check(if ver >= 8 { rec.method >= 1 && methods.get(rec.method as usize - 1).map(|m| m == b"Zlib") == Some(true) } else { rec.method == 1 }, 28);
            let n = (data.len() + bs as usize - 1) / bs as usize;
            h::check(rec.blocks.len() == n, 29);
            h::check(rec.block_size as usize == if n == 1 { data.len() } else { bs as usize }, 30);
            let base = if ver < 5 { at as u64 } else { 0 };
            let mut pos = hd as u64 + base;
            for (i, b) in rec.blocks.iter().enumerate() {
                h::check(b.0 == pos && b.1 > b.0, 31);
                pos = b.1;
                let s = h::some(pak.get((b.0 - base) as usize + at..(b.1 - base) as usize + at), 32);
                let d = h::must(unzlib(s), 33);
                h::check(h::same(&d, &data[i * bs as usize..((i + 1) * bs as usize).min(data.len())]), 34);
            }
            h::check(pos == base + hd as u64 + rec.size, 35);
        } else {
            h::check(rec.method == 0 && rec.size == data.len() as u64 && h::same(stored, data), 36);
        }
        at = r.1;
    }
    h::check(at == io, 37);
}
fn written(vi: usize, bs: u32, mount: &str, e: &[(String, Vec<u8>, bool)]) {
    let mut c = Cursor::new(Vec::new());
    let mut w = PakWriter::new(&mut c, VERSIONS[vi].0);
    w.block_size = bs; w.mount_point = mount.to_owned();
    for (n, d, z) in e { h::must(w.write_entry(n, d, *z), 40); }
    h::must(w.finish_write(), 41);
    layout(&c.into_inner(), vi, mount, e, bs);
}
fn plain() {
    let vi = h::choice(WRITABLE as u64) as usize;
    let n = h::choice(4) as usize;
    let lens = [[0, 1, 2], [3, 0, 9], [40, 5, 31]][h::choice(3) as usize];
    let names = ["m", "Content/a.uasset", "é"];
    let e: Vec<_> = (0..n).map(|i| (names[i].to_owned(), content(lens[i]), false)).filter(|x| x.0.is_ascii()).collect();
    written(vi, 0x10000, ["", "../../../"][h::choice(2) as usize], &e);
}
fn packed() {
    let vi = 2 + h::choice(WRITABLE as u64 - 2) as usize;
    let (n, bs) = [(31, 16), (32, 64), (33, 32), (64, 32), (65, 32), (40, 39), (96, 10)][h::choice(7) as usize];
    let e = vec![("b".to_owned(), content(n), true), ("a".to_owned(), content(35), h::flag()), ("c".to_owned(), content(n), true)];
    written(vi, bs, "../../../", &e);
}
/// archives written by PakMemory: entries in name order, stored without compression
fn memory() {
    let vi = h::choice(WRITABLE as u64) as usize;
    let mut p = PakMemory::new(VERSIONS[vi].0);
    let e = vec![("a".to_owned(), content(3), false), ("b/c".to_owned(), content(40), false)];
    for x in e.iter().rev() { p.set_entry(x.0.clone(), x.1.clone()); }
    p.mount_point = "/x/".to_owned();
    let mut c = Cursor::new(Vec::new());
    h::must(p.write(&mut c), 50);
    layout(&c.into_inner(), vi, "/x/", &e, 0x10000);
}
fn build(vi: usize, mount: &[u8], entries: &[(&str, Vec<u8>, bool, u64)], bs: usize, methods: &[&[u8]], lead: usize) -> Vec<u8> {
    let ver = VERSIONS[vi].1;
    let mut o = vec![0xAAu8; lead];
    let mut recs = vec![];
    for (_, d, z, gap) in entries {
        o.extend(std::iter::repeat(0u8).take(*gap as usize));
        let at = o.len() as u64;
        let mut r = Rec { off: at, size: d.len() as u64, usize_: d.len() as u64, method: 0, hash: [7; 20], blocks: vec![], block_size: 0 };
        let mut data = vec![];
        if *z {
            r.method = if ver >= 8 { 1 + methods.iter().position(|m| *m == b"Zlib").unwrap() as u32 } else { 1 };
            let n = (d.len() + bs - 1) / bs;
            let mut pos = header_len(ver, Some(n)) + if ver < 5 { at } else { 0 };
            for c in d.chunks(bs) { let zc = zlib(c); r.blocks.push((pos, pos + zc.len() as u64)); pos += zc.len() as u64; data.extend(zc) }
            r.block_size = bs as u32;
        } else { data = d.clone() }
        r.size = data.len() as u64;
        r.hash = sha(&data);
        header(&mut o, ver, &r, 0);
        h::check(o.len() as u64 == at + header_len(ver, if *z { Some(r.blocks.len()) } else { None }), 60);
        o.extend(data);
        recs.push(r);
    }
    let io = o.len() as u64;
    let mut ix = vec![];
    fstr(&mut ix, mount);
    u32le(&mut ix, entries.len() as u32);
    if ver < 10 {
        for (e, r) in entries.iter().zip(&recs) { fstr(&mut ix, e.0.as_bytes()); header(&mut ix, ver, r, r.off); }
        o.extend(&ix);
        footer(&mut o, vi, io, &ix, methods);
    } else {
        // encoded entries; directory index placed right after the main index
        let mut enc = vec![]; let mut offs = vec![];
        for (e, r) in entries.iter().zip(&recs) {
            offs.push(enc.len() as u32);
            let small = e.3 % 2 == 0; // both encodings of sizes
            let bsf = if r.method == 0 { 0u32 } else if bs % 2048 == 0 && bs / 2048 < 0x3f { (bs / 2048) as u32 } else { 0x3f };
            let bits = bsf | (r.blocks.len() as u32) << 6 | r.method << 23 | if small { 7 << 29 } else { 0 };
            u32le(&mut enc, bits);
            if bsf == 0x3f { u32le(&mut enc, bs as u32) }
            let mut put = |v: u64| if small { u32le(&mut enc, v as u32) } else { u64le(&mut enc, v) };
            put(r.off); put(r.usize_); if r.method != 0 { put(r.size) }
            if r.blocks.len() > 1 { for b in &r.blocks { u32le(&mut enc, (b.1 - b.0) as u32) } }
        }
        u64le(&mut ix, 0x1234);
        u32le(&mut ix, 0); // no path hash index
        u32le(&mut ix, 1);
        let tail = 8 + 8 + 20 + 4 + enc.len() + 4;
        let dir_off = io + (ix.len() + tail) as u64;
        let mut dir = vec![];
        // group by directory
        let split = |n: &str| -> (String, String) { match n.rfind('/') { Some(i) => (n[..=i].to_owned(), n[i + 1..].to_owned()), None => ("/".to_owned(), n.to_owned()) } };
        let mut dirs: Vec<String> = vec![];
        for e in entries { let d = split(e.0).0; if !dirs.contains(&d) { dirs.push(d) } }
        u32le(&mut dir, dirs.len() as u32);
        for d in &dirs {
            fstr(&mut dir, d.as_bytes());
            let fs: Vec<usize> = (0..entries.len()).filter(|&i| split(entries[i].0).0 == *d).collect();
            u32le(&mut dir, fs.len() as u32);
            for i in fs { fstr(&mut dir, split(entries[i].0).1.as_bytes()); u32le(&mut dir, offs[i]) }
        }
        u64le(&mut ix, dir_off); u64le(&mut ix, dir.len() as u64); ix.extend(sha(&dir));
        u32le(&mut ix, enc.len() as u32); ix.extend(&enc); u32le(&mut ix, 0);
        o.extend(&ix);
        o.extend(&dir);
        footer(&mut o, vi, io, &ix, methods);
    }
    o
}
fn foreign(vi: usize, e: &[(&str, Vec<u8>, bool, u64)], bs: usize, methods: &[&[u8]], lead: usize, mount: &[u8]) {
    let p = build(vi, mount, e, bs, methods, lead);
    let mut r = PakReader::new(Cursor::new(&p[..]));
    h::must(r.load_index(), 61);
    h::check(r.mount_point.as_bytes() == mount, 62);
    h::check(r.get_entry_names().len() == e.len(), 63);
    for x in e { let n = x.0.to_owned(); h::check(r.contains_entry(&n), 64); let d = h::must(r.read_entry(&n), 65); h::check(h::same(&d, &x.1), 66); }
    let m = h::must(PakMemory::load_from(&mut Cursor::new(&p[..])), 67);
    h::check(m.get_entry_names().len() == e.len(), 68);
    for x in e { let d = h::some(m.get_entry(&x.0.to_owned()), 69); h::check(h::same(d, &x.1), 70); }
}
fn read_plain() {
    let vi = h::choice(12) as usize;
    let n = h::choice(4) as usize;
    let g = h::choice(4);
    let e: Vec<(&str, Vec<u8>, bool, u64)> = (0..n).map(|i| (["z", "Game/Content/a.uasset", "Game/b"][i], content([5, 0, 33][i]), false, g)).collect();
    foreign(vi, &e, 64, &[b"Zlib"], [0, 3, 300][h::choice(3) as usize], [&b""[..], b"../../../"][h::choice(2) as usize]);
}
fn read_packed() {
    let vi = 2 + h::choice(10) as usize;
    let bs = [2048usize, 16, 7][h::choice(3) as usize];
    let g = h::choice(2);
    let e: Vec<(&str, Vec<u8>, bool, u64)> = vec![("a/x", content(35), true, g), ("a/y", content(4), false, g), ("b", content(16), true, g)];
    let methods: Vec<&[u8]> = if VERSIONS[vi].1 < 8 { vec![] } else { match h::choice(3) { 0 => vec![&b"Zlib"[..]], 1 => vec![b"Oodle", b"Zlib"], _ => vec![b"", b"Gzip", b"", b"Zlib"] } };
    foreign(vi, &e, bs, &methods, 0, b"../../../");
}
h::cases! { case_plain => plain, case_packed => packed, case_memory => memory, case_read_plain => read_plain, case_read_packed => read_packed }
