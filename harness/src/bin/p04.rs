//! P04: archives return exactly the files that were put in.
use harness as h;
#[path = "../pakspec.rs"] #[allow(dead_code)] mod spec;
use std::io::Cursor;
use unreal_pak::{PakMemory, PakReader, PakWriter};

fn content(n: usize) -> Vec<u8> { let mut b = vec![0u8; n]; h::fill(&mut b); b }
fn write(vi: usize, bs: u32, mount: &str, entries: &[(String, Vec<u8>, bool)]) -> Vec<u8> {
    let mut c = Cursor::new(Vec::new());
    let mut w = PakWriter::new(&mut c, spec::VERSIONS[vi].0);
    w.block_size = bs;
    w.mount_point = mount.to_owned();
    let mut seen: Vec<usize> = vec![];
    for (i, (n, d, z)) in entries.iter().enumerate() {
        let dup = seen.iter().any(|&j| entries[j].0 == *n);
        let r = w.write_entry(n, d, *z);
        h::check(r.is_ok() == !dup, 1);
        if !dup { seen.push(i) }
    }
    let names: usize = w.get_entry_names().len();
    h::check(names == seen.len(), 2);
    h::must(w.finish_write(), 3);
    c.into_inner()
}
/// the first write of a name is the one kept
fn verify(pak: &[u8], mount: &str, entries: &[(String, Vec<u8>, bool)]) {
    let mut firsts: Vec<usize> = vec![];
    for i in 0..entries.len() { if !firsts.iter().any(|&j| entries[j].0 == entries[i].0) { firsts.push(i) } }
    let mut r = PakReader::new(Cursor::new(pak));
    h::must(r.load_index(), 10);
    h::check(r.mount_point == mount, 11);
    let names: Vec<String> = r.get_entry_names().into_iter().cloned().collect();
    h::check(names.len() == firsts.len(), 12);
    for &i in &firsts {
        let (n, d, _) = &entries[i];
        h::check(r.contains_entry(n), 13);
        let got = h::must(r.read_entry(n), 14);
        h::check(h::same(&got, d), 15);
        h::observe_bytes(15, &got);
    }
    // a second pass in reverse order: reading does not depend on history
    for &i in firsts.iter().rev() { let got = h::must(r.read_entry(&entries[i].0), 16); h::check(h::same(&got, &entries[i].1), 17); }
    let absent = "nosuchentry".to_owned();
    h::check(!r.contains_entry(&absent) && r.read_entry(&absent).is_err(), 18);
    let mut k = 0;
    for (n, d) in r.iter() {
        let d = h::must(d, 19);
        h::check(k < names.len() && names[k] == *n, 20);
        let mut found = false;
        for &i in &firsts { if entries[i].0 == *n { found = true; h::check(h::same(&d, &entries[i].1), 21) } }
        h::check(found, 22);
        k += 1;
    }
    h::check(k == firsts.len(), 23);
    let m = h::must(PakMemory::load_from(&mut Cursor::new(pak)), 24);
    h::check(m.get_entry_names().len() == firsts.len() && m.mount_point == mount, 25);
    for &i in &firsts { match m.get_entry(&entries[i].0) { Some(d) => h::check(h::same(d, &entries[i].1), 26), None => h::check(false, 27) } }
    h::check(m.get_entry(&absent).is_none(), 28);
}
fn round(vi: usize, bs: u32, mount: &str, e: &[(String, Vec<u8>, bool)]) { let p = write(vi, bs, mount, e); verify(&p, mount, e) }
/// 0..=3 uncompressed entries with arbitrary one-letter names, any content
fn small() {
    let vi = h::choice(spec::WRITABLE as u64) as usize;
    let n = h::choice(4) as usize;
    let mut e = vec![];
    for i in 0..n { e.push((h::lower(1), content([0, 3, 7][(i + vi) % 3]), false)) }
    round(vi, 0x10000, "../../../", &e);
}
fn sizes() {
    let vi = h::choice(spec::WRITABLE as u64) as usize;
    let n = [0, 1, 2, 5, 20, 31, 32, 33, 64, 200][h::choice(10) as usize];
    let e = vec![("a/b.uasset".to_owned(), content(n), false), ("z".to_owned(), content(4), false)];
    round(vi, 0x10000, "../../../", &e);
}
/// compression requested, sizes around the 32 byte threshold and around the block size
fn packed() {
    let vi = 2 + h::choice(spec::WRITABLE as u64 - 2) as usize;
    let (n, bs) = [(31, 16), (32, 64), (32, 32), (33, 32), (40, 16), (64, 32), (65, 32), (70, 69), (48, 47), (96, 10), (33, 1)][h::choice(11) as usize];
    let e = vec![("b".to_owned(), content(n), true), ("a".to_owned(), content(5), true), ("c".to_owned(), content(34), h::flag()), ("aa".to_owned(), content(n), true)];
    round(vi, bs, "../../../", &e);
}
fn unsupported() {
    // versions without compression refuse to compress, path-hash versions refuse to be written: errors, not crashes or wrong files
    let vi = h::choice(12) as usize;
    let mut c = Cursor::new(Vec::new());
    let mut w = PakWriter::new(&mut c, spec::VERSIONS[vi].0);
    let r = w.write_entry(&"a".to_owned(), &content(40), true);
    if vi < 2 { h::check(r.is_err(), 40); }
    if r.is_ok() {
        let f = w.finish_write();
        if f.is_ok() {
            let mut r = PakReader::new(Cursor::new(c.into_inner()));
            h::must(r.load_index(), 41);
            h::check(h::must(r.read_entry(&"a".to_owned()), 42).len() == 40, 43);
        } else { h::check(vi >= spec::WRITABLE, 44) }
    }
    let mut c = Cursor::new(Vec::new());
    let mut w = PakWriter::new(&mut c, spec::VERSIONS[4].0);
    w.block_size = 0;
    h::check(w.write_entry(&"a".to_owned(), &content(40), true).is_err(), 45);
}
fn names() {
    let vi = h::choice(spec::WRITABLE as u64) as usize;
    let k = h::choice(4);
    let name = |k: u64| -> String { match k { 0 => h::ascii(2), 1 => { let mut s = h::lower(1); s.push(h::any_char()); s } 2 => String::new(), _ => "Content/Mods/日本.uasset".to_owned() } };
    let e = vec![(name(k), content(3), false), (h::lower(2), content(2), false)];
    let mount = ["", "../../../", "../../../Ж/"][h::choice(3) as usize];
    round(vi, 0x10000, mount, &e);
}
fn mount_sym() {
    let vi = h::choice(spec::WRITABLE as u64) as usize;
    let m = h::ascii(3);
    let e = vec![("x".to_owned(), content(3), false)];
    let p = write(vi, 16, &m, &e);
    let mut r = PakReader::new(Cursor::new(&p[..]));
    h::must(r.load_index(), 50);
    h::check(h::same(r.mount_point.as_bytes(), m.as_bytes()), 51);
    let got = h::must(r.read_entry(&"x".to_owned()), 52);
    h::check(h::same(&got, &e[0].1), 53);
}
/// contents that look like pak structures, placed last so that they sit right in front of the index and trailer
fn lookalike() {
    let vi = h::choice(spec::WRITABLE as u64) as usize;
    let n = h::choice(3) as usize * 57 + 30;
    let mut d = content(n);
    let at = h::choice((n - 8) as u64 / 3) as usize * 3;
    d[at..at + 4].copy_from_slice(&spec::MAGIC);
    round(vi, 0x10000, "", &[("a".to_owned(), d, false)]);
}
/// entries around the default block size, mostly fixed bytes
fn big() {
    let vi = [2, 4, 8][h::choice(3) as usize];
    let n = [65535, 65536, 65537, 131073][h::choice(4) as usize];
    let mut d: Vec<u8> = vec![7; n];
    for at in [0, 65534, n - 3] { let x: [u8; 1] = h::bytes(); d[at] = x[0]; }
    round(vi, 0x10000, "../../../", &[("a".to_owned(), d, h::flag()), ("b".to_owned(), content(3), false)]);
}
fn many() {
    let vi = h::choice(spec::WRITABLE as u64) as usize;
    let n = 1 + h::choice(4) as usize;
    let mut e = vec![];
    for i in 0..n { let z = vi >= 2 && h::flag(); e.push((h::lower(1), content([33, 0, 40, 5][i]), z)) }
    round(vi, [16, 33, 0x10000][h::choice(3) as usize], "../../../", &e);
}
h::cases! { case_small => small, case_sizes => sizes, case_packed => packed, case_unsupported => unsupported, case_names => names, case_mount => mount_sym, case_lookalike => lookalike, case_big => big, deep_many => many }
