//! P10: name tables and names.
use harness as h;
use std::io::Cursor;
use unreal_asset_base::{containers::{Chain, NameMap, SharedResource}, object_version::{ObjectVersion, ObjectVersionUE5}, reader::{ArchiveReader, ArchiveTrait, ArchiveWriter, RawReader, RawWriter}, types::{FName, PackageIndex}};

const TEXTS: [&str; 4] = ["Alpha", "alpha", "", "Ålpha_1"];
fn text() -> String { TEXTS[h::choice(4) as usize].to_string() }
fn agree(m: &SharedResource<NameMap>, l: &Vec<String>, id: u32) {
    let r = m.get_ref();
    let list = r.get_name_map_index_list();
    h::check(list.len() == l.len() && r.is_empty() == l.is_empty(), id);
    for i in 0..l.len() { h::check(list[i] == l[i] && r.get_name_reference(i as i32) == l[i] && r.get_owned_name(i as i32) == l[i], id + 1) }
    for t in TEXTS {
        match r.search_name_reference(t) { Some(i) => h::check(i >= 0 && (i as usize) < l.len() && l[i as usize] == t, id + 2), None => h::check(!l.iter().any(|x| x == t), id + 3) }
    }
}
fn add(m: &mut SharedResource<NameMap>, l: &mut Vec<String>) -> i32 {
    let t = text();
    match h::choice(3) {
        0 => {
            let before = m.get_ref().search_name_reference(&t);
            let i = m.get_mut().add_name_reference(t.clone(), false);
            match before { Some(b) => h::check(i == b, 1), None => { h::check(i as usize == l.len(), 2); l.push(t) } }
            i
        }
        1 => { let i = m.get_mut().add_name_reference(t.clone(), true); h::check(i as usize == l.len(), 3); l.push(t); i }
        _ => {
            let n = h::i32();
            let f = m.get_mut().add_fname_with_number(&t, n);
            if !l.contains(&t) { l.push(t.clone()) }
            h::check(f.get_number() == n && f.get_owned_content() == t && f == *t.as_str() && f == t.as_str(), 4);
            match f { FName::Backed { index, .. } => index, _ => { h::check(false, 5); 0 } }
        }
    }
}
fn history(n: usize) {
    let mut m = NameMap::new();
    let mut l = vec![];
    let mut live: Vec<(FName, String, i32)> = vec![];
    for _ in 0..n {
        let i = add(&mut m, &mut l);
        h::check(i >= 0 && (i as usize) < l.len(), 6);
        let num = h::i32();
        let f = m.get_ref().create_fname(i, num);
        live.push((f, l[i as usize].clone(), num));
    }
    agree(&m, &l, 10);
    for (f, t, n) in &live { h::check(f.get_owned_content() == *t && f.get_number() == *n, 7); h::check(f.get_content(|s| s == t.as_str()) && f.ends_with(t.trim_start_matches(char::is_alphabetic)), 8) }
    // cloning a table gives an independent one with the same content
    let mut c = m.clone_resource();
    agree(&c, &l, 20);
    let i = c.get_mut().add_name_reference("fresh".into(), false);
    h::check(i as usize == l.len() && c.get_ref().get_name_reference(i) == "fresh", 9);
    let f = c.get_ref().create_fname(i, 3);
    h::check(f == "fresh", 9);
    agree(&m, &l, 30);
    h::observe(1, l.len() as u64);
}
/// equality of names
fn equality() {
    let mut m = NameMap::new();
    let mut fs = vec![];
    for _ in 0..2 {
        let t = text(); let n = h::i32();
        let f = if h::flag() { m.get_mut().add_fname_with_number(&t, n) } else if h::flag() { m.get_mut().add_fname_with_number("pad", 1); m.get_mut().add_fname_with_number(&t, n) } else { FName::new_dummy(t.clone(), n) };
        fs.push((f, t, n));
    }
    let (a, b) = (&fs[0], &fs[1]);
    h::check(a.0.eq_content(&b.0) == (a.1 == b.1), 40);
    h::check((a.0 == b.1.as_str()) == (a.1 == b.1), 41);
    let same_kind = matches!((&a.0, &b.0), (FName::Backed { .. }, FName::Backed { .. }) | (FName::Dummy { .. }, FName::Dummy { .. }));
    if same_kind { h::check((a.0 == b.0) == (a.1 == b.1 && a.2 == b.2), 42) }
    h::check(a.0 == a.0.clone(), 43);
}
fn reader(b: Vec<u8>, m: &SharedResource<NameMap>) -> RawReader<PackageIndex, Cursor<Vec<u8>>> { RawReader::new(Chain::new(Cursor::new(b), None), ObjectVersion::VER_UE4_OLDEST_LOADABLE_PACKAGE, ObjectVersionUE5::UNKNOWN, false, m.clone()) }
/// write / read of every name of a table with any number
fn stored() {
    let m = NameMap::from_name_batch(&["Alpha".into(), "Beta".into(), "Gamma".into()]);
    let i = h::choice(3) as i32; let n = h::i32();
    let f = m.get_ref().create_fname(i, n);
    let mut c = Cursor::new(vec![]);
    { let mut w: RawWriter<PackageIndex, _> = RawWriter::new(&mut c, ObjectVersion::VER_UE4_OLDEST_LOADABLE_PACKAGE, ObjectVersionUE5::UNKNOWN, false, m.clone()); h::must(w.write_fname(&f), 50); h::check(w.write_fname(&FName::new_dummy("x".into(), n)).is_err(), 51); }
    let b = c.into_inner();
    let mut want = i.to_le_bytes().to_vec(); want.extend(n.to_le_bytes());
    h::check(h::same(&b, &want), 52);
    let mut r = reader(b, &m);
    let g = h::must(r.read_fname(), 53);
    h::check(g == f && g.eq_content(&f) && g.get_number() == n && r.position() == 8, 54);
}
/// any eight bytes
fn stored_any() {
    h::stub_format(true);
    let k = h::choice(4) as usize;
    let names: Vec<String> = ["Alpha", "Beta", "Gamma"][..k].iter().map(|x| x.to_string()).collect();
    let m = NameMap::from_name_batch(&names);
    let b = h::bytes::<8>();
    let (i, n) = (i32::from_le_bytes([b[0], b[1], b[2], b[3]]), i32::from_le_bytes([b[4], b[5], b[6], b[7]]));
    let len = 8 - h::choice(3) as usize;
    let mut r = reader(b[..len].to_vec(), &m);
    match r.read_fname() {
        Ok(f) => { h::check(len == 8 && i >= 0 && i < k as i32, 60); let i = h::concrete(i as u64) as usize; h::check(f == names[i].as_str() && f.get_number() == n, 61) }
        Err(_) => h::check(len < 8 || i < 0 || i >= k as i32, 62),
    }
    let i = h::i32();
    let r = m.get_ref();
    if i < 0 || i >= k as i32 { let _ = r.get_name_reference(i); }
}
/// tables from lists, repeated names included
fn batch() {
    let n = h::choice(4) as usize;
    let l: Vec<String> = (0..n).map(|_| text()).collect();
    let m = NameMap::from_name_batch(&l);
    agree(&m, &l, 70);
}
/// texts that differ only a little, or far into a long text, stay apart
fn close() {
    let long: String = "Abcdefghijklmnopqrstuvwxyz0123456789".repeat(8);
    let mut l: Vec<String> = ["A", "a", "A ", " A", "A\0", "A_0", "A_00", "A0", "AA", "/A", "\u{c4}", "A\u{308}", "", " ", "\0", "None", "none"].iter().map(|s| s.to_string()).collect();
    for i in [0, 7, 8, 63, 64, 255, 287] { let mut b = long.clone().into_bytes(); b[i] = b'#'; l.push(String::from_utf8(b).unwrap()) }
    l.push(long);
    let forced = h::flag();
    let first = h::choice(l.len() as u64) as usize;
    l.rotate_left(first);
    let mut m = NameMap::new();
    let mut fs = vec![];
    for (i, t) in l.iter().enumerate() {
        h::check(m.get_ref().search_name_reference(t).is_none(), 90);
        let f = if forced { let j = m.get_mut().add_name_reference(t.clone(), true); m.get_ref().create_fname(j, 1) } else { m.get_mut().add_fname_with_number(t, 1) };
        h::check(matches!(f, FName::Backed { index, .. } if index as usize == i), 91);
        fs.push(f);
    }
    for (i, t) in l.iter().enumerate() {
        h::check(m.get_ref().search_name_reference(t) == Some(i as i32) && fs[i] == t.as_str() && m.get_ref().get_name_reference(i as i32) == t, 92);
        for j in 0..i { h::check(!fs[i].eq_content(&fs[j]) && fs[i] != fs[j] && fs[i] != *l[j].as_str(), 93) }
    }
}
/// a text of arbitrary letters next to fixed ones
fn arbitrary() {
    let a = h::lower(2);
    let b = h::lower(2);
    let mut m = NameMap::new();
    let eq = h::same(a.as_bytes(), b.as_bytes());
    let f = m.get_mut().add_fname_with_number("fixed", 0);
    let i = m.get_mut().add_name_reference(a.clone(), true);
    let j = m.get_mut().add_name_reference(b.clone(), true);
    let (fa, fb) = (m.get_ref().create_fname(i, 0), m.get_ref().create_fname(j, 0));
    h::check(fa.get_content(|s| h::same(s.as_bytes(), a.as_bytes())) && fb.get_content(|s| h::same(s.as_bytes(), b.as_bytes())) && f == "fixed", 80);
    h::check(fa.eq_content(&fb) == eq, 81);
}
h::cases! { case_history => || history(3), deep_history => || history(4), case_equality => equality, case_stored => stored, case_stored_any => stored_any, case_batch => batch, case_close => close, deep_arbitrary => arbitrary }
