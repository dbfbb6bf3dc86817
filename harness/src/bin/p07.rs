//! P07: in-memory paks behave like a map.
use harness as h;
#[path = "../pakspec.rs"] #[allow(dead_code)] mod spec;
use std::io::Cursor;
use unreal_pak::PakMemory;

struct Model(Vec<(String, Vec<u8>)>);
impl Model {
    fn set(&mut self, n: &String, d: &[u8]) { for e in &mut self.0 { if e.0 == *n { e.1 = d.to_vec(); return; } } self.0.push((n.clone(), d.to_vec())) }
    fn get(&self, n: &String) -> Option<&Vec<u8>> { self.0.iter().find(|e| e.0 == *n).map(|e| &e.1) }
}
fn agree(p: &PakMemory, m: &Model, base: u32) {
    h::check(p.get_entry_names().len() == m.0.len(), base);
    for (n, d) in &m.0 { h::check(p.contains_entry(n), base + 1); let g = h::some(p.get_entry(n), base + 2); h::check(h::same(g, d), base + 3); }
    let mut k = 0;
    let mut last: Option<&String> = None;
    for (n, d) in p { let g = h::some(m.get(n), base + 4); h::check(h::same(g, d), base + 5); if let Some(l) = last { h::check(l < n, base + 6) } last = Some(n); k += 1; }
    h::check(k == m.0.len(), base + 7);
}
fn script(steps: usize, vi: usize) {
    let mut p = PakMemory::new(spec::VERSIONS[vi].0);
    let mut m = Model(vec![]);
    for i in 0..steps {
        match h::choice(3) {
            0 => { let n = h::lower(1); let mut d = vec![0u8; [2, 0, 33, 1][i % 4]]; h::fill(&mut d); p.set_entry(n.clone(), d.clone()); m.set(&n, &d); }
            1 => { let n = h::lower(1); h::check(p.get_entry(&n).is_some() == m.get(&n).is_some() && p.contains_entry(&n) == m.get(&n).is_some(), 1); if let (Some(a), Some(b)) = (p.get_entry(&n), m.get(&n)) { h::check(h::same(a, b), 2) } }
            _ => {
                // write out, load into a fresh pak, go on with that one
                let mut c = Cursor::new(Vec::new());
                h::must(p.write(&mut c), 3);
                h::check(p.get_entry_names().len() == m.0.len(), 4);
                c.set_position(0);
                p.mount_point = "changed".to_owned();
                p = h::must(PakMemory::load_from(&mut c), 5);
                h::check(p.mount_point == "../../../", 6);
                h::check(p.pak_version == spec::VERSIONS[vi].0, 7);
            }
        }
    }
    agree(&p, &m, 10);
}
fn ops() { let vi = h::choice(spec::WRITABLE as u64) as usize; script(3, vi) }
/// loading merges into what is already there, the archive wins
fn merge() {
    let vi = h::choice(spec::WRITABLE as u64) as usize;
    let mut a = PakMemory::new(spec::VERSIONS[vi].0);
    let mut b = PakMemory::new(spec::VERSIONS[(vi + 3) % spec::WRITABLE].0);
    let mut m = Model(vec![]);
    for _ in 0..2 { let n = h::lower(1); let d = h::bytes::<2>(); b.set_entry(n.clone(), d.to_vec()); m.set(&n, &d); }
    for _ in 0..2 { let n = h::lower(1); let d = h::bytes::<3>(); a.set_entry(n.clone(), d.to_vec()); m.set(&n, &d); }
    a.mount_point = "/q/".to_owned();
    let mut c = Cursor::new(Vec::new());
    h::must(a.write(&mut c), 30);
    h::must(b.load(&mut c), 31);
    h::check(b.mount_point == "/q/" && b.pak_version == spec::VERSIONS[vi].0, 32);
    agree(&b, &m, 40);
}
/// an archive with compressed entries (and compression names) is kept through load, edit and write
fn compressed() {
    let vi = 2 + h::choice(spec::WRITABLE as u64 - 2) as usize;
    let mut c = Cursor::new(Vec::new());
    let mut w = unreal_pak::PakWriter::new(&mut c, spec::VERSIONS[vi].0);
    let mut m = Model(vec![]);
    for (n, k) in [("a", 40usize), ("b", 7)] { let mut d = vec![0u8; k]; h::fill(&mut d); h::must(w.write_entry(&n.to_owned(), &d, true), 50); m.set(&n.to_owned(), &d); }
    h::must(w.finish_write(), 51);
    let mut p = h::must(PakMemory::load_from(&mut c), 52);
    agree(&p, &m, 60);
    let n = ["a", "b", "c"][h::choice(3) as usize].to_owned();
    let mut d = vec![0u8; [0, 31, 32, 50][h::choice(4) as usize]]; h::fill(&mut d);
    p.set_entry(n.clone(), d.clone()); m.set(&n, &d);
    p.block_size = [0x10000, 16, 33][h::choice(3) as usize];
    let mut c = Cursor::new(Vec::new());
    h::must(p.write(&mut c), 53);
    let q = h::must(PakMemory::load_from(&mut c), 54);
    agree(&q, &m, 70);
    h::check(q.pak_version == spec::VERSIONS[vi].0, 55);
}
fn deep() { let vi = [0, 4, 9][h::choice(3) as usize]; script(5, vi) }
h::cases! { case_ops => ops, case_merge => merge, case_compressed => compressed, deep_ops => deep }
