//! P23: mod metadata.
use harness as h;
use semver::VersionReq;
use std::hash::{Hash, Hasher};
use serde_json::Value;
use unreal_mod_metadata::{from_slice, Dependency, DownloadMode, Metadata, SyncMode};

/// two characters out of a block of 32 (letters and punctuation) or 16 (digits and punctuation)
fn text() -> String {
    let v = h::bytes::<2>();
    String::from_utf8(vec![0x60 | v[0] & 0x1f, 0x30 | v[1] & 0xf]).unwrap()
}
fn same(a: &str, b: &str) -> bool { h::same(a.as_bytes(), b.as_bytes()) }
fn same_opt(a: &Option<String>, b: &Option<String>) -> bool { match (a, b) { (Some(a), Some(b)) => same(a, b), (None, None) => true, _ => false } }
fn doc(f: &[(&str, String)]) -> Vec<u8> {
    let mut d = b"{".to_vec();
    for (i, (k, v)) in f.iter().enumerate() {
        if i > 0 { d.extend(b", ") }
        d.push(b'"');
        d.extend(k.bytes());
        d.extend(b"\":");
        d.extend(v.bytes())
    }
    d.push(b'}');
    d
}
fn escaped(s: &str) -> String { if s.starts_with("A ") { s.chars().flat_map(|c| match c { '"' => vec!['\\', '"'], '\\' => vec!['\\', '\\'], '\t' => vec!['\\', 't'], '\n' => vec!['\\', 'n'], c => vec![c] }).collect() } else { s.to_string() } }
fn quoted(s: &str) -> String { let mut q = String::from("\""); q.push_str(&escaped(s)); q.push('"'); q }
const SYNC: [(&str, SyncMode); 4] = [("serverclient", SyncMode::ServerAndClient), ("server", SyncMode::ServerOnly), ("client", SyncMode::ClientOnly), ("none", SyncMode::None)];
const TEXTS: [&str; 5] = ["author", "description", "game_build", "homepage", "url"];
/// what both schemas share, with the fields that are expected in the result; every subset of the optional fields
struct C { f: Vec<(&'static str, String)>, must: [String; 3], opt: [Option<String>; 5], sync: Option<usize> }
fn common() -> C {
    let mut f = vec![];
    // one of the texts is arbitrary
    let at = h::choice(8) as usize;
    let rest = h::choice(8) as u32;
    let kind = if rest == 7 { h::choice(5) } else { 0 };
    let get = |i: usize, d: &str| if i != at { d.to_string() } else { match kind { 0 => text(), 1 => String::new(), 2 => " \u{dc}ber \u{540d}\u{1f600} ".to_string(), 3 => "A \"quoted\" \\ and\ttabbed\nText/".to_string(), _ => "Some Longer TEXT, which is made of several parts and goes on for more than a hundred characters. ".repeat(3) } };
    let must = [get(0, "Some name"), get(1, "ModId"), get(2, "1.0.0")];
    let mut opt: [Option<String>; 5] = Default::default();
    // each optional field absent, null or present
    for i in 0..5 { opt[i] = if i + 3 == at || rest >> (i % 3) & 1 == 1 { Some(get(i + 3, "https://some.where/x")) } else { None } }
    let null = h::flag();
    let sync = if rest & 1 == 1 { Some(h::choice(4) as usize) } else { None };
    f.push(("name", quoted(&must[0])));
    if let Some(s) = sync { f.push(("sync", quoted(SYNC[s].0))) } else if null { f.push(("sync", "null".into())) }
    for i in 0..4 { match &opt[i] { Some(t) => f.push((TEXTS[i], quoted(t))), None => if null { f.push((TEXTS[i], "null".into())) } } }
    f.push(("mod_id", quoted(&must[1])));
    if let Some(u) = &opt[4] { let mut s = String::from("{\"type\":\"index_file\",\"url\":\""); s.push_str(&escaped(u)); s.push_str("\"}"); f.push(("download", s)) }
    f.push(("version", quoted(&must[2])));
    if h::flag() { f.push(("something_else", "[1,{}]".into())); f.reverse() }
    C { f, must, opt, sync }
}
fn is_common(m: &Metadata, c: &C) {
    h::check(m.schema_version == 2, 1);
    h::check(same(&m.name, &c.must[0]) & same(&m.mod_id, &c.must[1]) & same(&m.mod_version, &c.must[2]), 2);
    h::check(same_opt(&m.author, &c.opt[0]) & same_opt(&m.description, &c.opt[1]) & same_opt(&m.game_build, &c.opt[2]) & same_opt(&m.homepage, &c.opt[3]), 3);
    h::check(m.sync == c.sync.map(|s| SYNC[s].1), 4);
    match (&m.download, &c.opt[4]) { (Some(d), Some(u)) => h::check(same(&d.url, u) & (d.download_mode == DownloadMode::IndexFile), 5), (None, None) => {} _ => h::check(false, 5) }
}
/// writing gives a document that reads the same
fn again(m: &Metadata) {
    let d = h::must(serde_json::to_vec(m), 6);
    h::check(&h::must(from_slice(&d), 7) == m, 8)
}
const INTEGRATOR: [&str; 5] = ["persistent_actors", "mission_trailheads", "linked_actor_components", "item_list_entries", "biome_placement_modifiers"];
const VALUES: [&str; 6] = ["[\"/Game/A\",\"/Game/B\"]", "{\"a\":{\"b\":[1,250]},\"c\":null}", "true", "-7", "\"x\"", "[]"];
fn value(i: usize) -> Value { h::must(serde_json::from_str(VALUES[i]), 9) }
fn v1() {
    let mut c = common();
    match h::choice(3) { 0 => {} 1 => c.f.push(("schema_version", "1".into())), _ => c.f.insert(0, ("schema_version", "null".into())) }
    let m = h::must(from_slice(&doc(&c.f)), 10);
    is_common(&m, &c);
    h::check(m.dependencies.is_empty() && m.cpp_loader_dlls.is_empty() && m.integrator.is_empty(), 11);
    again(&m)
}
/// every subset of the integrator data moves over unchanged
fn v1_integrator() {
    let mut f = vec![("name", quoted("n")), ("mod_id", quoted("m")), ("version", quoted("v"))];
    let which = h::choice(32);
    let v = h::choice(6) as usize;
    for i in 0..5 { if which >> i & 1 == 1 { f.push((INTEGRATOR[i], VALUES[(v + i) % 6].to_string())) } }
    let t = text();
    let mut s = String::from("[\"");
    s.push_str(&t);
    s.push_str("\"]");
    if which & 1 == 0 { f.push((INTEGRATOR[0], s)) }
    let m = h::must(from_slice(&doc(&f)), 12);
    h::check(m.integrator.len() == which.count_ones() as usize + (which & 1 == 0) as usize, 13);
    for i in 0..5 { if which >> i & 1 == 1 { h::check(h::some(m.integrator.get(INTEGRATOR[i]), 14) == &value((v + i) % 6), 15) } }
    if which & 1 == 0 { match h::some(m.integrator.get(INTEGRATOR[0]), 16) { Value::Array(a) if a.len() == 1 => h::check(same(h::some(a[0].as_str(), 16), &t), 17), _ => h::check(false, 18) } }
    h::check(m.schema_version == 2 && m.dependencies.is_empty(), 19)
}
fn v2() {
    let mut c = common();
    c.f.push(("schema_version", "2".into()));
    let m = h::must(from_slice(&doc(&c.f)), 20);
    is_common(&m, &c);
    h::check(m.dependencies.is_empty() && m.cpp_loader_dlls.is_empty() && m.integrator.is_empty(), 21);
    again(&m)
}
const REQS: [&str; 5] = ["*", ">=1.2.3", "<=2.1.0, >1", "~1.2", "=1.0.0-beta.1"];
fn base2() -> Vec<(&'static str, String)> { vec![("schema_version", "2".into()), ("name", quoted("n")), ("mod_id", quoted("m")), ("version", quoted("v"))] }
fn v2_rest() {
    let mut f = base2();
    let n = h::choice(3) as usize;
    let r = h::choice(5) as usize;
    let long = h::flag();
    let url = text();
    let mut s = String::from("{");
    for i in 0..n {
        if i > 0 { s.push(',') }
        s.push_str(["\"A\":", "\"B\":"][i]);
        if i == 0 && long { s.push_str("{\"version\":\""); s.push_str(REQS[r]); s.push_str("\",\"download\":{\"url\":\""); s.push_str(&url); s.push_str("\",\"type\":\"index_file\"}}") } else { s.push_str(&quoted(REQS[(r + i) % 5])) }
    }
    s.push('}');
    if n > 0 { f.push(("dependencies", s)) }
    let k = h::choice(3) as usize;
    if k > 0 { let mut s = String::from("{\"one\":"); s.push_str(VALUES[r]); if k == 2 { s.push_str(",\"two\":"); s.push_str(VALUES[r + 1]) } s.push('}'); f.push(("integrator", s)) }
    let dll = text();
    let d = h::choice(3) as usize;
    if d > 0 { let mut s = String::from("[\""); s.push_str(&dll); s.push_str(["\"]", "\",\"b.dll\"]"][d - 1]); f.push(("cpp_loader_dlls", s)) }
    let m = h::must(from_slice(&doc(&f)), 22);
    h::check(m.dependencies.len() == n && m.integrator.len() == k && m.cpp_loader_dlls.len() == d, 23);
    for i in 0..n {
        let x = h::some(m.dependencies.get(["A", "B"][i]), 24);
        h::check(x.version == h::must(VersionReq::parse(REQS[(r + i) % 5]), 25), 26);
        match &x.download { Some(d) => h::check((i == 0 && long) && d.download_mode == DownloadMode::IndexFile && same(&d.url, &url), 27), None => h::check(i != 0 || !long, 28) }
    }
    for i in 0..k { h::check(h::some(m.integrator.get(["one", "two"][i]), 29) == &value(r + i), 30) }
    if d > 0 { h::check(same(&m.cpp_loader_dlls[0], &dll), 31) }
    if d > 1 { h::check(m.cpp_loader_dlls[1] == "b.dll", 32) }
    again(&m)
}
/// two-digit schema numbers and any single character
fn schema() {
    let mut f = base2();
    let (a, b) = (h::u8(), h::u8());
    let two = h::flag();
    h::assume((a < 0x80) & (b < 0x80) & (a != b' ') & (a != b'\t') & (a != b'\n') & (a != b'\r'));
    if two { h::assume(a.is_ascii_digit() & b.is_ascii_digit()) }
    let t = if two { String::from_utf8(vec![a, b]).unwrap() } else { String::from_utf8(vec![a]).unwrap() };
    f[0].1 = t;
    let r = from_slice(&doc(&f));
    h::check(r.is_ok() == (!two & ((a == b'1') | (a == b'2'))), 33);
    if let Ok(m) = r { h::check(m.schema_version == 2, 34) }
}
/// dependency requirements are valid or an error, never a crash
fn requirement(n: usize) {
    let s = h::ascii(n);
    for b in s.bytes() { h::assume((b >= 0x20) & (b != b'"') & (b != b'\\')) }
    let mut f = base2();
    let long = h::flag();
    let mut t = String::from(if long { "{\"A\":{\"version\":\"" } else { "{\"A\":\"" });
    t.push_str(&s);
    t.push_str(if long { "\"}}" } else { "\"}" });
    f.push(("dependencies", t));
    h::stub_format(true);
    let r = from_slice(&doc(&f));
    h::stub_format(false);
    match (VersionReq::parse(&s), r) { (Ok(v), Ok(m)) => { let d = h::some(m.dependencies.get("A"), 35); h::check(d.version == v && d.download.is_none(), 36) } (Err(_), Err(_)) => {} _ => h::check(false, 37) }
}
/// required fields must be there, every field must have its type
fn types() {
    let v2 = h::flag();
    let mut f = base2();
    f[0].1 = if v2 { "2" } else { "1" }.into();
    let names: &[&str] = if v2 { &["name", "mod_id", "version", "author", "description", "game_build", "homepage", "sync", "download", "dependencies", "integrator", "cpp_loader_dlls", "schema_version"] } else { &["name", "mod_id", "version", "author", "description", "game_build", "homepage", "sync", "download", "schema_version"] };
    let i = h::choice(names.len() as u64) as usize;
    let v = ["[1]", "{\"a\":1}", "17", "true", "\"zz\"", ""][h::choice(6) as usize];
    f.retain(|x| x.0 != names[i]);
    if !v.is_empty() { f.push((names[i], v.to_string())) }
    h::stub_format(true);
    let r = from_slice(&doc(&f));
    let missing = v.is_empty() && i >= 3 ;
    let text = v == "\"zz\"" && i < 7;
    let other = names[i] == "integrator" && v == "{\"a\":1}";
    h::check(r.is_ok() == (missing || text || other), 38)
}
/// no document of a few bytes is accepted, or crashes
fn short() {
    let n = h::choice(4) as usize;
    let mut b = [0u8; 3];
    h::fill(&mut b[..n]);
    // numbers with an exponent
    if n == 3 { h::assume((b[1] != b'e') & (b[1] != b'E')) }
    h::stub_format(true);
    h::check(from_slice(&b[..n]).is_err(), 39)
}
/// any character inside and after a document
fn broken() {
    let f = base2();
    let mut d = doc(&f);
    let at = h::choice(d.len() as u64 + 1) as usize;
    let c = h::u8();
    if at < d.len() { d[at] = c } else { d.push(c) }
    h::stub_format(true);
    if let Ok(m) = from_slice(&d) { h::check(m.schema_version == 2, 40) }
}
/// collects what is hashed
struct Rec(Vec<u8>);
impl Hasher for Rec { fn finish(&self) -> u64 { 0 } fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) } }
fn hash(m: &Metadata) -> Vec<u8> { let mut r = Rec(vec![]); m.hash(&mut r); r.0 }
/// equality and hashing depend on the content, not on the order it was given in
fn equality() {
    let (a, b) = (text(), text());
    let eq = same(&a, &b);
    let v = h::choice(6) as usize;
    let n = 1 + h::choice(4) as usize;
    let make = |t: &str, turn: usize| {
        let mut m = Metadata { schema_version: 2, name: "n".into(), ..Default::default() };
        for i in 0..n {
            let i = (i + turn) % n;
            let key = ["k", "key", "another key", "z"][i].to_string();
            if i == 0 { m.integrator.insert(key, Value::Array(vec![Value::String(t.to_string()), value(v)])); } else { m.integrator.insert(key, value((v + i) % 6)); }
            m.dependencies.insert(["d", "e", "f", "g"][i].to_string(), Dependency::new(h::must(VersionReq::parse(REQS[i]), 41), None));
        }
        m
    };
    let (x, y) = (make(&a, 0), make(&b, n - 1));
    h::check((x == y) == eq, 42);
    if eq { h::check(h::same(&hash(&x), &hash(&y)), 43) }
}
/// any field that differs makes a difference
fn differs() {
    let t = text();
    let mut m = Metadata { schema_version: 2, name: "ab".into(), mod_id: "ab".into(), author: Some("ab".into()), description: Some("ab".into()), mod_version: "ab".into(), game_build: Some("ab".into()), homepage: Some("ab".into()), cpp_loader_dlls: vec!["ab".into()], ..Default::default() };
    m.integrator.insert("k".into(), Value::String("ab".into()));
    let o = m.clone();
    let mut eq = t == "ab";
    match h::choice(14) {
        0 => m.name = t, 1 => m.mod_id = t, 2 => m.author = Some(t), 3 => m.description = Some(t), 4 => m.mod_version = t, 5 => m.game_build = Some(t), 6 => m.homepage = Some(t), 7 => m.cpp_loader_dlls[0] = t,
        8 => { m.integrator.insert("k".into(), Value::String(t)); }
        9 => { m.integrator.insert("l".into(), Value::Null); eq = false }
        10 => { m.sync = Some(SyncMode::ServerOnly); eq = false }
        11 => { m.dependencies.insert("x".into(), Dependency::new(h::must(VersionReq::parse("1"), 45), None)); eq = false }
        12 => { let n = h::u64() as usize; eq = n == 2; m.schema_version = n }
        _ => { m.integrator.clear(); m.integrator.insert("l".into(), Value::String("ab".into())); eq = false }
    }
    h::check((m == o) == eq, 46);
    if eq { h::check(h::same(&hash(&m), &hash(&o)), 47) }
}
h::cases! {
    case_v1 => v1, case_v1_integrator => v1_integrator, case_v2 => v2, case_v2_rest => v2_rest, case_schema => schema, case_requirement => || requirement(h::choice(4) as usize), deep_requirement => || requirement(4), case_types => types, case_short => short, case_broken => broken, case_equality => equality, case_differs => differs
}
