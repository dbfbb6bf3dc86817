//! P26: selection of mod versions by their dependencies. The graph library is a stand-in (harness/petgraph).
use harness as h;
use deps::{DependencyGraph, ModWithDependencies};
use error::ModLoaderWarning;
use semver::{Comparator, Op, Prerelease, Version, VersionReq};
use std::collections::HashMap;
use unreal_mod_metadata::{Dependency, DownloadInfo, DownloadMode};

mod deps { include!(concat!(env!("CARGO_MANIFEST_DIR"), "/mm/mod_processing/dependencies.rs")); }
/// records what is reported
mod error {
    pub struct ModLoaderWarning { pub mod_id: String, pub by: Vec<(String, String)> }
    impl ModLoaderWarning { pub fn unresolved_dependency(mod_id: String, by: Vec<(String, String)>) -> Self { ModLoaderWarning { mod_id, by } } }
}
const OPS: [Op; 7] = [Op::Exact, Op::Greater, Op::GreaterEq, Op::Less, Op::LessEq, Op::Tilde, Op::Caret];
fn num() -> u64 { (h::u8() & 7) as u64 }
/// requirements of one comparator with arbitrary numbers, some left out
fn any_req() -> VersionReq { let n = h::choice(3); VersionReq { comparators: vec![Comparator { op: OPS[h::choice(7) as usize], major: num(), minor: if n > 0 { Some(num()) } else { None }, patch: if n > 1 { Some(num()) } else { None }, pre: Prerelease::EMPTY }] } }
/// ranges and none at all
fn range_req() -> VersionReq { if h::flag() { return VersionReq::STAR } VersionReq { comparators: [Op::GreaterEq, Op::Less].into_iter().map(|op| Comparator { op, major: num(), minor: Some(num()), patch: Some(0), pre: Prerelease::EMPTY }).collect() } }
fn any_version() -> Version { Version::new(num(), num(), num()) }
fn req(s: &str) -> VersionReq { h::must(VersionReq::parse(s), 90) }
fn on(v: Vec<(&str, VersionReq)>) -> HashMap<String, Dependency> { v.into_iter().map(|(n, r)| (n.to_string(), Dependency::new(r, None))).collect() }
fn game_mod(id: &str, versions: Vec<Version>, deps: HashMap<String, Dependency>) -> ModWithDependencies { ModWithDependencies::new(id.to_string(), versions, deps) }
fn url(s: &str) -> DownloadInfo { DownloadInfo { download_mode: DownloadMode::IndexFile, url: s.to_string() } }
/// `x` is required by `reqs` and has `versions`: the one chosen satisfies all; a warning exactly when none does
fn judge(r: &(HashMap<String, Version>, Vec<ModLoaderWarning>), x: &str, versions: &[Version], reqs: &[VersionReq]) {
    let ok = |v: &Version| reqs.iter().fold(true, |a, q| a & q.matches(v));
    match r.0.get(x) {
        Some(v) => { h::check(versions.iter().any(|w| w == v), 1); h::check(ok(v), 2); h::check(!r.1.iter().any(|w| w.mod_id == x), 3) }
        None => { for v in versions { h::check(!ok(v), 4) } h::check(r.1.iter().filter(|w| w.mod_id == x).count() == 1, 5) }
    }
}
/// one mod with up to 2 versions required by up to 2 others, in any order of adding
fn choose(n_req: usize, make: fn() -> VersionReq) {
    let versions: Vec<_> = (0..1 + h::choice(2)).map(|_| any_version()).collect();
    let reqs: Vec<_> = (0..n_req).map(|_| make()).collect();
    let mut g = DependencyGraph::default();
    let mut mods = vec![game_mod("Lib", versions.clone(), HashMap::new())];
    for (i, r) in reqs.iter().enumerate() { mods.push(game_mod(["A", "B"][i], vec![Version::new(1, 0, 0)], on(vec![("Lib", r.clone())]))) }
    h::stub_format(true);
    g.add_mods(&mods);
    let r = g.validate_graph();
    judge(&r, "Lib", &versions, &reqs);
    for i in 0..n_req { judge(&r, ["A", "B"][i], &[Version::new(1, 0, 0)], &[]) }
    h::check(r.0.len() + r.1.len() == 1 + n_req, 6)
}
const SAMPLE: [&str; 8] = ["*", ">=1.2.0", "<2.0.0", "~1.2", "^1.1.0", "=1.3.0", ">1.2.5, <1.9.0", "1.*"];
const HAVE: [&str; 5] = ["1.0.0", "1.2.0", "1.2.7", "1.3.0", "2.1.0"];
fn version(i: usize) -> Version { h::must(Version::parse(HAVE[i]), 91) }
/// what `add_mods` asks for: the mods that are required, what all requirements together accept, and where to get it
fn asked() {
    let (a, b) = (h::choice(8) as usize, h::choice(8) as usize);
    let mut g = DependencyGraph::default();
    let two = h::flag();
    let same = h::flag();
    let mut d = on(vec![("Lib", req(SAMPLE[a])), ("Other", req("*"))]);
    let with = h::flag();
    if with { d.get_mut("Lib").unwrap().download = Some(url("u")) }
    let mut e = on(vec![("Lib", req(SAMPLE[b]))]);
    e.get_mut("Lib").unwrap().download = Some(url(if same { "u" } else { "v" }));
    let first = game_mod("A", vec![version(0)], d);
    let second = game_mod("B", vec![version(1)], e);
    let asked = if two { g.add_mods(&[first, second]) } else { g.add_mods(&[first]); g.add_mods(&[second]) };
    h::check(asked.len() == 1 + two as usize, 10);
    let (r, urls) = h::some(asked.get("Lib"), 11);
    for i in 0..5 { let v = version(i); h::check(r.matches(&v) == (req(SAMPLE[a]).matches(&v) && req(SAMPLE[b]).matches(&v)), 12) }
    let n = (with && !same) as usize + 1;
    h::check(urls.len() == n && urls.iter().any(|x| x.url == if same { "u" } else { "v" }), 13);
    if with { h::check(urls.iter().any(|x| x.url == "u"), 14) }
    if two { h::check(h::some(asked.get("Other"), 15).1.is_empty(), 15) }
}
/// graphs of up to 4 mods: chains, diamonds, cycles, self references, added in one or several rounds
fn shapes() {
    let ids = ["A", "B", "C", "D"];
    let edges: &[(usize, usize)] = [&[(0, 1), (1, 2), (2, 3)][..], &[(0, 1), (0, 2), (1, 3), (2, 3)], &[(0, 1), (1, 0), (2, 0)], &[(0, 0), (1, 0)], &[], &[(3, 0), (2, 0), (1, 0)]][h::choice(6) as usize];
    let q = h::choice(8) as usize;
    let pick: Vec<usize> = (0..4).map(|i| (q + i * 3) % 8).collect();
    let have: Vec<Vec<Version>> = { let s = h::choice(3) as usize; (0..4).map(|i| if s == 2 { (0..5).map(version).collect() } else { vec![version((i + s) % 5), version((i + 3 + s) % 5)] }).collect() };
    let mut mods: Vec<_> = (0..4).map(|i| game_mod(ids[i], have[i].clone(), on(edges.iter().enumerate().filter(|(_, e)| e.0 == i).map(|(k, e)| (ids[e.1], req(SAMPLE[pick[k]]))).collect()))).collect();
    let mut g = DependencyGraph::default();
    match h::choice(3) { 0 => { g.add_mods(&mods); } 1 => { mods.reverse(); g.add_mods(&mods); } _ => for m in mods.iter().rev() { g.add_mods(std::slice::from_ref(m)); } }
    let r = g.validate_graph();
    for i in 0..4 {
        let reqs: Vec<_> = edges.iter().enumerate().filter(|(_, e)| e.1 == i).map(|(k, _)| req(SAMPLE[pick[k]])).collect();
        judge(&r, ids[i], &have[i], &reqs);
        let mut want: Vec<_> = edges.iter().enumerate().filter(|(_, e)| e.1 == i).map(|(k, e)| (ids[e.0].to_string(), req(SAMPLE[pick[k]]).to_string())).collect();
        want.sort();
        // who needs a mod is told in the warning and on request
        if let Some(w) = r.1.iter().find(|w| w.mod_id == ids[i]) { let mut by = w.by.clone(); by.sort(); h::check(by == want, 20) }
        let mut d = g.find_mod_dependents(ids[i]);
        d.sort();
        h::check(d == want.iter().map(|x| x.0.clone()).collect::<Vec<_>>(), 21);
        let mut d = g.find_mod_dependents_with_version(ids[i]);
        d.sort();
        h::check(d == want, 22)
    }
    h::check(g.find_mod_dependents("X").is_empty() && g.find_mod_dependents_with_version("X").is_empty(), 23)
}
/// many mods that need the same one
fn many() {
    let n = [31, 32, 33, 40][h::choice(4) as usize];
    let v = Version::new(h::u64(), h::u64(), h::u64());
    let mods: Vec<_> = (0..n).map(|i: u64| game_mod(&i.to_string(), vec![Version::new(1, 0, 0)], on(vec![("Lib", VersionReq { comparators: vec![Comparator { op: Op::GreaterEq, major: i, minor: Some(2), patch: Some(3), pre: Prerelease::EMPTY }] })]))).collect();
    let mut g = DependencyGraph::default();
    g.add_mods(&[game_mod("Lib", vec![v.clone()], HashMap::new())]);
    let a = g.add_mods(&mods);
    h::check((h::some(a.get("Lib"), 30).0).matches(&v) == (v >= Version::new(n - 1, 2, 3)), 31);
    let r = g.validate_graph();
    h::check(r.0.contains_key("Lib") == (v >= Version::new(n - 1, 2, 3)), 32)
}
h::cases! { case_one => || choose(1, any_req), case_two => || choose(2, any_req), case_range => || choose(2, range_req), case_asked => asked, case_shapes => shapes, case_many => many }
