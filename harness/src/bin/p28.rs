//! P28: the mod manager's settings are the same after they were saved and loaded. mod_config and profile are the real code.
#![allow(dead_code, unused_imports, static_mut_refs)]
use harness as h;
use std::collections::{BTreeMap, HashMap};
use std::path::PathBuf;
use semver::Version;
#[path = "../memfs.rs"]
mod memfs;
use memfs::*;
#[path = "../../mm/game_mod.rs"]
mod game_mod;
#[path = "../../mm/version.rs"]
mod version;
#[path = "../../mm/profile.rs"]
mod profile;
#[path = "../../mm/mod_config.rs"]
mod mod_config;
use game_mod::{GameMod, GameModVersion, SelectedVersion};
use mod_config::{load_config, write_config};
use profile::{Profile, ProfileMod};
pub(crate) fn default_true() -> bool { true }
#[derive(Debug, Default)]
pub(crate) struct ModLoaderAppData {
    pub mods_path: Option<PathBuf>, pub game_mods: BTreeMap<String, GameMod>, pub refuse_mismatched_connections: bool, pub profiles: Vec<Profile>,
    pub install_managers: BTreeMap<&'static str, ()>, pub selected_game_platform: Option<String>, pub trusted_mods: Vec<Vec<u8>>,
}
impl ModLoaderAppData {
    pub fn set_game_platform(&mut self, platform: &str) -> Result<(), ()> {
        if !self.install_managers.contains_key(platform) { return Err(()) }
        self.selected_game_platform = Some(platform.to_string());
        write_config(self);
        Ok(())
    }
}
fn base() -> ModLoaderAppData {
    let f = fs();
    if f.dirs.is_empty() { for d in ["/w", "/w/mods"] { f.dirs.push(p(d)) } f.out = p("/w/mods") }
    let mut d = ModLoaderAppData { mods_path: Some(PathBuf::from("/w/mods")), refuse_mismatched_connections: true, ..Default::default() };
    d.install_managers.insert("Game", ());
    d.install_managers.insert("Steam", ());
    d.install_managers.insert("Store", ());
    for id in ["A", "B"] {
        let mut g = GameMod { enabled: true, selected_version: SelectedVersion::LatestIndirect(Some(Version::new(1, 0, 0))), ..Default::default() };
        g.versions.insert(Version::new(1, 0, 0), GameModVersion { mod_id: id.to_string(), file_name: "f".to_string(), downloaded: true, download_url: None, metadata: None });
        d.game_mods.insert(id.to_string(), g);
    }
    d
}
fn small() -> u64 { let c = h::u8(); h::assume(c < 8); c as u64 }
/// what was saved is loaded
fn settings() {
    let mut d = base();
    d.refuse_mismatched_connections = h::flag();
    d.selected_game_platform = [None, Some("Game"), Some("Steam"), Some("Store"), Some("Gone")][h::choice(5) as usize].map(|x| x.to_string());
    let part = h::choice(4);
    for (i, g) in d.game_mods.values_mut().enumerate() {
        if part != i as u64 { continue }
        g.enabled = h::flag();
        let v = Version::new(small(), small(), small());
        g.versions.insert(v.clone(), GameModVersion { mod_id: "x".to_string(), file_name: "f".to_string(), downloaded: true, download_url: None, metadata: None });
        g.selected_version = match h::choice(3) { 0 => SelectedVersion::Latest(v), 1 => SelectedVersion::LatestIndirect(Some(v)), _ => SelectedVersion::Specific(v) };
    }
    if part == 2 { let n = h::choice(3); for _ in 0..n { let k = h::choice(3) as usize; d.trusted_mods.push((0..k).map(|_| h::u8()).collect()) } }
    if part == 3 {
        for i in 0..h::choice(3) {
            let mut p = Profile { name: ["one", "a \"b\" \\"][i as usize].to_string(), mods: HashMap::new() };
            for m in 0..h::choice(3) { p.mods.insert(["A", "C"][m as usize].to_string(), ProfileMod { force_latest: h::flag(), priority: small() as u16, version: "1.0.0".to_string() }); }
            d.profiles.push(p);
        }
    }
    write_config(&d);
    let mut e = base();
    load_config(&mut e);
    h::check(e.refuse_mismatched_connections == d.refuse_mismatched_connections, 2);
    h::check(e.trusted_mods == d.trusted_mods, 3);
    match d.selected_game_platform.as_deref() { None => h::check(e.selected_game_platform.as_deref() == Some("Steam"), 4), Some("Gone") => (), x => h::check(e.selected_game_platform.as_deref() == x, 4) }
    h::check(e.game_mods.len() == 2, 5);
    for (id, g) in &d.game_mods {
        let o = &e.game_mods[id];
        h::check(o.enabled == g.enabled, 6);
        h::check(o.selected_version.is_latest() == g.selected_version.is_latest(), 7);
        if let SelectedVersion::Specific(_) = g.selected_version { h::check(o.selected_version == g.selected_version, 8) }
    }
    h::check(e.profiles.len() == d.profiles.len(), 9);
    for (a, b) in d.profiles.iter().zip(&e.profiles) {
        h::check(a.name == b.name && a.mods.len() == b.mods.len(), 10);
        for (id, m) in &a.mods { match b.mods.get(id) { Some(o) => h::check((o.force_latest == m.force_latest) & (o.priority == m.priority) & (o.version == m.version), 11), None => h::check(false, 11) } }
    }
}
const OLD: &str = "{\"selected_game_platform\":\"Store\",\"refuse_mismatched_connections\":false,\"current\":{\"mods\":{\"A\":{\"force_latest\":false,\"priority\":1,\"enabled\":false,\"version\":\"1.0.0\"}}},\"profiles\":{\"old\":{\"mods\":{\"A\":{\"enabled\":true,\"priority\":3,\"version\":\"1.0.0\"},\"B\":{\"enabled\":false,\"priority\":0,\"version\":\"1.0.0\"}}}}}";
fn put(b: &[u8]) { let mut x = p("/w/mods"); x.push(b"modconfig.json".to_vec()); fs().files.push((x, b.to_vec())) }
/// the older form of the file is understood
fn old() {
    let mut d = base();
    put(OLD.as_bytes());
    load_config(&mut d);
    h::check(!d.refuse_mismatched_connections && d.selected_game_platform.as_deref() == Some("Store") && d.trusted_mods.is_empty(), 2);
    let a = &d.game_mods["A"];
    h::check(!a.enabled && a.selected_version == SelectedVersion::Specific(Version::new(1, 0, 0)) && d.game_mods["B"].enabled, 3);
    h::check(d.profiles.len() == 1 && d.profiles[0].name == "old" && d.profiles[0].mods.len() == 1, 4);
    let m = &d.profiles[0].mods["A"];
    h::check(m.force_latest && m.priority == 3 && m.version == "1.0.0", 5);
}
/// any file in the place of the settings gives settings, whatever it contains
fn junk() {
    let mut d = base();
    h::stub_format(true);
    let mut t = OLD.as_bytes().to_vec();
    match h::choice(3) {
        0 => { t.truncate(h::choice(OLD.len() as u64) as usize) }
        1 => { let at = h::choice(60) as usize * 6; if at < t.len() { t[at] = b"\"{}[]0,\\\xff\0"[h::choice(10) as usize] } }
        _ => { let n = h::choice(3) as usize; t = (0..n).map(|_| h::u8()).collect() }
    }
    put(&t);
    load_config(&mut d);
    h::check(d.game_mods.len() == 2, 2);
    h::check(match d.selected_game_platform.as_deref() { Some(x) => d.install_managers.contains_key(x), None => true }, 3);
}
h::cases! { case_settings => settings, case_old => old, case_junk => junk }
