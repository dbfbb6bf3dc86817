//! Debug-info lookups (DILocation -> function, file, line).
use crate::ir::Module;
fn fld<'a>(s: &'a str, k: &str) -> Option<&'a str> {
    let i = s.find(k)?; let r = &s[i + k.len()..];
    let r = r.trim_start();
    if let Some(q) = r.strip_prefix('"') { let e = q.find('"')?; return Some(&q[..e]); }
    let e = r.find([',', ')']).unwrap_or(r.len()); Some(&r[..e])
}
fn mid(s: &str) -> Option<u32> { s.strip_prefix('!')?.parse().ok() }
/// (line, function, file, inlinedAt)
pub fn locate(m: &Module, id: u32) -> Option<(u32, String, String, u32)> {
    let t = m.meta.get(&id)?;
    if !t.contains("!DILocation(") { return None; }
    let line = fld(t, "line:")?.parse().ok()?;
    let inl = fld(t, "inlinedAt:").and_then(mid).unwrap_or(0);
    let mut sc = fld(t, "scope:").and_then(mid)?;
    let mut file = None;
    for _ in 0..50 {
        let t = m.meta.get(&sc)?;
        if file.is_none() { file = fld(t, " file:").or_else(|| fld(t, "(file:")).and_then(mid); }
        if t.contains("!DISubprogram(") {
            let name = fld(t, "name:")?;
            let f = m.meta.get(&file?)?;
            let fname = fld(f, "filename:")?; let dir = fld(f, "directory:").unwrap_or("");
            let full = if fname.starts_with('/') || dir.is_empty() { fname.to_string() } else { format!("{}/{}", dir, fname) };
            return Some((line, name.to_string(), full, inl));
        }
        sc = fld(t, "scope:").and_then(mid)?;
    }
    None
}
