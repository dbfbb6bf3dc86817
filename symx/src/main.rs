mod dbg;
mod exec;
mod expr;
mod ir;
mod lin;
mod val;
mod z3;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;
use std::time::{Duration, Instant};
extern "C" { fn fork() -> i32; fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32; fn _exit(c: i32) -> !; fn kill(p: i32, s: i32) -> i32; }

fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } } o.push('"'); o }
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn list<T>(v: &[T], f: impl Fn(&T) -> String) -> String { format!("[{}]", v.iter().map(f).collect::<Vec<_>>().join(",")) }

fn coverage(m: &'static ir::Module) -> BTreeMap<String, BTreeSet<u32>> {
    let mut out: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
    let mut memo: HashMap<u32, ()> = HashMap::new();
    for f in &m.fns {
        let Some(b) = *f.body.borrow() else { continue };
        for blk in &b.blocks {
            if !blk.hit.get() { continue; }
            for &d in &blk.dbg {
                let mut cur = d;
                while cur != 0 && memo.insert(cur, ()).is_none() {
                    let Some((l, nm, file, next)) = dbg::locate(m, cur) else { break };
                    if file.contains("/repo/") { out.entry(format!("{} ({})", nm, file.split("/repo/").last().unwrap())).or_default().insert(l); }
                    cur = next;
                }
            }
        }
    }
    out
}

struct Opts { ll: String, cases: Vec<String>, out: String, time: f64, jobs: usize, split: usize, samples: usize, trace: bool, qtimeout: u32, prefix: Vec<u64> }

fn worker(m: &'static ir::Module, o: &Opts, case: &str, prefix: &[u64], path: &str, deadline: Instant) {
    let t0 = Instant::now();
    let mut e = exec::Engine::new(m, o.qtimeout);
    e.deadline = deadline; e.prefix = prefix.to_vec(); e.split_depth = o.split; e.max_samples = o.samples; e.trace = o.trace;
    if !e.start(case) { e.st.incomplete.push(format!("no such case {}", case)); }
    e.run();
    let mut s = String::new();
    if let Some(n) = e.split { let _ = write!(s, "{{\"split\":{}}}", n); std::fs::write(path, s).unwrap(); return; }
    let cov = coverage(m);
    // development aid: the lines of /repo that were executed
    if let Ok(d) = std::env::var("SYMX_COV") { let mut t = String::new(); for (f, l) in &cov { for n in l { let _ = writeln!(t, "{}:{}", f, n); } } let _ = std::fs::write(format!("{}/{}", d, std::process::id()), t); }
    let _ = write!(s, "{{\"case\":{},\"prefix\":{},\"paths\":{},\"ends\":{{{}}},\"steps\":{},\"forks\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"cache_hits\":{},\"model_hits\":{},\"checks\":{},\"wall_s\":{:.3},\"max_constraints\":{},\"max_vars\":{},",
        js(case), list(prefix, |x| x.to_string()), e.st.paths, e.st.ends.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","), e.st.steps, e.st.forks, e.z3.queries, e.z3.sat, e.z3.unsat, e.z3.unknown, e.z3.time, e.z3.max_time, e.st.cache_hits, e.st.model_hits, e.st.checks, t0.elapsed().as_secs_f64(), e.st.max_pc, 0);
    let _ = write!(s, "\"reach\":{{{}}},", e.st.reach.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    let _ = write!(s, "\"incomplete\":{},", list(&e.st.incomplete, |x| js(x)));
    let _ = write!(s, "\"violations\":{},", list(&e.viol, |v| format!("{{\"kind\":{},\"key\":{},\"input\":{},\"trace\":{},\"choices\":{}}}", js(&v.kind), js(&v.key), js(&hex(&v.input)), list(&v.trace, |t| js(t)), list(&v.choices, |t| t.to_string()))));
    let _ = write!(s, "\"samples\":{},", list(&e.samples, |v| format!("{{\"input\":{},\"end\":{},\"obs\":{}}}", js(&hex(&v.input)), js(&v.end), list(&v.obs, |t| format!("[{},\"{}\"]", t.0, t.1)))));
    let _ = write!(s, "\"functions\":{{{}}}}}", cov.iter().map(|(k, v)| format!("{}:{}", js(k), v.len())).collect::<Vec<_>>().join(","));
    std::fs::write(path, s).unwrap();
}

fn real_main() {
    let mut o = Opts { ll: String::new(), cases: vec![], out: "out".into(), time: 600.0, jobs: 8, split: 1, samples: 4, trace: false, qtimeout: 60000, prefix: vec![] };
    let mut a = std::env::args().skip(1);
    while let Some(x) = a.next() {
        match x.as_str() {
            "--case" => o.cases.extend(a.next().unwrap().split(',').map(|s| s.to_string())),
            "--out" => o.out = a.next().unwrap(), "--time" => o.time = a.next().unwrap().parse().unwrap(), "--jobs" => o.jobs = a.next().unwrap().parse().unwrap(),
            "--split" => o.split = a.next().unwrap().parse().unwrap(), "--samples" => o.samples = a.next().unwrap().parse().unwrap(), "--trace" => o.trace = true,
            "--qtimeout" => o.qtimeout = a.next().unwrap().parse().unwrap(),
            "--prefix" => o.prefix = a.next().unwrap().split(',').map(|x| x.parse().unwrap()).collect(),
            _ => o.ll = x,
        }
    }
    std::fs::create_dir_all(&o.out).unwrap();
    expr::init();
    let m = ir::Module::load(&o.ll);
    if o.cases.is_empty() { o.cases = m.fidx.keys().filter(|k| k.starts_with("case_")).map(|s| s.to_string()).collect(); o.cases.sort(); }
    let deadline = Instant::now() + Duration::from_secs_f64(o.time);
    if o.jobs == 0 { let c = o.cases[0].clone(); let p = o.prefix.clone(); worker(m, &o, &c, &p, &format!("{}/job0.json", o.out), deadline); println!("{}", std::fs::read_to_string(format!("{}/job0.json", o.out)).unwrap()); return; }
    let mut queue: Vec<(String, Vec<u64>)> = o.cases.iter().rev().map(|c| (c.clone(), o.prefix.clone())).collect();
    let mut running: HashMap<i32, (String, Vec<u64>, String)> = HashMap::new();
    let mut k = 0; let mut bad: Vec<String> = vec![]; let mut files: Vec<String> = vec![];
    while !queue.is_empty() || !running.is_empty() {
        while running.len() < o.jobs && !queue.is_empty() {
            let (c, p) = queue.pop().unwrap();
            let path = format!("{}/job{}.json", o.out, k); k += 1;
            let pid = unsafe { fork() };
            if pid == 0 {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| worker(m, &o, &c, &p, &path, deadline)));
                unsafe { _exit(if r.is_ok() { 0 } else { 3 }) }
            }
            running.insert(pid, (c, p, path));
        }
        let mut st = 0;
        let pid = unsafe { waitpid(-1, &mut st, 1) };
        if pid <= 0 {
            std::thread::sleep(Duration::from_millis(3));
            if Instant::now() > deadline + Duration::from_secs(90) { for (p, (c, pr, _)) in &running { unsafe { kill(*p, 9) }; bad.push(format!("{} {:?}: killed at time limit", c, pr)); } queue.clear(); running.clear(); }
            continue;
        }
        let Some((c, p, path)) = running.remove(&pid) else { continue };
        if st != 0 { bad.push(format!("{} {:?}: worker ended with status {}", c, p, st)); continue; }
        let t = std::fs::read_to_string(&path).unwrap_or_default();
        if let Some(r) = t.strip_prefix("{\"split\":") { let n: u64 = r.trim_end_matches('}').parse().unwrap(); for i in (0..n).rev() { let mut q = p.clone(); q.push(i); queue.push((c.clone(), q)); } let _ = std::fs::remove_file(&path); }
        else { files.push(path); }
    }
    let mut s = String::from("{\"jobs\":[");
    s.push_str(&files.iter().map(|f| std::fs::read_to_string(f).unwrap()).collect::<Vec<_>>().join(",\n"));
    let _ = write!(s, "],\n\"failed\":{}}}\n", list(&bad, |x| js(x)));
    std::fs::write(format!("{}/result.json", o.out), s).unwrap();
    for f in &files { let _ = std::fs::remove_file(f); }
}
fn main() { std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap().join().unwrap(); }
