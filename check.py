#!/usr/bin/env python3
"""Runs one property's check: build harness from /repo, execute symbolically, replay, write evidence.
usage: check.py <property id> [--cases a,b] [--keep]   (VERIF_TIER=quick|thorough, VERIF_SEED)"""
import json, os, re, resource, shutil, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, ".build")
sys.path.insert(0, V)
from checks_data import CHECKS
TOOL = "stable-x86_64-unknown-linux-gnu"
T0 = time.time()

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def die(msg, out=""):
    print(out[-4000:])
    print("CHECK-ERROR:", msg)
    sys.exit(2)

def env():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = TOOL
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e

def build_engine():
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(B, "symx")
    r = sh(["cargo", "build", "--offline", "--release", "--quiet"], cwd=os.path.join(V, "symx"), env=e)
    if r.returncode: die("engine does not build", r.stdout)
    return os.path.join(B, "symx/release/symx")

def build_harness(binname, features):
    hd = os.path.join(B, "h")
    os.makedirs(hd, exist_ok=True)
    shim = os.path.join(hd, "shim.o")
    r = sh(["gcc", "-O1", "-c", os.path.join(V, "harness/shim.c"), "-o", shim])
    if r.returncode: die("shim", r.stdout)
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(hd, "t")
    dep = os.path.join(hd, "t/release/deps")
    if os.path.isdir(dep):
        for f in os.listdir(dep):
            if f.startswith(binname + "-") : os.unlink(os.path.join(dep, f))
    for f in (binname, binname + ".d"):
        p = os.path.join(hd, "t/release", f)
        if os.path.exists(p): os.unlink(p)
    cmd = ["cargo", "rustc", "--offline", "--release", "--quiet", "--bin", binname]
    if features: cmd += ["--features", ",".join(features)]
    cmd += ["--", "--emit=llvm-ir,link", "-Clink-arg=" + shim, "-Cno-vectorize-loops", "-Cno-vectorize-slp", "-Awarnings"]
    r = sh(cmd, cwd=os.path.join(V, "harness"), env=e)
    if r.returncode:
        # lockfile drift in a changed tree: retry letting cargo re-resolve offline
        die("harness does not build", r.stdout)
    ll = [f for f in os.listdir(dep) if f.startswith(binname + "-") and f.endswith(".ll")]
    if not ll: die("no IR emitted", r.stdout)
    return os.path.join(dep, ll[0]), os.path.join(hd, "t/release", binname)

def native(exe, case, inp, limit=None, timeout=60):
    def pre():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if limit: resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
    e = dict(os.environ); e["SYM_INPUT"] = inp; e["RUST_BACKTRACE"] = "0"
    try:
        r = subprocess.run([exe, case], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, preexec_fn=pre, timeout=timeout, cwd="/")
        return r.returncode, r.stdout.decode("utf8", "replace"), r.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        return "timeout", "", ""

def reproduces(v, rc, out):
    if v["kind"] == "check": return rc == 77 and ("SYM-CHECK-FAILED %s\n" % v["key"]) in out
    return rc == "timeout" or (isinstance(rc, int) and rc != 0 and rc not in (77, 97, 98, 99))

def main():
    pid = sys.argv[1]
    if pid == "--setup":
        build_engine()
        print("engine built")
        return
    only = None
    if "--cases" in sys.argv: only = sys.argv[sys.argv.index("--cases") + 1].split(",")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = CHECKS[pid]
    symx = build_engine()
    t1 = time.time()
    ll, exe = build_harness(c["bin"], c.get("features", []))
    t2 = time.time()
    src = open(os.path.join(V, "harness/src/bin", c["bin"] + ".rs")).read()
    for inc in re.findall(r'include!\("([^"]+)"\)', src): src += open(os.path.join(V, "harness/src/bin", inc)).read()
    names = re.findall(r'\b((?:case|deep|finding)_\w+)\s*=>', src)
    cases = [n for n in dict.fromkeys(names) if n.startswith("case_") or n.startswith("finding_") or (tier == "thorough" and n.startswith("deep_"))]
    if only: cases = only
    tlim = c.get("time", 500) if tier == "quick" else c.get("thorough_time", 6 * 3600)
    out = os.path.join(B, "out", pid)
    shutil.rmtree(out, ignore_errors=True)
    r = sh([symx, ll, "--case", ",".join(cases), "--out", out, "--time", str(tlim), "--jobs", str(os.cpu_count() or 8), "--split", str(c.get("split", 1)), "--samples", str(c.get("samples", 3)), "--qtimeout", str(c.get("qtimeout", 60000))])
    if r.returncode or not os.path.exists(out + "/result.json"): die("symbolic executor failed", r.stdout)
    res = json.load(open(out + "/result.json"))
    jobs = res["jobs"]
    rdir = os.path.join(V, "evidence", "replay", pid)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir, exist_ok=True)
    # --- violations
    known = {}
    for line in open(os.path.join(V, "known_findings.txt")):
        m = re.match(r"finding: property=(\S+) case=(\S+) (.*)", line.strip())
        if m and m.group(1) == pid: known[m.group(2)] = m.group(3)
    seen, confirmed, unconfirmed, findings = set(), [], {}, []
    n = 0
    for j in jobs:
        for v in j["violations"]:
            key = (j["case"], v["kind"], v["key"])
            if key in seen: continue
            n += 1
            f = os.path.join(rdir, "%s-%d.bin" % (j["case"], n))
            open(f, "wb").write(bytes.fromhex(v["input"]))
            limit = (1 << 30) if v["kind"] == "alloc" else None
            for _ in range(2):
                rc, o, er = native(exe, j["case"], f, limit)
                ok = reproduces(v, rc, o)
                if ok: break
            info = {"case": j["case"], "kind": v["kind"], "key": v["key"], "input": f, "choices": v["choices"], "trace": v["trace"][:12], "native_rc": rc, "native_stderr": er[-600:]}
            json.dump(info, open(f[:-4] + ".json", "w"), indent=1)
            if not ok: unconfirmed[key] = info; continue
            seen.add(key); unconfirmed.pop(key, None)
            if j["case"] in known: findings.append((j["case"], known[j["case"]]))
            else: confirmed.append(info)
    unconfirmed = list(unconfirmed.values())
    # --- native validation of path witnesses
    validated, mism, samples = 0, [], []
    pool = [(j["case"], s) for j in jobs for s in j["samples"]]
    step = max(1, len(pool) // c.get("validate", 60))
    for k, (case, s) in enumerate(pool[::step]):
        f = os.path.join(out, "s%d.bin" % k)
        open(f, "wb").write(bytes.fromhex(s["input"]))
        rc, o, er = native(exe, case, f)
        obs = re.findall(r"^OBS (\d+) (\d+)$", o, re.M)
        if rc == 0 and [list(x) for x in obs] == [[str(a), str(b)] for a, b in s["obs"]]:
            validated += 1
            if len(samples) < 6: samples.append({"case": case, "input_hex": s["input"][:400], "observations": s["obs"][:8]})
        else: mism.append({"case": case, "input": s["input"], "rc": rc, "native": obs[:20], "symbolic": s["obs"][:20], "stderr": er[-300:]})
    tot = lambda k: sum(j[k] for j in jobs)
    incomplete = sorted({"%s: %s" % (j["case"], i) for j in jobs for i in j["incomplete"]}) + res["failed"]
    percase = {}
    funcs = {}
    for j in jobs:
        p = percase.setdefault(j["case"], {"paths": 0, "completed": 0, "assertions": 0, "queries": 0, "solver_s": 0.0, "wall_s": 0.0})
        p["paths"] += j["paths"]; p["completed"] += j["ends"].get("done", 0); p["assertions"] += j["checks"]; p["queries"] += j["queries"]
        p["solver_s"] = round(p["solver_s"] + j["solver_s"], 2); p["wall_s"] = round(p["wall_s"] + j["wall_s"], 2)
        for k, x in j["functions"].items(): funcs[k] = max(funcs.get(k, 0), x)
    short = sorted({re.sub(r"<.*> \(", " (", k) for k in funcs})
    cov = {
        "states": tot("paths"), "transitions": tot("steps"), "traces_validated_against_impl": validated, "samples": samples or [{"note": "no completed path"}],
        "exhaustive": not incomplete and not unconfirmed,
        "meaning": "states = symbolic paths explored to their end, transitions = LLVM instructions executed symbolically, traces = solver-produced path inputs re-run on the native build with equal observations",
        "bounds": c["bounds"], "functions_encoded": short, "function_count": len(short),
        "queries": tot("queries"), "queries_sat": tot("sat"), "queries_unsat": tot("unsat"), "queries_unknown": tot("unknown"), "solver_s": round(tot("solver_s"), 2), "query_cache_hits": tot("cache_hits") + tot("model_hits"),
        "assertions_decided": tot("checks"), "cases": percase, "incomplete": incomplete, "unconfirmed": unconfirmed, "native_mismatches": mism[:5],
        "build_s": round(t2 - T0, 1), "ir_file_bytes": os.path.getsize(ll),
        "explanation": "symbolic execution of the LLVM IR rustc produced from /repo in this run; every branch and assertion decided by Z3 over all input bytes within the bounds",
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": c.get("assumptions", []) + COMMON, "wall_s": round(time.time() - T0, 1), "violations": len(confirmed)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    print("%s: %d paths, %d assertions, %d queries (%.1fs solver), %d natively validated, build %.0fs total %.0fs" % (pid, tot("paths"), tot("checks"), tot("queries"), tot("solver_s"), validated, t2 - T0, time.time() - T0))
    for k, p in percase.items(): print("   %-28s paths %-6d done %-6d queries %-6d %.1fs" % (k, p["paths"], p["completed"], p["queries"], p["wall_s"]))
    for i in incomplete: print("INCOMPLETE:", i[:400])
    for m in mism: print("NATIVE-MISMATCH:", json.dumps(m)[:600])
    for u in unconfirmed: print("UNCONFIRMED (model only, not reported):", u["case"], u["kind"], u["key"], u["trace"][:3], u["native_rc"])
    for cs, w in dict(findings).items(): print("KNOWN-FINDING: property=%s %s" % (pid, w))
    for v in confirmed:
        print("  %s %s %s  rc=%s" % (v["case"], v["kind"], v["key"], v["native_rc"]))
        for t in v["trace"][:8]: print("      ", t[:200])
        print("      ", v["native_stderr"].strip().replace("\n", " | ")[:300])
    for v in confirmed: print("VIOLATION property=%s replay=%s" % (pid, v["input"]))
    sys.exit(1 if confirmed else 0)

COMMON = ["Z3 4.8.12, rustc's lowering to LLVM IR and the symx executor are trusted; sampled path witnesses are cross-checked natively",
          "x86-64, overflow checks on, panic=abort; allocation of up to 1 GiB succeeds; hash-map seeds are fixed",
          "values outside the stated input sizes are not covered"]
if __name__ == "__main__": main()
