#!/usr/bin/env python3
"""mkseed.py ID PROP: takes /repo's uncommitted edits as the planted bug; stdin = JSON {needs, what, deps:[..], main: rust source}. Writes seeded/ID, then verifies."""
import json, os, subprocess, sys
i, p = sys.argv[1:3]
d = "/verif/seeded/" + i
j = json.load(sys.stdin) if not sys.argv[3:] else None
if j:
    os.makedirs(d + "/demo/src", exist_ok=True)
    diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    assert diff
    open(d + "/patch.diff", "w").write(diff)
    subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
    open(d + "/meta.json", "w").write(json.dumps({"property": p, "needs": j["needs"], "what_it_breaks": j["what"]}, indent=1) + "\n")
    P = {"unreal_helpers": 'unreal_helpers = { path = "/repo/unreal_helpers", features = ["bitvec", "guid", "path", "read_write"] }', "unreal_pak": 'unreal_pak = { path = "/repo/unreal_pak" }', "unreal_asset": 'unreal_asset = { path = "/repo/unreal_asset" }', "unreal_mod_metadata": 'unreal_mod_metadata = { path = "/repo/unreal_mod_metadata" }', "serde_json": 'serde_json = "1.0.104"', "byteorder": 'byteorder = "1.4.3"', "semver": 'semver = "1.0.18"'}
    for x in ["base", "properties", "kismet", "exports", "registry"]: P["unreal_asset_" + x] = 'unreal_asset_%s = { path = "/repo/unreal_asset/unreal_asset_%s" }' % (x, x)
    open(d + "/demo/Cargo.toml", "w").write('[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2021"\n\n[workspace]\n\n[dependencies]\n' + "\n".join(P.get(x, x) for x in j["deps"]) + "\n")
    open(d + "/demo/src/main.rs", "w").write(j["main"])
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# builds and runs the demonstration against /repo in a scratch directory\nD=$(cd "$(dirname "$0")" && pwd)\nT=$(mktemp -d) || exit 3\ntrap \'rm -rf "$T"\' EXIT\ncp -r "$D/demo/." "$T" && cd "$T" || exit 3\nCARGO_TARGET_DIR="$T/target" timeout 250 cargo run --offline -q\n')
    subprocess.run(["chmod", "+x", d + "/demo.sh"])
def run(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def demo(): r = run("bash %s/demo.sh" % d, cwd="/repo"); return r.returncode, (r.stdout + r.stderr)[-400:]
a = demo()
print("demo clean:", a if a[0] else 0)
try:
    r = run("git -C /repo apply %s/patch.diff" % d); assert r.returncode == 0, r.stderr
    b = run("bash /opt/vp/build.sh"); print("build", b.returncode)
    t = run("bash /opt/vp/test.sh /tmp/seedtest.json"); o = json.load(open("/tmp/seedtest.json")); base = json.load(open("/opt/vp/BASELINE.json"))
    s = json.dumps(base)
    bad = [x for x in (o.get("failed") or []) if '"%s"' % x in s]
    print("tests: passed", len(o.get("passed", [])), "failed", len(bad), bad[:3])
    a = demo(); print("demo patched:", a)
    c = run("python3 /verif/check.py %s" % p); print("check rc", c.returncode, [l[:300] for l in c.stdout.splitlines() if l.startswith(("VIOL", "INCOMP"))][:3])
finally:
    subprocess.run(["git", "-C", "/repo", "checkout", "--", "."])
