#!/usr/bin/env python3
"""mkseed.py SPEC.py [ids...] : make and confirm planted bugs in a scratch copy of /repo (never in /repo itself).
SPEC.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo (rust source) or sh)]"""
import sys, os, subprocess, json, shutil, runpy
SW = "/tmp/sw/repo"
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
def scratch():
    if not os.path.exists(SW):
        os.makedirs("/tmp/sw", exist_ok=True); sh("cp -a /repo /tmp/sw/repo")
        for f in ("env.sh", "build.sh", "test.sh"):
            t = open("/opt/vp/" + f).read().replace("/repo", SW).replace("/opt/vp/env.sh", "/tmp/sw/env.sh").replace("/opt/vp/build.sh", "/tmp/sw/build.sh")
            open("/tmp/sw/" + f, "w").write(t)
    sh("cd %s && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git checkout -q -- ." % SW)
DEMO = '''#!/bin/bash
# run with cwd = the repository after its build; exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
export RUSTUP_TOOLCHAIN=1.86-x86_64-unknown-linux-gnu PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
d=$(mktemp -d) || exit 2; trap 'rm -rf "$d"' EXIT
rustc --edition 2021 -A warnings -L dependency="$repo/target/debug/deps" --extern mopaq="$repo/target/debug/libmopaq.rlib" %s -o "$d/demo" "$here/demo.rs" || exit 2
cd "$d" && timeout 120 ./demo
'''
def main():
    spec = runpy.run_path(sys.argv[1]); only = sys.argv[2:]
    scratch()
    base = json.load(open("/opt/vp/BASELINE.json")); stable = set(base.get("passed") or base.get("stable") or base.get("tests"))
    ok = sh("bash /tmp/sw/build.sh"); assert ok.returncode == 0, ok.stderr[-2000:]
    todo = [s for s in spec["SEEDS"] if not only or s["id"] in only]
    for s in todo:
        d = "/tmp/sw/seed/" + s["id"]; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + "/demo.sh", "w").write(s.get("sh") or DEMO % s.get("rustc", ""))
        if s.get("demo"): open(d + "/demo.rs", "w").write(s["demo"])
        s["d"] = d
        r = sh("bash %s/demo.sh" % d, cwd=SW)
        s["clean"] = r.returncode
        if r.returncode != 0: print(s["id"], "demo fails on the clean tree:", r.returncode, r.stdout[-800:], r.stderr[-1500:])
    for s in todo:
        if s["clean"] != 0: continue
        sh("git checkout -q -- .", cwd=SW); bad = False
        for f, old, new in s["edits"]:
            p = SW + "/" + f; t = open(p).read()
            if t.count(old) != 1: print(s["id"], "edit matches", t.count(old), "times:", old[:60]); bad = True; break
            open(p, "w").write(t.replace(old, new))
        if bad: continue
        patch = sh("git diff", cwd=SW).stdout
        b = sh("bash /tmp/sw/build.sh")
        if b.returncode: print(s["id"], "does not build", b.stderr[-1500:]); continue
        sh("bash /tmp/sw/test.sh /tmp/sw/t.json"); t = json.load(open("/tmp/sw/t.json"))
        failed = stable - set(t.get("passed", []))
        if failed: print(s["id"], "existing tests notice:", sorted(failed)[:4]); continue
        r = sh("bash %s/demo.sh" % s["d"], cwd=SW)
        if r.returncode == 0: print(s["id"], "demo passes with the bug"); continue
        out = "/verif/seeded/" + s["id"]; shutil.rmtree(out, ignore_errors=True); shutil.copytree(s["d"], out)
        open(out + "/patch.diff", "w").write(patch)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(out + "/meta.json", "w"), indent=1)
        print(s["id"], "KEPT:", (r.stderr + r.stdout).strip().split("\n")[-1][:150])
    sh("git checkout -q -- .", cwd=SW)
main()
