"""Shared machinery of the checks: build the tools, run the verifier on text extracted from /repo, run the bounded stand-ins."""
import json, os, re, subprocess, sys, time, hashlib, fcntl, shutil, signal
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
TOOLCHAIN = "1.86-x86_64-unknown-linux-gnu"

def env(**kw):
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "")
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
    e.pop("RUSTFLAGS", None)
    e.update(kw)
    return e

def run(cmd, timeout, **kw):
    """run a command in its own process group; returns (rc, stdout, stderr); rc None on timeout"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True, **kw)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        o, e = p.communicate()
        return None, o, e

class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")
    def __enter__(self): fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): fcntl.flock(self.f, fcntl.LOCK_UN)

def extractor():
    """build the extractor if needed; returns path"""
    td = os.path.join(BUILD, "extract")
    with Lock("extract"):
        rc, o, e = run(["cargo", "build", "--release", "--offline", "-q", "--manifest-path", os.path.join(VERIF, "tools/extract/Cargo.toml")],
                       600, env=env(CARGO_TARGET_DIR=td, RUSTUP_TOOLCHAIN=TOOLCHAIN))
    if rc != 0:
        raise RuntimeError("extractor build failed: " + e[-2000:])
    return os.path.join(td, "release", "vp-extract")

HOOKS = ["compression", "signature", "archive", "builder"]

def flags_for(hooks): return (" ".join('--cfg vp_hooks="%s"' % h for h in hooks) + " -A warnings").strip()

def harness(ex=None):
    """build the native harness from /repo's working tree, dropping optional parts that no longer compile"""
    log = []
    def build(hooks, feats):
        td = os.path.join(BUILD, "harness-" + "".join(h[0] for h in hooks))
        rc, o, e = run(["cargo", "build", "--offline", "--locked", "-q", "--no-default-features", "--features", feats, "--manifest-path", os.path.join(VERIF, "harness/Cargo.toml")],
                       800, env=env(CARGO_TARGET_DIR=td, RUSTUP_TOOLCHAIN=TOOLCHAIN, RUSTFLAGS=flags_for(hooks)))
        if rc == 0: return os.path.join(td, "debug", "vp-harness")
        log.append("harness build with hooks [%s] features [%s] failed: %s" % (",".join(hooks), feats, e[-1200:]))
        return None
    with Lock("harness"):
        b = build(HOOKS, "ffi")
        if b: return b, ",".join(HOOKS) + ",ffi", log
        # which guarded wrappers still compile on this tree
        good = []
        for h in HOOKS:
            rc, o, e = run(["cargo", "check", "--offline", "-q", "-p", "mopaq", "--lib", "--manifest-path", os.path.join(REPO, "Cargo.toml")], 600,
                           env=env(CARGO_TARGET_DIR=os.path.join(BUILD, "hookcheck"), RUSTUP_TOOLCHAIN=TOOLCHAIN, RUSTFLAGS=flags_for([h])))
            if rc == 0: good.append(h)
        tried = {(tuple(HOOKS), "ffi")}
        for hooks, feats in ((good, "ffi"), (good, ""), ([], "ffi"), ([], "")):
            if (tuple(hooks), feats) in tried: continue
            tried.add((tuple(hooks), feats))
            b = build(hooks, feats)
            if b: return b, ",".join(hooks + ([feats] if feats else [])), log
    return None, None, log

def cli_binary():
    """build the command-line tool itself from /repo's working tree"""
    td = os.path.join(BUILD, "cli")
    with Lock("cli"):
        rc, o, e = run(["cargo", "build", "--offline", "-q", "-p", "storm-cli", "--manifest-path", os.path.join(REPO, "Cargo.toml")], 800,
                       env=env(CARGO_TARGET_DIR=td, RUSTUP_TOOLCHAIN=TOOLCHAIN, RUSTFLAGS="-A warnings"))
    b = os.path.join(td, "debug", "storm-cli")
    return (b, None) if rc == 0 and os.path.exists(b) else (None, e[-1200:])

# ---------------------------------------------------------------- Verus
def fn_at_line(text, line):
    """name of the function whose item contains this line of the generated unit"""
    name = None
    for i, l in enumerate(text.split("\n")[:line]):
        m = re.match(r"\s*(?:pub(?:\([a-z]+\))?\s+)?(?:open\s+|closed\s+|broadcast\s+)*(?:spec|proof|exec)?\s*(?:const\s+)?fn\s+(\w+)", l)
        if m: name = m.group(1)
    return name

def verus_unit(ex, unit, workdir, tier, timeout=400):
    """returns dict: status in proved / failed / undecided"""
    t0 = time.time()
    tmpl = os.path.join(VERIF, "verus", unit + ".rs")
    out = os.path.join(workdir, unit + ".rs"); rep = os.path.join(workdir, unit + ".rep")
    r = dict(unit=unit, status="undecided", obligations=0, discharged=0, functions=[], rules=[], failed=[], reason="", smt_ms=0, wall_s=0, trusted=[], all_failed=[])
    rc, o, e = run([ex, REPO, tmpl, out, rep], 120)
    if rc != 0:
        r["reason"] = "extraction: " + (o.strip() or e.strip())[-600:]
        return r
    for l in open(rep):
        l = l.strip()
        if l.startswith("item "): r["functions"].append(l[5:])
        elif l.startswith("rule "): r["rules"].append(l[5:])
    text = open(out).read()
    r["trusted"] = sorted(set(re.findall(r"assume_specification(?:<[^\[]*>)?\s*\[\s*([^\]]+?)\s*\]", text) +
                              [m[1] for m in re.findall(r"#\[verifier::external_body\]\s*(//[^\n]*\n\s*)?(?:pub )?(?:proof )?(?:fn|struct) (\w+)", text)]))
    base = ["verus", out, "--output-json", "--time-expanded", "--triggers-mode", "silent", "--no-report-long-running", "--num-threads", "4"]
    limit = 60 if tier == "thorough" else 30
    verdict(r, base + ["--rlimit", str(limit)], out, text, workdir, timeout, unit, t0)
    if r["failed"] and time.time() - t0 < 250:
        # obligations that were not discharged: once more with another solver seed and three times the effort, so that no verdict rests on one search of the solver
        again = dict(r, status="undecided", failed=[], all_failed=[], reason="", obligations=0, discharged=0)
        verdict(again, base + ["--rlimit", str(3 * limit), "--smt-option", "smt.random_seed=7"], out, text, workdir, 300, unit, t0)
        again["attempts"] = 2
        if again["status"] == "proved": return again
        if again["all_failed"]:
            both = {x["function"] for x in r["all_failed"]} & {x["function"] for x in again["all_failed"]}
            if not both:
                # every function was accepted in one of the two runs
                return dict(again, status="proved", failed=[], reason="", discharged=again["obligations"])
            hard = [x for x in r["all_failed"] + again["all_failed"] if x["function"] in both and not x.get("rlimit")]
            named = []
            for x in hard:
                if x not in named: named.append(x)
            if named: return dict(r, status="failed", failed=named, attempts=2)
            return dict(again, status="undecided", failed=[x for x in again["failed"] if x["function"] in both], reason="resource limit: " + ", ".join(sorted(map(str, both))))
    return r

def verdict(r, cmd, out, text, workdir, timeout, unit, t0):
    rc, o, e = run(cmd, timeout, cwd=workdir, env=env())
    r["wall_s"] = round(time.time() - t0, 2)
    r["cmd"] = "vp-extract %s verus/%s.rs OUT && %s" % (REPO, unit, " ".join(c if c != out else "OUT" for c in cmd))
    if rc is None:
        r["reason"] = "verifier timeout"; return r
    try:
        d = json.loads(o[o.index("{"):])
    except Exception:
        r["reason"] = "verifier gave no result: " + e[-1200:]; return r
    v = d.get("verification-results", {})
    r["obligations"] = v.get("verified", 0) + v.get("errors", 0); r["discharged"] = v.get("verified", 0)
    try: r["smt_ms"] = d["times-ms"]["smt"]["total"]
    except KeyError: pass
    if v.get("success") and v.get("errors") == 0 and v.get("verified", 0) > 0 and rc == 0:
        r["status"] = "proved"; return r
    if v.get("encountered-vir-error") or v.get("errors", 0) == 0:
        m = re.findall(r"^error(?:\[\w+\])?: .*(?:\n.*){0,6}", e, re.M)
        r["reason"] = "outside the verifier's subset: " + ("\n".join(m)[:1500] or e[-1500:]); return r
    errs = re.findall(r"^error: (.*)\n\s*--> ([^\n:]+):(\d+):\d+((?:\n(?!error|note: |warning).*)*)", e, re.M)
    real = []
    for msg, f, line, body in errs:
        if "aborting due to" in msg: continue
        name = fn_at_line(text, int(line))
        src = text.split("\n")[int(line) - 1].strip()
        marks = [x.strip() for x in re.findall(r"\|\s+(-{2,}[^\n]*)", body)]
        item = dict(function=name, obligation=msg, at=src[:300], detail="; ".join(marks)[:300])
        if "rlimit" in msg.lower() or "resource limit" in msg.lower(): item["rlimit"] = True
        real.append(item)
    r["failed"] = r["all_failed"] = real; r["stderr"] = e[-8000:]
    hard = [x for x in real if not x.get("rlimit")]
    if hard: r["status"] = "failed"; r["failed"] = hard
    else: r["reason"] = "resource limit: " + ", ".join(sorted({str(x["function"]) for x in real})) if real else "unclassified verifier output: " + e[-1200:]
    return r
