#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds/*.seed.py (SEEDS: list of dicts with id, property, needs,
what_it_breaks, edits [(file, old, new)], demo (python text using helper.py)); verifies with --verify [ids]:
the change builds, passes the tests, and the demonstration tells the trees apart.  Works in a scratch copy
bind to /tmp/seedrepo; the demonstrations run there."""
import glob, json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(HERE, "..", "seeded")
SCR = "/tmp/seedrepo"

def load():
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, "seeds", "*.seed.py"))):
        ns = {}
        exec(compile(open(f).read(), f, "exec"), ns)
        out += ns["SEEDS"]
    ids = [s["id"] for s in out]
    assert len(ids) == len(set(ids)), "duplicate ids"
    return out

def sh(*a, **k):
    return subprocess.run(a, **k)

def scratch():
    if not os.path.exists(SCR):
        sh("git", "clone", "-q", "/repo", SCR, check=True)
        shutil.copy("/repo/Cargo.lock", SCR + "/Cargo.lock")
    sh("git", "-C", SCR, "fetch", "-q", "origin", check=True)
    sh("git", "-C", SCR, "checkout", "-q", "-f", "--detach", subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip(), check=True)

def write(s):
    d = os.path.join(OUT, s["id"])
    os.makedirs(d, exist_ok=True)
    sh("git", "-C", SCR, "checkout", "-q", "-f", "HEAD", "--", ".", check=True)
    for f, old, new in s["edits"]:
        p = os.path.join(SCR, f)
        t = open(p).read()
        if t.count(old) != 1:
            raise SystemExit(f"{s['id']}: {t.count(old)} matches in {f} for:\n{old}")
        open(p, "w").write(t.replace(old, new))
    fmt = sh("cargo", "fmt", "--all", cwd=SCR)
    diff = subprocess.check_output(["git", "-C", SCR, "diff"], text=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.py"), "w").write("from helper import *\n" + s["demo"].lstrip("\n"))
    shutil.copy(os.path.join(HERE, "seeds", "helper.py"), os.path.join(d, "helper.py"))
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec python3 "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({k: s[k] for k in ("property", "needs", "what_it_breaks")}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    sh("git", "-C", SCR, "checkout", "-q", "-f", "HEAD", "--", ".", check=True)

TESTENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never")
def demo(s):
    try:
        return sh("bash", os.path.join(OUT, s["id"], "demo.sh"), cwd=SCR, timeout=300, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    except subprocess.TimeoutExpired as e:
        class R: returncode = 124; stdout = b"timeout"
        return R
def verify(s):
    a = demo(s)
    if a.returncode != 0:
        return "demo fails on the unchanged tree: %s" % a.stdout.decode(errors="replace")[-600:]
    sh("git", "-C", SCR, "apply", os.path.abspath(os.path.join(OUT, s["id"], "patch.diff")), check=True)
    try:
        t = sh("cargo", "test", "--workspace", "--no-fail-fast", "--offline", cwd=SCR, env=TESTENV, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=700)
        if t.returncode != 0:
            o = t.stdout.decode(errors="replace")
            return "the tests fail: " + " ".join(l for l in o.splitlines() if "FAILED" in l or "error" in l)[:500]
        b = demo(s)
        if b.returncode == 0:
            return "demo passes with the change"
    finally:
        sh("git", "-C", SCR, "checkout", "-q", "-f", "HEAD", "--", ".", check=True)
    return "ok (%s)" % b.stdout.decode(errors="replace").strip().splitlines()[-1:]

if __name__ == "__main__":
    scratch()
    seeds = load()
    want = [a for a in sys.argv[1:] if not a.startswith("-")]
    for s in seeds:
        if want and s["id"] not in want:
            continue
        write(s)
        if "--verify" in sys.argv:
            print(s["id"], verify(s), flush=True)
