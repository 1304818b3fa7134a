#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from bugs.py, and verifies each planted bug:
patch applies, build and stable tests pass with it, demo passes without and fails with it,
and which checks catch it.  usage: make.py [--checks all|own] ID..."""
import json, os, re, shutil, subprocess, sys, importlib.util
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.join(HERE, "..", "..")
spec = importlib.util.spec_from_file_location("bugs", os.path.join(HERE, "bugs.py")); bugs = importlib.util.module_from_spec(spec); spec.loader.exec_module(bugs)
def sh(*a, **k): return subprocess.run(a, text=True, capture_output=True, **k)
BASE = sh("git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD").stdout.strip()
def build(b):
    i = b["id"]; d = os.path.join(V, "seeded", i); wt = f"/tmp/seedwt-{i}"
    sh("git", "-C", "/repo", "worktree", "remove", "--force", wt)
    r = sh("git", "-C", "/repo", "worktree", "add", "--detach", wt, "HEAD")
    assert r.returncode == 0, r.stderr
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(wt, f); s = open(p).read()
            n = b.get("count", 1)
            assert s.count(old) == n, (i, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh("git", "-C", wt, "diff").stdout
        base = {}
        for f, _, _ in b["edits"]: base[f] = sh("git", "-C", "/repo", "show", f"{BASE}:{f}").stdout.splitlines()
        mine = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---") and not any(l[1:] in x for x in base.values())]
    finally:
        sh("git", "-C", "/repo", "worktree", "remove", "--force", wt)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(f"{d}/patch.diff", "w").write(diff)
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(f"{d}/meta.json", "w"), indent=1)
    shutil.copytree(f"{V}/harness/stubs", f"{d}/stubs"); os.makedirs(f"{d}/shim")
    s = open(f"{V}/harness/shim/Cargo.toml").read()
    open(f"{d}/shim/Cargo.toml", "w").write(re.sub(r"\n\[\[test\]\]\nname = .*\npath = .*", "", s))
    for f in ('demo.toml', 'demo.lock'): shutil.copy(f"{HERE}/{f}", d)
    shutil.copy(f"{HERE}/common.rs", d); shutil.copy(f"{HERE}/demo.sh", d)
    open(f"{d}/demo.rs", "w").write("mod common;\n#[allow(unused_imports)]\nuse common::*;\nfn main() {\n" + b["demo"].strip("\n") + "\n}\n" + b.get("extra", ""))
    return mine
def main():
    ids = sys.argv[1:] or [b["id"] for b in bugs.BUGS]
    for b in bugs.BUGS:
        if b["id"] in ids:
            mine = build(b)
            print(b["id"], "built", ("TOUCHES FIXES: " + repr(mine)) if mine else "")
if __name__ == "__main__": main()
