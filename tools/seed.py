#!/usr/bin/env python3
"""Writes one planted bug: seed.py SPEC.py, where SPEC.py defines id, prop, needs, breaks, edits=[(file, old, new)] and demo (python text).
The demo runs in a scratch folder with helpers vega(deck, target, *options) -> (status, folder) and fail(text)."""
import json, os, subprocess, sys
HELP = '''import os, re, shutil, subprocess, sys, tempfile
SCRATCH = tempfile.mkdtemp(prefix="seed-demo-")
VEGA = os.path.join(os.getcwd(), "_build/bin/vegapp")
def vega(deck, target, *options, name="in.nas", timeout=60, env=None):
    """translates a deck; returns (exit status, output text by file name)"""
    d = tempfile.mkdtemp(dir=SCRATCH)
    with open(os.path.join(d, name), "w") as f:
        f.write(deck)
    o = os.path.join(d, "out")
    e = dict(os.environ); e.update(env or {})
    r = subprocess.run([VEGA, "-o", o, *options, os.path.join(d, name), "NASTRAN", target], cwd=d, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout, env=e)
    files = {}
    for n in (sorted(os.listdir(o)) if os.path.isdir(o) else []):
        p = os.path.join(o, n)
        if os.path.isfile(p):
            files[n] = open(p, encoding="latin-1").read()
    files["__log__"] = r.stdout.decode("latin-1")
    return r.returncode, files
def fail(text):
    print("DEMO FAILS: " + text)
    shutil.rmtree(SCRATCH, ignore_errors=True)
    sys.exit(1)
def finish():
    shutil.rmtree(SCRATCH, ignore_errors=True)
    print("demo passes")
def near(a, b, tol=1e-4):
    return abs(float(a) - b) <= tol * max(1.0, abs(b))
'''
REPO = os.environ.get("VP_REPO", "/repo")
def main(spec):
    g = {}
    exec(open(spec).read(), g)
    V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    d = os.path.join(V, "seeded", g["id"])
    os.makedirs(d, exist_ok=True)
    wt = "/tmp/seedwt"
    subprocess.run(["git", "-C", REPO, "worktree", "remove", "--force", wt], stderr=subprocess.DEVNULL)
    subprocess.run(["git", "-C", REPO, "worktree", "add", "-q", "--detach", wt, "HEAD"], check=True)
    try:
        for f, old, new in g["edits"]:
            p = os.path.join(wt, f)
            t = open(p, newline="", encoding="utf-8").read()
            if "\r\n" in t:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            assert t.count(old) == 1, (f, t.count(old), old)
            with open(p, "w", newline="", encoding="utf-8") as h:
                h.write(t.replace(old, new))
        diff = subprocess.check_output(["git", "-C", wt, "diff"])
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
    finally:
        subprocess.run(["git", "-C", REPO, "worktree", "remove", "--force", wt])
    open(os.path.join(d, "demo.py"), "w").write(HELP + "\n" + g["demo"].strip() + "\nfinish()\n")
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("written", d)
for s in sys.argv[1:]:
    main(s)
