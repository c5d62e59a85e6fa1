#!/usr/bin/env python3
"""Maintains the 'fixed:' lines of KNOWN_FINDINGS.txt: one per fix commit of /repo; usage: fixed.py [commit=property ...]"""
import subprocess, sys, re, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = os.path.join(V, "KNOWN_FINDINGS.txt")
t = open(f).read()
m = {subprocess.check_output(["git", "-C", "/repo", "rev-parse", "--short", a.split("=")[0]], text=True).strip(): a.split("=")[1] for a in sys.argv[1:]}
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: ") or h in t: continue
    p = m.get(h)
    if not p: print("property of", l, "?"); continue
    t += "fixed: property=%s %s %s\n" % (p, h, s[5:])
open(f, "w").write(t)
