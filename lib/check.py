"""Harness of all checks: bounded state-space construction, parallel execution of the real program, evidence, replays."""
import hashlib, itertools, json, os, re, sys, time, traceback
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from lib import build, run

KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
REPLAY = os.path.join(build.BUILD, "replay")

def known_findings(pid):
    out = []
    try:
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) case=/(.*?)/ diff=/(.*?)/ (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), re.compile(m.group(3)), m.group(4)))
    except OSError:
        pass
    return out

# ------------------------------------------------------------------ bounded state spaces
class Space:
    """Explicit-state construction: states are canonical (sorted tuples of atoms); breadth first up to a depth."""
    def __init__(self):
        self.states, self.transitions = 0, 0
    def subsets(self, atoms, depth, ok=lambda s: True, start=()):
        """all sets of atoms reachable by adding one atom at a time through states accepted by ok"""
        seen = {start}
        layer = [start]
        out = [start]
        for _ in range(depth):
            nxt = []
            for s in layer:
                for a in atoms:
                    if a in s:
                        continue
                    t = tuple(sorted(s + (a,), key=lambda x: atoms.index(x)))
                    if not ok(t):
                        continue
                    self.transitions += 1
                    if t not in seen:
                        seen.add(t); nxt.append(t); out.append(t)
            layer = nxt
        self.states += len(out)
        return out
    def sequences(self, atoms, depth, ok=lambda s: True, start=()):
        """all sequences (order matters)"""
        out, layer = [start], [start]
        for _ in range(depth):
            nxt = []
            for s in layer:
                for a in atoms:
                    t = s + (a,)
                    if not ok(t):
                        continue
                    self.transitions += 1
                    nxt.append(t); out.append(t)
            layer = nxt
        self.states += len(out)
        return out
    def product(self, *dims):
        """all points of a finite product; a transition changes one coordinate"""
        pts = list(itertools.product(*dims))
        self.states += len(pts)
        self.transitions += sum(len(pts) // max(1, len(d)) * (len(d) * (len(d) - 1) // 2) for d in dims)
        return pts

class Check:
    pid = None
    level = "model_checking"
    assumptions = []
    rule = ""
    chunk = 8
    def __init__(self):
        self.space = Space()
        self.tier = "quick"
    def cases(self):
        """list of (label, payload); label identifies the case"""
        raise NotImplementedError
    def judge(self, payload):
        """runs the real code; returns (list of problems, number of implementation runs, observation hash)"""
        raise NotImplementedError
    def describe(self, payload):
        """human-readable content of a case for samples and replays"""
        return repr(payload)[:2000]

def _judge(chk, case):
    label, payload = case
    try:
        r = chk.judge(payload)
    except RuntimeError:
        raise
    except Exception as e:
        # the reference never fails on the unchanged tree: what cannot be interpreted is the output
        tb = traceback.extract_tb(e.__traceback__)
        r = (["output cannot be interpreted: %s: %s (%s)" % (type(e).__name__, e, " < ".join(
            "%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:])))], 1)
    if len(r) == 2:
        r = (r[0], r[1], None)
    return r

def main(chk_cls, argv=None):
    argv = argv if argv is not None else sys.argv[1:]
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="regular expression on case labels (debugging)")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--max", type=int, default=25)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--brief", action="store_true", help="one line per kind of problem (debugging)")
    o = ap.parse_args(argv)
    t0 = time.time()
    chk = chk_cls()
    chk.tier = o.tier if o.tier in ("quick", "thorough") else "quick"
    build.build()
    tb = time.time() - t0
    cases = chk.cases()
    if o.replay:
        lab = json.load(open(o.replay))["label"]
        cases = [c for c in cases if c[0] == lab] or [c for c in (chk_cls_thorough(chk_cls).cases()) if c[0] == lab]
    if o.only:
        cases = [c for c in cases if re.search(o.only, c[0])]
    if o.list:
        for c in cases[:200]:
            print(c[0])
        print(len(cases)); return 0
    labels = [c[0] for c in cases]
    assert len(set(labels)) == len(labels), "duplicate case labels: %s" % [l for l in set(labels) if labels.count(l) > 1][:3]
    try:
        results = run.explore(cases, lambda c: _judge(chk, c), chunk=chk.chunk)
    except RuntimeError as e:
        print("MACHINERY-ERROR %s" % e)
        return 4
    runs, bad, obs = 0, [], set()
    for (label, payload), (problems, n, h) in results:
        runs += n
        obs.add(h if h is not None else label)
        if problems:
            bad.append((label, payload, problems))
    known = known_findings(chk.pid)
    hit = {}
    viol = []
    for label, payload, problems in bad:
        rest = []
        for p in problems:
            for i, (cr, dr, what) in enumerate(known):
                if cr.search(label) and dr.search(p):
                    hit.setdefault(i, (label, p)); break
            else:
                rest.append(p)
        if rest:
            viol.append((label, payload, rest))
    if o.brief:
        kinds = {}
        for label, payload, problems in viol:
            for p in problems:
                k = re.sub(r"\d[\d.e+-]*", "#", re.sub(r"[a-z]+ \d+ \[.*", "", p))[:110]
                kinds.setdefault(k, []).append((label, p))
        for k, v in sorted(kinds.items(), key=lambda x: -len(x[1])):
            v.sort(key=lambda x: len(x[0]))
            print("%5d %s" % (len(v), k))
            for l, p in v[:3]:
                print("        %s :: %s" % (l, p[:260]))
    # a violation is believed only if it shows again, alone
    confirmed = []
    for label, payload, problems in viol:
        if len(confirmed) < o.max:
            again = _judge(chk, (label, payload))[0]
            again = [p for p in again if not any(cr.search(label) and dr.search(p) for cr, dr, _ in known)]
            if not again:
                again = [p for p in _judge(chk, (label, payload))[0] if not any(cr.search(label) and dr.search(p) for cr, dr, _ in known)]
            if again:
                confirmed.append((label, payload, again))
            else:
                print("note: case %s did not fail again when run alone: %s" % (label, problems[0][:200]))
    for i, (label, p) in sorted(hit.items()):
        print("KNOWN-FINDING: property=%s %s" % (chk.pid, known[i][2]))
        if o.v:
            print("   ", label, p)
    os.makedirs(REPLAY, exist_ok=True)
    for label, payload, problems in confirmed:
        path = os.path.join(REPLAY, "%s-%s.json" % (chk.pid, hashlib.sha1(label.encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            json.dump({"property": chk.pid, "label": label, "problems": problems, "case": chk.describe(payload)}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (chk.pid, path))
        print("   case %s" % label)
        for p in problems[:4 if not o.v else 40]:
            print("     %s" % p[:600])
    wall = time.time() - t0
    step = max(1, len(cases) // 3)
    samples = [{"case": c[0], "content": chk.describe(c[1])[:1500]} for c in cases[::step][:3]]
    cov = {"samples": samples, "exhaustive": True, "rule": chk.rule}
    if chk.level == "model_checking":
        cov.update(states=chk.space.states, transitions=chk.space.transitions, traces_validated_against_impl=runs)
        cov["distinct_observations"] = len(obs)
    else:
        cov.update(evaluations=runs, distinct_nontrivial=sum(h for _, (_, _, h) in results if isinstance(h, int)) or len(obs), states=chk.space.states, transitions=chk.space.transitions)
    cov.update(getattr(chk, "extra_cov", {}))
    ev = {"property": chk.pid, "tier": chk.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": chk.level,
          "coverage": cov, "assumptions": list(chk.assumptions), "wall_s": round(wall, 2), "violations": len(viol)}
    if not (o.only or o.replay):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", chk.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s: %d cases, %d runs of the real code, %d states, %d transitions, %d violations, %.1fs (build %.1fs)" % (
        chk.pid, chk.tier, len(cases), runs, chk.space.states, chk.space.transitions, len(viol), wall, tb))
    if viol and not confirmed:
        return 0
    return 1 if viol else 0

def chk_cls_thorough(cls):
    c = cls(); c.tier = "thorough"; return c
