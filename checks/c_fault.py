"""Every failing point of the output path: is success claimed only for complete output?"""
import hashlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import check, run, features, corpus

MODES = {"enospc": 1, "once": 0, "short-enospc": 2, "eio": 3, "short": 5, "eintr": 6, "kill": 4}
OPTIONS = {
    "ASTER": [()],
    "SYSTUS": [(), ("--systus.OutputMatrix", "file"), ("--systus.OutputProduct", "topaze")],
    "NASTRAN": [(), ("--nastran.OutputDialect", "modern")],
}
def snap(r):
    """digest of every output file, without the date"""
    out = {}
    if any(n.endswith(".med") for n in os.listdir(r.dir)):
        run.drv().ask("D", r.dir)
    for root, dirs, files in os.walk(r.dir):
        for n in files:
            if n in ("stdout.log", "stderr.log", "in.dat") or n.endswith(".med"):
                continue
            t = r.read(os.path.relpath(os.path.join(root, n), r.dir))
            out[n] = hashlib.sha1("\n".join(l for l in t.splitlines() if "atetime" not in l).encode()).hexdigest()
    return out

def differ(a, b):
    return ["%s %s" % (n, "missing" if n not in b else "unexpected" if n not in a else "incomplete") for n in sorted(set(a) | set(b)) if a.get(n) != b.get(n)]

class Fault(check.Check):
    pid = "C14"
    level = "fault_enumeration"
    chunk = 1
    rule = ("for every deck, target and option: the fault-free run counts the operations on output files (open, write, pwrite, writev, close); then every operation fails in every way "
            "(no space from there on, no space once, short write then no space, I/O error, short write once, interrupted once, process killed), and is non-trivial when the run came to it (quick: all the ways on one deck, the essential ones on the others); after a kill the same command is run again in the same folder")
    assumptions = ["the operations of the C library's open, write, writev, pwrite, close and fclose on files of the output folder are all the ways of writing"]
    extra_cov = {}
    def decks(self):
        out = [("101 -", features.deck(101, ()).render())]
        for sol in (101, 103, 105, 106, 108, 111):
            for f in features.names(sol):
                if self.tier == "quick" and sol != 101:
                    continue
                out.append(("%d %s" % (sol, f), features.deck(sol, (f,)).render()))
        for sol in (103, 105, 106, 108, 111):
            out.append(("%d -" % sol, features.deck(sol, ()).render()))
        for j, (l, d) in enumerate(corpus.extra()):
            out.append(("deck %s#%d" % (l, j), d.render()))
        if self.tier != "quick":
            for j, (l, d) in enumerate(corpus.selected()):
                out.append(("corpus %s#%d" % (l, j), d.render()))
        return out
    def cases(self):
        out = []
        for i, (l, t) in enumerate(self.decks()):
            for tgt in OPTIONS:
                for j, o in enumerate(OPTIONS[tgt]):
                    ms = list(MODES)
                    if self.tier == "quick":
                        if j and i % 6:
                            continue
                        # full set on the first deck, the essential ones elsewhere
                        ms = ms if i == 0 else ["once", "kill"] if i % 8 == 0 else ["once"] if i % 2 else ["enospc"]
                    for m in ms:
                        out.append(("%s%s %s %s" % (tgt, "".join(" " + x for x in o), l, m), (t, tgt, o, [m])))
        return out
    def judge(self, p):
        t, tgt, o, modes = p
        env = {"fi.prefix": "{dir}/in"}
        ref = run.translate(t, tgt, o, env=env, dump=False)
        if not ref.ok:
            return [], 1, 0
        want, ops = snap(ref), ref.ops
        bad, runs, hits = [], 1, 0
        if ops < 3:
            bad.append("only %d operations on output files observed" % ops)
        for m in modes:
            for k in range(ops):
                e = dict(env, **{"fi.at": str(k), "fi.mode": str(MODES[m])})
                r = run.translate(t, tgt, o, env=e, dump=False)
                runs += 1
                hits += r.ops > k
                what = "%s at operation %d of %d" % (m, k, ops)
                if r.status[0] != "exit":
                    bad.append("%s: ended with %s" % (what, r.status)); continue
                if r.status[1] == 0:
                    d = differ(want, snap(r))
                    if d:
                        bad.append("%s: success is reported although %s" % (what, ", ".join(d)))
                if m == "kill":
                    if r.status[1] == 0:
                        bad.append("%s: success is reported" % what)
                    # the same command again repairs what the crash left
                    r2 = run.run({}, list(o) + ["in.dat", "NASTRAN", tgt], dump=False, keep=r.dir)
                    runs += 1
                    if not r2.ok:
                        bad.append("%s: the next run ended with %s" % (what, r2.status))
                    else:
                        d = differ(want, snap(r2))
                        if d:
                            bad.append("%s: after the next run %s" % (what, ", ".join(d)))
        return bad, runs, hits
    def describe(self, p):
        return "%s %s, faults %s\n%s" % (p[1], " ".join(p[2]), " ".join(p[3]), p[0])

if __name__ == "__main__":
    sys.exit(check.main(Fault))
