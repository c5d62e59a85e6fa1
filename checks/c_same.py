"""Is the output a function of the input?"""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import check, run, features, corpus
from checks import c_format

OPTIONS = {
    "ASTER": [()],
    "SYSTUS": [(), ("--systus.RBE2TranslationMode", "lagrangian"), ("--systus.OutputMatrix", "file"), ("--systus.OutputProduct", "topaze")],
    "NASTRAN": [(), ("--nastran.OutputDialect", "modern")],
}
LONG = "\n".join("nothing of this may be left %d" % i for i in range(2000)) + "\n"
# name: (settings of the driver, files before, arguments before, name of the input on the command line)
WORLDS = {
    "heap up": ({"heap": "asc"}, None, None, None), "heap down": ({"heap": "desc"}, None, None, None), "heap both": ({"heap": "alt"}, None, None, None),
    "memory 55": ({"perturb": "85"}, None, None, None), "memory aa": ({"perturb": "170"}, None, None, None), "memory ff": ({"perturb": "255"}, None, None, None),
    "memory 01 heap down": ({"perturb": "1", "heap": "desc"}, None, None, None), "memory 7f heap up": ({"perturb": "127", "heap": "asc"}, None, None, None),
    "environment": ({"env.LC_ALL": "C.utf8", "env.LANG": "fr_FR.UTF-8", "env.TZ": "Asia/Tokyo", "env.COLUMNS": "20", "env.POSIXLY_CORRECT": "1", "env.FILL": "x" * 4000}, None, None, None),
    "old files": ({}, "old", None, None), "read-only inputs": ({}, "ro", None, None),
    "./": ({}, None, None, "./in.dat"), "absolute": ({}, None, None, "{dir}/in.dat"), "sub/..": ({}, "sub", None, "sub/../in.dat"),
    "-o": ({}, None, ("-o", "{dir}/out"), None), "-o .": ({}, None, ("-o", "."), None), "-o a/b": ({}, None, ("-o", "a/b"), None),
    "quiet": ({}, None, ("--verbosity", "ERROR"), None), "loud": ({}, None, ("--verbosity", "DEBUG"), None),
}

def outputs(r, sub=""):
    out = {}
    for n in sorted(os.listdir(os.path.join(r.dir, sub))):
        if not n.startswith("in") or n == "in.dat" or n.endswith(".med"):
            continue
        t = r.read(os.path.join(sub, n))
        # the date, the name of the input as given, and the level of detail of the messages of the solver are meant to be there
        out[n] = "\n".join(re.sub(r"VERI_MAIL=_F\(VERIF='\w+',\),|INFO(_MED)?=\d,?", "", l) for l in t.splitlines() if "atetime" not in l and not l.startswith("Built by VEGA"))
    return out

class Same(check.Check):
    pid = "C16"
    rule = ("every feature alone in each kind of analysis and every deck of the corpus, in each target with each option, in every world (three orders of the addresses of memory, three contents of fresh memory and stack, "
            "environment, older files in the way, ways of naming the input and the output folder, verbosity), and after every other deck of a list in the same folder: the files are the same bytes")
    assumptions = ["the MED file is compared through its content (mesh, groups, families), not its bytes"]
    def decks(self):
        out = []
        for sol in (101, 103, 105, 106, 108, 111):
            out.append(("SOL %d -" % sol, features.deck(sol, ()).render()))
            if self.tier == "quick" and sol in (103, 105, 106):
                out.append(("SOL %d all" % sol, None))
                continue
            for f in features.names(sol):
                out.append(("SOL %d %s" % (sol, f), features.deck(sol, (f,)).render()))
        out = [x for x in out if x[1]]
        if self.tier != "quick":
            for sol in (101, 111):
                for fs in features.sets(sol, 2):
                    if len(fs) == 2:
                        out.append(("SOL %d %s" % (sol, " ".join(fs)), features.deck(sol, fs).render()))
        for j, (l, d) in enumerate(corpus.extra() + corpus.selected()):
            out.append(("deck %s#%d" % (l, j), d.render()))
        return out
    def cases(self):
        out = []
        for i, (l, t) in enumerate(self.decks()):
            for tgt in OPTIONS:
                for j, o in enumerate(OPTIONS[tgt]):
                    if j and self.tier == "quick" and i % 4:
                        continue
                    ws = list(WORLDS)
                    if self.tier == "quick":
                        # memory always; the rest in turn
                        ws = [w for k, w in enumerate(WORLDS) if w in ("heap up", "heap down", "memory 55", "memory aa") or (i + j + k) % 4 == 0]
                    self.space.product(ws)
                    out.append(("%s%s %s" % (tgt, "".join(" " + x for x in o), l), ("w", t, tgt, o, ws)))
        # histories of one folder
        seq = [(l, t) for l, t in self.decks() if l.startswith("SOL") and (self.tier != "quick" or l.endswith(" -") or l in ("SOL 101 bar", "SOL 101 spcd", "SOL 101 dmig", "SOL 111 bar"))]
        seq = seq[:40]
        for l, t in seq:
            for tgt in OPTIONS:
                self.space.product(seq)
                out.append(("%s %s after others" % (tgt, l), ("h", t, tgt, (), [b for m, b in seq if m != l])))
        return out
    def judge(self, p):
        kind, t, tgt, o, ws = p
        ref = run.translate(t, tgt, o)
        if not ref.ok:
            want = None
        else:
            want = outputs(ref)
            if not want:
                return ["no output"], 1
        st, bad, runs = ref.status, [], 1
        for w in ws:
            if kind == "h":
                a = run.translate(w, tgt, o, dump=False)
                with open(os.path.join(a.dir, "in.dat"), "w") as f:
                    f.write(t)
                r = run.run({}, list(o) + ["in.dat", "NASTRAN", tgt], keep=a.dir)
                got, name = outputs(r), "after another deck"
                got = {k: v for k, v in got.items() if want is None or k in want}   # the files of more subcases stay
                runs += 1
            else:
                env, before, args, inp = WORLDS[w]
                name = w
                files = {"in.dat": t}
                if before == "old" and want is not None:
                    files.update({n: LONG for n in want if n != "in.med.txt"})
                    if "in.med.txt" in want:
                        files["in.med"] = LONG
                if before == "sub":
                    files["sub/x"] = ""
                r = run.run(files, list(args or ()) + list(o) + [inp or "in.dat", "NASTRAN", tgt], env=env, dump=not (args and args[0] == "-o" and args[1] != "."))
                sub = {"{dir}/out": "out", "a/b": "a/b"}.get(args[1], "") if args and args[0] == "-o" else ""
                if sub and r.ok:
                    run.drv().ask("D", os.path.join(r.dir, sub))
                got = outputs(r, sub) if r.ok else None
            runs += 1
            if w == "loud" and st != ("exit", 0):
                continue    # what stops the program is then left to stop it
            if r.status != st:
                bad.append("%s: ended with %s, otherwise with %s" % (name, r.status, st)); continue
            if want is None or got is None:
                continue
            bad += ["%s: %s" % (name, d) for d in c_format.diff(want, got)]
        return bad, runs
    def describe(self, p):
        return "%s %s, %s\n%s" % (p[2], " ".join(p[3]), ", ".join(p[4]) if p[0] == "w" else "after each of %d decks" % len(p[4]), p[1])

if __name__ == "__main__":
    sys.exit(check.main(Same))
