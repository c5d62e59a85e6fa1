"""Does the command do what its line and its configuration file say, and does its exit status tell the outcome?"""
import itertools, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import check, run, features
from checks import c_format

BAD_LINE, NO_INPUT, NO_OUTPUT_DIR, PARSING, CRASH = 4, 2, 3, 6, 8
NOT_FOUND, SYNTAX, KILLED, NOT_ZERO, NO_RESULT, TEST_FAILS = 100, 101, 102, 103, 104, 105
# options: name -> (short, valid values, invalid values); None: takes no value
OPTIONS = {
    "solver-command": (None, ["mysolver"], []),
    "solver-server": (None, ["localhost", "far.away"], []),
    "solver-version": (None, ["12.4", "2017"], []),
    "tolerance": ("x", ["0.5", "1e-3"], ["abc", "1,5"]),
    "verbosity": (None, ["ERROR", "warn", "INFO", "DEBUG", "Trace"], ["LOUD"]),
    "convertCompletelyRigidsIntoMPCs": (None, ["true", "false", "yes", "0"], ["maybe"]),
    "nastran.OutputDialect": (None, ["cosmic95", "modern"], ["Modern", "foo"]),
    "systus.DynamicMethod": (None, ["auto", "direct", "modal"], ["foo"]),
    "systus.RBE2TranslationMode": (None, ["penalty", "lagrangian"], ["foo"]),
    "systus.RBE2Rigidity": (None, ["5e6"], ["x"]),
    "systus.RBELagrangian": (None, ["50."], ["x"]),
    "systus.RBEStiffness": (None, ["1e5"], ["x"]),
    "systus.RBECoefficient": (None, ["20"], ["x"]),
    "systus.Subcase": (None, ["auto", "single", "1,2", "2"], ["a", "1;2", "-1", "1,,2"]),
    "systus.OptionAnalysis": (None, ["auto", "3D", "shell", "shell-multi"], ["SHELL"]),
    "systus.OutputProduct": (None, ["systus", "topaze"], ["Topaze"]),
    "systus.OutputMatrix": (None, ["table", "file"], ["both"]),
    "systus.SizeMatrix": (None, ["12", "2"], ["1", "0", "-3", "x", "1.5"]),
    "debug": ("d", [None], []), "listOptions": ("l", [None], []),
    "best-effort": ("b", [None], []), "mesh-at-least": ("m", [None], []), "strict": ("s", [None], []),
}
MODES = ("best-effort", "mesh-at-least", "strict")
LINE_ONLY = {"run-solver": "R", "output-dir": "o", "test-file": "t", "config": "c"}
DECKS = {
    "static": lambda: features.deck(101, ("rbe2", "rbe3", "dmig", "spc2", "bar", "title")).render(),
    "harmonic": lambda: features.deck(111, ("rbe2", "dmigm", "cdamp")).render(),
    "unknown": lambda: features.deck(101, ("bar",)).render().replace("ENDDATA", "FOOBAR,1,2\nENDDATA"),
}
INPUTS = {"quoted": "'in.dat'", "absolute": "{dir}/in.dat", "dotted": "./sub/../in.dat", "elsewhere": "sub/in.dat", "missing": "none.dat", "directory": "sub", "none": None}
OUTS = {".": ".", "new": "new", "deep": "new/a/b", "existing": "sub", "quoted": "'qu ot'", "spaces": "a b", "absolute": "{dir}/abs", "slash": "new/", "file": "file", "under a file": "file/x"}
INF = {"lower": "nastran", "padded": " Nastran ", "unsupported": "SYSTUS", "unknown": "FOO", "empty": ""}
OUTF = {"lower": str.lower, "padded": lambda t: " %s " % t.capitalize(), "unsupported": "OPTISTRUCT", "unknown": "FOO", "empty": ""}
TESTS = {"missing": "none.f06", "type": "ref.txt", "empty f06": "ref.f06"}
EXTRA = {"unknown option": ["--foo"], "unknown short": ["-Z"], "fourth": None, "no value": ["--systus.SizeMatrix="], "twice": ["--tolerance=1", "--tolerance=2"]}
CFG = {"unknown": "foo=1", "no equal": "strict", "missing file": None, "comments": "# nothing\n\n", "line only": "output-dir=zzz", "foreign section": "[foo]\nx=1"}
FORMS = {"=": None, "short": None, "after": None, "between": None}
CFORMS = {"plain": None, "section": None, "spaces": None, "home": None, "tilde": None, "short": None}

class Line:
    """a command line: set of atoms (dimension, value)"""
    def __init__(s, target, deck, atoms):
        s.target, s.deckname = target, deck
        s.a = {d: v for d, v in atoms if not d.startswith(("cmd:", "cfg:"))}
        s.cmd = {d[4:]: v for d, v in atoms if d.startswith("cmd:")}
        s.cfg = {d[4:]: v for d, v in atoms if d.startswith("cfg:")}
    # ---- what is run
    def args(s):
        form = s.a.get("form", " ")
        l = []
        def opt(name, short, v):
            if v is None:
                l.append(["-" + short] if form == "short" and short else ["--" + name])
            elif form == "short" and short:
                l.append(["-" + short, v])
            elif form == "=" or v.startswith("-"):
                l.append(["--%s=%s" % (name, v)])
            else:
                l.append(["--" + name, v])
        out = s.a.get("out", "o")
        if out != ".":
            opt("output-dir", "o", OUTS.get(out, out))
        for k, v in s.cmd.items():
            if isinstance(v, tuple):
                for x in v:
                    opt(k, OPTIONS[k][0], x)
            else:
                opt(k, OPTIONS[k][0], v)
        if "cmd:nolist" not in s.a and "listOptions" not in s.cmd and "listOptions" not in s.cfg:
            opt("listOptions", "l", None)
        if "test" in s.a:
            opt("test-file", "t", TESTS[s.a["test"]])
        if "ask" in s.a:
            opt(s.a["ask"], s.a["ask"][0], None)
        if s.config_file() is not None and s.cform() not in ("home",):
            opt("config", "c", s.config_name())
        x = s.a.get("extra")
        if x and x != "fourth":
            l.append(list(EXTRA[x]))
        pos = []
        i = s.a.get("in")
        if i != "none":
            pos.append(INPUTS[i] if i else "in.dat")
            if s.a.get("by") != "config formats":
                f = s.a.get("inf")
                pos.append(INF[f] if f else "NASTRAN")
                f = s.a.get("outf")
                pos.append(s.outf())
            if x == "fourth":
                pos.append("more")
        if form == "after":
            return pos + sum(l, [])
        if form == "between":
            r = list(pos[:1])
            for k, o in enumerate(l):
                r += o + pos[k + 1:k + 2]
            return r + pos[len(l) + 1:]
        return sum(l, []) + pos
    def outf(s):
        f = s.a.get("outf")
        return s.target if f is None else OUTF[f](s.target) if callable(OUTF[f]) else OUTF[f]
    def cform(s):
        return s.a.get("cform", "plain")
    def config_name(s):
        return {"plain": "v.cfg", "tilde": "~/v.cfg"}.get(s.cform(), "v.cfg") if s.a.get("cfg") != "missing file" else "none.cfg"
    def config_file(s):
        """text of the configuration file, None when there is none"""
        ls = []
        for k, v in s.cfg.items():
            for x in v if isinstance(v, tuple) else (v,):
                x = "" if x is None else x
                if s.cform() == "section" and "." in k:
                    ls.append("[%s]\n%s=%s" % (*k.split("."), x))
                elif s.cform() == "spaces":
                    ls.append("# comment\n\n   %s  =  %s   # comment" % (k, x))
                else:
                    ls.append("%s=%s" % (k, x))
        if s.a.get("by") == "config formats":
            ls = ["input-format=NASTRAN", "output-format=" + s.outf()] + ls
        ls.sort(key=lambda x: x.startswith("["))
        if s.a.get("cfg"):
            ls = [CFG[s.a["cfg"]] or ""] + ls if not (CFG[s.a["cfg"]] or "").startswith("[") else ls + [CFG[s.a["cfg"]]]
        if not ls and "cform" not in s.a:
            return None
        return "\n".join(ls) + "\n"
    def files(s):
        d = DECKS[s.deckname]()
        f = {"in.dat": d, "sub/in.dat": d, "file": "x", "ref.txt": "x", "ref.f06": "1\n"}
        c = s.config_file()
        if c is not None and s.a.get("cfg") != "missing file":
            f["vegamain.cfg" if s.cform() == "home" else "v.cfg"] = c
        return f
    # ---- what is expected
    def eff(s):
        e = dict(s.cfg); e.update(s.cmd)
        return e
    def errors(s):
        """exit codes of what is wrong, in no order; the help and version text come before most of them"""
        e, early = set(), set()
        def valid(k, v, where):
            for x in v if isinstance(v, tuple) else (v,):
                if x in OPTIONS[k][2]:
                    typed = k in ("tolerance", "convertCompletelyRigidsIntoMPCs", "systus.SizeMatrix", "systus.RBE2Rigidity", "systus.RBELagrangian", "systus.RBEStiffness", "systus.RBECoefficient") and not re.fullmatch(r"-?\d+", x)
                    (early if typed and where == "cmd" else e).add(BAD_LINE)
        for k, v in s.cfg.items():
            if k not in s.cmd or OPTIONS[k][1] == [None]:
                valid(k, v, "cfg")
        for k, v in s.cmd.items():
            valid(k, v, "cmd")
        if s.a.get("extra") in ("unknown option", "unknown short", "twice", "no value") or (s.a.get("extra") == "fourth" and s.a.get("in") != "none"):
            early.add(BAD_LINE)
        if s.a.get("cfg") in ("unknown", "no equal", "line only", "foreign section"):
            e.add(BAD_LINE)
        i = s.a.get("in")
        if i in ("none", "missing", "directory"):
            e.add(NO_INPUT)
        t = s.a.get("test")
        if t:
            e |= {"missing": {NO_INPUT}, "type": {BAD_LINE}}.get(t, set())
        if s.a.get("out") in ("file", "under a file"):
            e.add(NO_OUTPUT_DIR)
        if i != "none":
            if s.a.get("inf") in ("unsupported", "unknown", "empty"):
                e.add(BAD_LINE)
            if s.a.get("outf") in ("unsupported", "unknown", "empty"):
                e.add(BAD_LINE)
        m = [k for k in MODES if k in s.eff()]
        if len(m) > 1:
            e.add(BAD_LINE)
        if s.deckname == "unknown" and "strict" in m:
            e.add(PARSING)
        return e, early
    def loud(s):
        v = (s.eff().get("verbosity") or "").upper()
        return "debug" in s.eff() or v in ("DEBUG", "TRACE")
    def canonical(s):
        """the options in effect"""
        e = {k: v for k, v in s.eff().items() if k not in ("listOptions", "debug", "verbosity")}
        for k in MODES[:1]:
            e.pop(k, None)
        return tuple(sorted(e.items(), key=str))
    def listed(s):
        """what listOptions shows"""
        e = s.eff()
        v = (e.get("verbosity") or "INFO").upper()
        lv = ["ERROR", "WARN", "INFO", "DEBUG", "TRACE"].index(v)
        if "debug" in e:
            lv = max(lv, 3)
        mode = e.get("systus.RBE2TranslationMode", "penalty")
        st, co = None, None
        if "systus.RBELagrangian" in e:
            st, co = 1., float(e["systus.RBELagrangian"])
        if "systus.RBE2Rigidity" in e and mode == "penalty":
            st, co = float(e["systus.RBE2Rigidity"]), 1.
        if "systus.RBEStiffness" in e:
            st = float(e["systus.RBEStiffness"])
        if co is None:
            co = 10. if mode == "penalty" else 1000.
        if "systus.RBECoefficient" in e:
            co = float(e["systus.RBECoefficient"])
        mat = e.get("systus.OutputMatrix", "table")
        l = {"Output directory": OUTS.get(s.a.get("out", "o"), "o").strip("'"), "Verbosity": str(lv), "Nastran Output Dialect": e.get("nastran.OutputDialect", "cosmic95"),
             "Systus RBE2 Translation Mode": mode, "Systus RBE Stiffness": "auto" if st is None else "%f" % st, "Systus RBE Coefficient": "%g" % co,
             "Systus OPTION analysis": e.get("systus.OptionAnalysis", "auto"), "Systus Dynamic method": e.get("systus.DynamicMethod", "auto"), "Systus Output product": e.get("systus.OutputProduct", "systus"),
             "Systus Output Matrix": mat, "Systus Size Matrix": e.get("systus.SizeMatrix", "9" if mat == "table" else "20"),
             "Systus Version": e.get("solver-version", "2016" if s.target == "SYSTUS" else "")}
        sub = e.get("systus.Subcase", ())
        sub = (sub,) if isinstance(sub, str) else sub
        if sub and "auto" not in sub:
            for i, x in enumerate(["-1"] if "single" in sub else [x.replace(",", " ") for x in sub]):
                l["Systus Subcase %d" % (i + 1)] = x
        c = e.get("convertCompletelyRigidsIntoMPCs")
        if c in ("true", "yes") or c is None and s.target == "ASTER":
            l["convertCompletelyRigidsIntoMPCs"] = "1"
        return l

def tree(d):
    return {os.path.relpath(os.path.join(r, f), d) for r, _, fs in os.walk(d) for f in fs}

TRANSLATED = re.compile(r"\.(comm|med|export|DAT|ASC|med\.txt)$|_vg\.nas$")
def clean(r, out, given):
    """outputs of the translator in its output folder, by name"""
    d = os.path.join(r.dir, out)
    res = {}
    if any(f.endswith(".med") for f in tree(d)):
        run.drv().ask("D", d)
    for p in tree(d):
        if TRANSLATED.search(p) and "/" not in p and not p.endswith(".med"):
            t = open(os.path.join(d, p), errors="replace").read()
            t = "\n".join(l for l in t.splitlines() if not re.match(r"\s*#|\$", l) and "origine" not in l and "Built by VEGA" not in l and not l.startswith("MAIL=LIRE_MAILLAGE"))
            res[p] = t
    return res

_ref = {}
def reference(target, deck, opts):
    k = (target, deck, opts)
    if k not in _ref:
        args = ["--output-dir=o"]
        for n, v in opts:
            for x in v if isinstance(v, tuple) else (v,):
                args.append("--" + n if x is None else "--%s=%s" % (n, x))
        r = run.run({"in.dat": DECKS[deck]()}, args + ["in.dat", "NASTRAN", target])
        _ref[k] = (r.status, clean(r, "o", ()))
    return _ref[k]

# ---------------------------------------------------------------- solvers
STUB = "#!/bin/sh\necho \"$PWD|$0|$*\" >> \"$STUB_LOG\"\n. \"$STUB_PLAN\"\n"
ENDS = [("exit", n) for n in (0, 1, 3, 4, 126, 127, 137, 139, 255)] + [("signal", n) for n in (6, 9, 11, 15)]
def end_code(e, target):
    k, n = e
    if k == "signal":
        return KILLED
    if n == 0:
        return 0
    if n == 127:
        return NOT_FOUND
    if 128 < n <= 165:
        return KILLED
    return SYNTAX if n == 4 and target == "ASTER" else NOT_ZERO
RESU = {"none": None, "good": "OK  1\nfine\n", "first": "NOOK 1\nOK 2\n", "last": "OK 1\n OK 2\n  NOOK 3", "empty": ""}
TABLES = {"none": (), "TIT": ("TIT",), "fdb": ("fdb",), "both": ("TIT", "fdb")}
SAYS = {"nothing": "", "error": "line\n *** ERROR 3\n", "no error": "NO ERROR\n", "then": "NO ERROR\nERROR\nNO ERROR\n"}
PLACES = [("o", "in.dat"), (".", "in.dat"), ("a b", "in.dat"), ("o", "i n.dat"), ("o", "a.b.dat"), ("o", "x_ALL_y.dat"), ("o'p", "q'r.dat"), ("{dir}/o", "in.dat")]

class Cli(check.Check):
    pid = "C18"
    rule = "every command line reached by at most the stated number of departures from the plain one (each option with each value on the line or in the configuration file, ways of writing them, inputs, folders, formats, mistakes), and every end of a solver with every result it may leave"
    def atoms(self):
        """[(atom, primary)]"""
        out = []
        for d, vs in (("in", INPUTS), ("out", OUTS), ("inf", INF), ("outf", OUTF), ("test", TESTS), ("extra", EXTRA), ("cfg", CFG), ("form", FORMS), ("cform", CFORMS), ("ask", {"help": 0, "version": 0}), ("by", {"config formats": 0})):
            for v in vs:
                if (d, v) not in (("cform", "plain"),):
                    out.append(((d, v), True))
        for o, (_, good, bad) in OPTIONS.items():
            vals = list(good) + list(bad)
            if o == "systus.Subcase":
                vals += [("1", "2"), ("2", "auto"), ("1", "single")]
            for w in ("cmd", "cfg"):
                for v in vals:
                    out.append(((w + ":" + o, v), v == good[-1] or v in bad[:1]))
        return out
    def ok(self, s):
        ds = [d for d, v in s]
        if len(set(ds)) < len(ds):
            return False
        a = dict(s)
        eff = {d[4:] for d in ds if d[:4] in ("cmd:", "cfg:")}
        # which of two deprecated options wins is not stated; a mode of the file against one of the line neither
        if {"systus.RBE2Rigidity", "systus.RBELagrangian"} <= eff:
            return False
        if any(d[4:] in MODES for d in ds if d.startswith("cfg:")) and len(eff & set(MODES)) > 1:
            return False
        if a.get("cform") and not any(d.startswith("cfg:") or d in ("cfg", "by") for d in ds) and len(s) > 1:
            return False
        if a.get("by") and (a.get("inf") or a.get("in") == "none" or a.get("extra") == "fourth" or a.get("cfg") == "missing file"):
            return False
        if a.get("cfg") == "missing file" and (a.get("cform") or any(d.startswith("cfg:") for d in ds)):
            return False
        if a.get("cfg") and any(d.startswith("cfg:") for d in ds) and a["cfg"] == "foreign section" and a.get("cform"):
            return False
        if a.get("extra") == "twice" and ("cmd:tolerance" in ds):
            return False
        if a.get("extra") == "no value" and "cmd:systus.SizeMatrix" in ds:
            return False
        return True
    def cases(self):
        quick = self.tier == "quick"
        A = self.atoms()
        names = [a for a, p in A]
        prim = {a for a, p in A if p}
        out = []
        def relevant(s, t):
            for d, v in s:
                if d[:4] in ("cmd:", "cfg:") and "." in d and d[4:].split(".")[0].upper() != t:
                    return False
            return True
        for t in ("ASTER", "SYSTUS", "NASTRAN"):
            for deck in DECKS:
                depth = 2 if deck == "static" or not quick else 1
                def ok(s):
                    if not self.ok(s):
                        return False
                    if len(s) > 1 and quick:
                        if not relevant(s, t):
                            return False
                        same = len({d.split(":")[-1] for d, v in s}) == 1
                        if not same and not all(a in prim for a in s):
                            return False
                        if t != "SYSTUS" and not same and all(d[:4] in ("cmd:", "cfg:") for d, v in s) and not {d[4:] for d, v in s} & set(MODES):
                            return False
                    return True
                for s in self.space.subsets(names, depth, ok):
                    if deck == "unknown" and s and not any(d[4:] in MODES + ("verbosity", "debug") for d, v in s) and quick:
                        continue
                    lab = "%s %s %s" % (t, deck, " + ".join("%s=%s" % (d, v) for d, v in s))
                    out.append((lab, ("line", t, deck, s)))
        # three departures around the modes and the configuration file
        for t, deck in (("ASTER", "unknown"), ("SYSTUS", "unknown"), ("NASTRAN", "static")):
            for m in self.space.product((None, "cmd", "cfg"), MODES, (None, "cmd"), MODES, CFORMS, ("plain",) + tuple(FORMS)):
                a, x, b, y, cf, f = m
                s = tuple(z for z in ((a + ":" + x, None) if a else None, (b + ":" + y, None) if b else None, ("cform", cf) if cf != "plain" else None, ("form", f) if f != "plain" else None) if z)
                if a is None and x != MODES[0] or b is None and y != MODES[0] or (a and b and x == y) or not self.ok(s) or (a != "cfg" and cf != "plain"):
                    continue
                lab = "modes %s %s %s" % (t, deck, " + ".join("%s=%s" % (d, v) for d, v in s))
                out.append((lab, ("line", t, deck, s)))
        seen = set()
        out = [c for c in out if not (c[0] in seen or seen.add(c[0]))]
        # solvers
        for e, ru, stale in self.space.product(ENDS, RESU, (False, True)):
            for pl in PLACES if (e == ("exit", 0) or not quick) else PLACES[:1]:
                out.append(("solver ASTER %s %s resu %s%s at %s" % (*e, ru, " stale" if stale else "", "/".join(pl)), ("solver", "ASTER", e, ru, None, None, stale, pl)))
        for e, ru, tb, sy, stale in self.space.product(ENDS, ("none", "good", "last"), TABLES, SAYS, (False, True)):
            if quick and e not in (("exit", 0), ("exit", 1), ("signal", 9)) and (tb != "both" or sy == "then" or ru == "last"):
                continue
            for pl in PLACES if e == ("exit", 0) and (not quick or tb in ("none", "both")) and sy in ("nothing", "error") else PLACES[:1]:
                out.append(("solver SYSTUS %s %s RESU %s tables %s says %s%s at %s" % (*e, ru, tb, sy, " stale" if stale else "", "/".join(pl)), ("solver", "SYSTUS", e, ru, tb, sy, stale, pl)))
        # Topaze: one computation for each subcase
        for e1, e2, s1, s2, ru in self.space.product(ENDS[:2] + ENDS[3:4] + ENDS[10:11], ENDS[:2] + ENDS[10:11], ("nothing", "error"), ("nothing", "error"), ("none", "good", "last")):
            out.append(("solver TOPAZE %s %s says %s then %s %s says %s RESU %s" % (*e1, s1, *e2, s2, ru), ("topaze", e1, e2, s1, s2, ru)))
        for e, stale in self.space.product(ENDS, (False, True)):
            for pl in PLACES:
                out.append(("solver NASTRAN %s %s%s at %s" % (*e, " stale" if stale else "", "/".join(pl)), ("solver", "NASTRAN", e, None, None, None, stale, pl)))
        for t, why in self.space.product(("ASTER", "SYSTUS", "NASTRAN"), ("strict", "not asked", "absent", "missing input")):
            out.append(("no solver %s %s" % (t, why), ("nosolver", t, why)))
        return out
    def describe(self, p):
        if p[0] == "line":
            l = Line(*p[1:])
            return "vegapp %s\nconfiguration file: %r" % (" ".join(map(repr, l.args())), l.config_file())
        return repr(p)
    def judge(self, p):
        return {"line": self.line, "solver": self.solver, "topaze": self.topaze, "nosolver": self.nosolver}[p[0]](p)
    # ------------------------------------------------------------ command lines
    def line(self, p):
        l = Line(*p[1:])
        want = reference(l.target, l.deckname, l.canonical()) if not (l.errors()[0] | l.errors()[1]) and "ask" not in l.a else None
        r = run.run(l.files(), l.args())
        e, early = l.errors()
        given = set(l.files())
        n = 1
        out = []
        msg = r.out + r.err
        if "ask" in l.a:
            if e | early:
                allowed = {0} | e | early if not early else early
                if r.status[0] != "exit" or r.status[1] not in allowed:
                    out.append("%s and mistakes: ended with %s" % (l.a["ask"], r.status))
            elif r.status != ("exit", 0):
                out.append("%s: ended with %s" % (l.a["ask"], r.status))
            if not early and "Vega, version" not in msg:
                out.append("no version shown")
            if not (e | early) and l.a["ask"] == "help" and "--systus.RBEStiffness" not in msg:
                out.append("no help shown")
            out += self.nothing(r, given)
            return out, n
        if e | early:
            allowed = e | early | ({CRASH} if l.loud() and BAD_LINE in e or l.loud() and PARSING in e else set())
            if r.status[0] != "exit" or r.status[1] not in allowed:
                out.append("ended with %s, expected %s" % (r.status, sorted(allowed)))
            return out + self.nothing(r, given), n
        if r.status != want[0]:
            return ["ended with %s, the same options on the plain line with %s: %s" % (r.status, want[0], msg.strip().splitlines()[-3:])], n
        o = OUTS.get(l.a.get("out", "o"), "o").strip("'").replace("{dir}/", "")
        if want[0] not in (("exit", 0), ("exit", 10)) or not want[1]:
            out.append("the plain line ended with %s and %d files" % (want[0], len(want[1])))
        got = clean(r, o, given)
        out += ["%s" % x for x in c_format.diff(want[1], got)]
        for f in sorted(tree(r.dir) - given - {"stdout.log", "stderr.log"}):
            if os.path.normpath(os.path.dirname(f) or ".") != os.path.normpath(o):
                out.append("file %s outside the output folder" % f)
        for f, t in l.files().items():
            if r.read(f) != t:
                out.append("%s was changed" % f)
        if l.a.get("cfg") == "missing file" and "none.cfg" not in r.err:
            out.append("the missing configuration file is not announced")
        shown = dict(re.match(r"\t ([^:]*): ?(.*?) *$", x).groups() for x in r.out.splitlines() if re.match(r"\t [^:]*:", x))
        exp = {k: v.replace("{dir}", r.dir) for k, v in l.listed().items()}
        for k in sorted(set(shown) | set(exp)):
            if k != "Output directory" and shown.get(k) != exp.get(k) or k == "Output directory" and os.path.normpath(shown.get(k, "?")) != os.path.normpath(exp[k]):
                out.append("option shown as %s: %s, expected %s" % (k, shown.get(k), exp.get(k)))
        return out, n
    def nothing(self, r, given):
        return ["file %s written in spite of the error" % f for f in sorted(tree(r.dir) - given) if TRANSLATED.search(f)]
    # ------------------------------------------------------------ solvers
    def launch(self, files, args, plan, bins, mkdirs=()):
        d = run.drv().case_dir()
        os.mkdir(os.path.join(d, "bin"))
        for b in bins:
            with open(os.path.join(d, "bin", b), "w") as f:
                f.write(STUB)
            os.chmod(os.path.join(d, "bin", b), 0o755)
        files = dict(files)
        files["plan"] = plan
        for m in mkdirs:
            os.makedirs(os.path.join(d, m.replace("{dir}/", "")), exist_ok=True)
        return run.run(files, args, env={"env.PATH": d + "/bin" + (":/usr/bin:/bin" if bins else ""), "env.STUB_LOG": d + "/stub.log", "env.STUB_PLAN": d + "/plan"}, dump=False, keep=d)
    def ending(self, e):
        return "exit %d" % e[1] if e[0] == "exit" else "kill -%d $$; sleep 5" % e[1]
    def solver(self, p):
        _, t, e, ru, tb, sy, stale, (outdir, name) = p
        q = lambda x: "'" + x.replace("'", "'\\''") + "'"
        stem = name[:-4]
        plan = ["echo said; echo SAID >&2"]
        old, expected = {}, end_code(e, t)
        od = outdir.replace("{dir}/", "")
        if t == "ASTER":
            if RESU[ru] is not None:
                plan.append("printf %%s %s > %s" % (q(RESU[ru]), q(stem + ".resu")))
            old[stem + ".resu"] = "NOOK\n" if ru == "none" else "OK stale\n"
            if ru == "none":
                old[stem + ".resu"] = "OK stale\n"
            if expected == 0:
                expected = NO_RESULT if RESU[ru] is None else TEST_FAILS if "NOOK" in RESU[ru] else 0
            cmd, script, log, bins = "as_run", stem + ".export", stem, ["as_run"]
        elif t == "SYSTUS":
            plan.append("printf %%s %s" % q(SAYS[sy]))
            for x in TABLES[tb]:
                plan.append("touch %s" % q(stem + "." + x))
                old[stem + "." + x] = "stale"
            if tb == "none":
                old.update({stem + ".TIT": "stale", stem + ".fdb": "stale"})
            if RESU[ru] is not None:
                plan.append("printf %%s %s > %s" % (q(RESU[ru]), q(stem + "_1.RESU")))
            old[stem + "_1.RESU"] = "NOOK stale\n"
            # those of a study whose name only begins like this one
            for x in ("TIT", "fdb", "RESU"):
                old[stem + "ertia." + x] = "NOOK of another study\n"
            if sy in ("error", "then"):
                expected = NOT_ZERO
            elif expected == 0:
                expected = NO_RESULT if tb == "none" else TEST_FAILS if ru == "last" else 0
            cmd, script, log, bins = "systus", stem + "_ALL.DAT", stem + "_ALL", ["systus"]
        else:
            old[stem + "_vg.f06"] = "stale"
            cmd, script, log, bins = "nastran", stem + "_vg.nas", stem + "_vg", ["nastran"]
        plan.append(self.ending(e))
        files = {name: DECKS["static"]()}
        if stale:
            files.update({os.path.normpath(os.path.join(od, k)): v for k, v in old.items()})
        r = self.launch(files, ["-R", "-o", outdir, name, "NASTRAN", t], "\n".join(plan) + "\n", bins, (outdir,))
        out = []
        if r.status != ("exit", expected):
            out.append("ended with %s, expected %d" % (r.status, expected))
        d = os.path.normpath(os.path.join(r.dir, od))
        calls = (r.read("stub.log") or "").splitlines()
        if len(calls) != 1:
            out.append("the solver was run %d times" % len(calls))
        else:
            cwd, prog, args = calls[0].split("|")
            if os.path.basename(prog) != cmd:
                out.append("%s was run" % prog)
            if os.path.realpath(cwd) != os.path.realpath(d):
                out.append("the solver ran in %s" % cwd)
            a = args if t == "ASTER" else args.replace("-batch -exec ", "", 1)
            if os.path.realpath(os.path.join(cwd, a)) != os.path.realpath(os.path.join(d, script)) or not os.path.isfile(os.path.join(cwd, a)):
                out.append("the solver got %s" % a)
        for x, y in ((".stdout", "said"), (".stderr", "SAID")):
            s = r.read(os.path.join(od, log + x))
            if s is None or not s.startswith(y):
                out.append("the output of the solver is not in %s" % (log + x))
        if stale:
            for k, v in old.items():
                if k.startswith(stem + "ertia") and r.read(os.path.join(od, k)) != v:
                    out.append("%s of another study is gone" % k)
        return out, 1
    def topaze(self, p):
        _, e1, e2, s1, s2, ru = p
        plan = ["printf %%s '%s'" % RESU[ru] + " > in_1.RESU" if RESU[ru] is not None else ":",
                "n=$(wc -l < \"$STUB_LOG\")", "if [ $n = 1 ]; then", "printf %%s '%s'" % SAYS[s1], self.ending(e1), "else", "printf %%s '%s'" % SAYS[s2], self.ending(e2), "fi"]
        r = self.launch({"in.dat": DECKS["static"](), "o/inertia_SC1.DAT": "of another study\n"}, ["-R", "-o", "o", "--systus.OutputProduct", "topaze", "--systus.Subcase", "single", "in.dat", "NASTRAN", "SYSTUS"], "\n".join(plan) + "\n", ["systus"])
        dats = sorted(f for f in os.listdir(os.path.join(r.dir, "o")) if f.endswith(".DAT") and f.startswith("in_"))
        calls = [c.split("|") for c in (r.read("stub.log") or "").splitlines()]
        ran = sorted(c[2].replace("-batch -exec ", "", 1) for c in calls)
        out = []
        c1 = end_code(e1, "SYSTUS") or (NOT_ZERO if s1 == "error" else 0)
        c2 = end_code(e2, "SYSTUS") or (NOT_ZERO if s2 == "error" else 0)
        expected = c1 or c2 or (TEST_FAILS if ru == "last" else 0)
        if len(dats) != 2:
            out.append("%d computations" % len(dats))
        if r.status != ("exit", expected):
            out.append("ended with %s, expected %d" % (r.status, expected))
        if not c1 and ran != dats or c1 and (len(ran) != 1 or ran[0] not in dats):
            out.append("computations run: %s of %s" % (ran, dats))
        return out, 1
    def nosolver(self, p):
        _, t, why = p
        cmd = {"ASTER": "as_run", "SYSTUS": "systus", "NASTRAN": "nastran"}[t]
        a = ["-o", "o"] + {"strict": ["-R", "-s"], "not asked": [], "absent": ["-R"], "missing input": ["-R"]}[why] + ["none.dat" if why == "missing input" else "in.dat", "NASTRAN", t]
        r = self.launch({"in.dat": DECKS["unknown"]()}, a, "exit 0\n", [] if why == "absent" else [cmd])
        want = {"strict": PARSING, "not asked": 0, "absent": NOT_FOUND, "missing input": NO_INPUT}[why]
        out = [] if r.status == ("exit", want) else ["ended with %s, expected %d" % (r.status, want)]
        if r.read("stub.log"):
            out.append("the solver was run")
        return out, 1

if __name__ == "__main__":
    sys.exit(check.main(Cli))
