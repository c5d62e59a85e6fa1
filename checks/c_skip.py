"""Is exactly that left out which is not understood, and does the strict mode refuse it?"""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import check, run, nas, features
from checks import c_format

BASES = {"101": (101, ("bar", "spcd")), "101 plain": (101, ()), "111": (111, ()), "103": (103, ("bar",)), "106": (106, ()), "105": (105, ()), "108": (108, ())}
# cards which could be added to any of the decks: new numbers, or the sets in use
EXTRA = [
    ("GRID", 90, 0, 9., 9., 9., 0, 12), ("SPOINT", 91, 92), ("CORD2R", 90, 0, 0., 0., 0., 0., 0., 1., 1., 0., 0.), ("CORD2C", 91, 0, 0., 0., 0., 0., 0., 1., 1., 0., 0.), ("CORD1R", 92, 1, 2, 4),
    ("CBAR", 90, 91, 9, 10, 0., 0., 1., None, 1, 45), ("CBEAM", 92, 93, 9, 10, 0., 0., 1.), ("CQUAD4", 93, 94, 9, 10, 3, 2, 10.), ("CTRIA3", 94, 94, 9, 10, 3), ("CHEXA", 95, 96, 1, 2, 3, 4, 5, 6, 7, 8), ("CTETRA", 97, 96, 1, 2, 3, 6), ("CPENTA", 98, 96, 1, 2, 3, 5, 6, 7),
    ("CROD", 90, 91, 9, 10), ("CONROD", 90, 9, 10, 1, .5, .1), ("CELAS1", 90, 91, 9, 1, 10, 1), ("CELAS2", 90, 100., 9, 1, 10, 1), ("CELAS4", 90, 100., 91, 92), ("CBUSH", 90, 91, 9, 10, None, None, None, 0), ("CDAMP1", 90, 91, 9, 1, 10, 1), ("CVISC", 90, 91, 9, 10), ("CGAP", 90, 91, 9, 10, 1., 0., 0.),
    ("CONM2", 90, 9, 0, 2.5, .1, .2, .3, None, 1., .1, 2., .1, .1, 3.), ("CMASS2", 90, 2., 9, 1), ("CONM1", 90, 9, 0, 1., None, 2., None, None, 3.),
    ("PBAR", 91, 1, 1., 2., 3., 4., .5), ("PBARL", 91, 1, None, "ROD", None, None, None, None, .5, .1), ("PBEAM", 91, 1, 1., 2., 3., .1, 4., .5), ("PROD", 91, 1, .5, .1), ("PSHELL", 91, 1, .1, 1, None, 1, None, 2.), ("PSOLID", 91, 1), ("PELAS", 91, 10., .1), ("PBUSH", 91, "K", 1., 2., 3., 4., 5., 6.), ("PDAMP", 91, 10.), ("PVISC", 91, 1., 2.), ("PGAP", 91, .1, .2, 3., 4.), ("PCOMP", 91, None, None, None, None, None, None, None, 1, .1, 45.),
    ("MAT1", 91, 2.e11, None, .3, 7800., 1.e-5, 20., .02), ("MAT8", 92, 2.e11, 1.e11, .3, 1.e10, 1.e10, 1.e10, 7800.), ("MATS1", 1, None, "PLASTIC", 1.e9, 1, 1, 1.e8),
    ("FORCE", 5, 9, 0, 1., 1., 2., 3.), ("MOMENT", 5, 9, 0, 1., 1., 2., 3.), ("FORCE1", 5, 9, 3., 1, 2), ("FORCE2", 5, 9, 3., 1, 2, 3, 4), ("GRAV", 5, 0, 9.81, 0., 0., -1.), ("RFORCE", 5, 1, 0, 2., 0., 0., 1.), ("PLOAD2", 5, 3., 2), ("PLOAD4", 5, 2, 3., 4., 5., 6.), ("PLOAD", 5, 3., 2, 9, 10, 3), ("TEMP", 5, 9, 30.), ("LOAD", 95, 2., 3., 5), ("SPCD", 5, 9, 1, .1), ("DAREA", 95, 9, 1, 2.),
    ("SPC", 1, 9, 1, .1), ("SPC1", 1, 123, 9, 10), ("SPC1", 1, 3, 5, "THRU", 8), ("SPCADD", 95, 1), ("MPC", 95, 9, 1, 1., 10, 1, -1.), ("RBE2", 90, 9, 123, 10), ("RBE3", 90, None, 9, 123, 1., 123, 3, 10), ("RBAR", 90, 9, 10, 123456), ("RBAR1", 90, 9, 10, 123), ("CRIGD1", 90, 9, 10),
    ("EIGRL", 95, 1., 100., 5), ("EIGR", 95, "LAN", 1., 100., None, 5), ("EIGB", 95, "INV", 0., 10., 3, 3), ("NLPARM", 95, 5), ("FREQ", 95, 1., 2., 3.), ("FREQ1", 95, 1., 2., 3), ("FREQ3", 95, 1., 2., "LINEAR", 3), ("FREQ4", 95, 1., 2., .1, 3), ("TABLED1", 95, "LINEAR", "LINEAR", None, None, None, None, None, 0., 1., 10., 2., "ENDT"), ("TABDMP1", 96, "CRIT", None, None, None, None, None, None, 0., .1, 10., .2, "ENDT"), ("TABLES1", 97, None, None, None, None, None, None, None, 0., 0., .1, 2., "ENDT"),
    ("RLOAD1", 95, 96, None, None, 95), ("RLOAD2", 95, 96, None, None, 95), ("DLOAD", 96, 1., 2., 95), ("DPHASE", 95, 9, 1, 30.), ("DELAY", 95, 9, 1, .1), ("SET1", 90, 9, 10), ("SET3", 91, "GRID", 9, 10), ("PARAM", "G", .1), ("PARAM", "W3", 100.),
]
ALIEN = {
    "short": ["FOOBAR"], "free": ["FOOBAR,1,2.5,ABC,,7"], "fixed": ["FOOBAR         1     2.5     ABC               7"], "large": ["FOOBAR*                1             2.5             ABC", "*                      7"],
    "continued": ["FOOBAR,1,2,3,4,5,6,7,8,+F1", "+F1,9,10,11,12,13,14,15,16,+F2", "+F2,17"], "unnamed continuation": ["FOOBAR,1,2,3,4,5,6,7,8", ",9,10", ",11"], "looks like": ["GRIDX,90,,0.,0.,0."], "prefix": ["GRI,90,,0.,0.,0."], "lower": ["foobar,1,2"],
    "two": ["FOOBAR,1,2", "BARFOO,3", ",4,5"], "numbers after": ["FOOBAR,1,2", "        3.0     4.0     5.0"], "quoted": ["FOOBAR,'a b','c'"],
}
# cards that hold several independent things: those before the one which is not understood may be kept
PARTLY = ("SPOINT", "SPC")
CASES = {"command": ["FOOCMD = 7"], "spaces": ["FOOCMD(PRINT,X=3) = ALL"], "word": ["FOOCMD"]}

def corrupt(card):
    """(name, lines) of the card with one of its fields spoilt"""
    f = list(card[1:])
    for i, v in enumerate(f):
        if v is None:
            continue
        kinds = {"word": "QWX"} if isinstance(v, str) else {"word": "QWX", "two points": "1.2.3"}
        if isinstance(v, int):
            kinds["real"] = 1.25
        if isinstance(v, str):
            kinds["number"] = 7.5
        for k, x in kinds.items():
            yield "field %d %s" % (i + 1, k), (card[0],) + tuple(f[:i] + [x] + f[i + 1:]), not isinstance(v, str) and k != "real"
        if i < 5:
            yield "field %d blank" % (i + 1), (card[0],) + tuple(f[:i] + [None] + f[i + 1:]), False
    for n in range(1, min(len(f), 6)):
        yield "cut to %d" % n, (card[0],) + tuple(f[:n]), False
    yield "empty", (card[0],), False
    yield "more", (card[0],) + tuple(f) + (None,) * (-len(f) % 8) + ("QWX", "QWX", "QWX", "QWX", "QWX", "QWX", "QWX", "QWX"), False

def files(r):
    r.files = {"in.dat"}
    out = {}
    for n, t in c_format.outputs(r).items():
        if n == "in.med.txt":
            # families by what they are, not by their number
            fam = {m.group(1): m.group(2) for m in re.finditer(r"^F (\S+) (.*)$", t, re.M)}
            ls = []
            for l in t.splitlines():
                w = l.split(" ")
                if w[0] in ("N", "C") and len(w) > 2:
                    k = 2
                    w[k] = fam.get(w[k], w[k])
                    l = " ".join(w)
                if w[0] != "F":
                    ls.append(l)
            t = "\n".join(ls)
        elif n.endswith("_vg.nas"):
            # internal numbers in comments and of display sets
            t = re.sub(r"^SET \d+", "SET", re.sub(r"(vega_id=|input\[|system: )\d+", r"\1", t), flags=re.M)
        out[n] = t
    return out

def blocks(d, extra=(), where=0, case=()):
    ls = [c_format.plain(c) for c in d.cards]
    ls[where:where] = [list(x) for x in extra]
    return c_format.text(d, [l for b in ls for l in b], case=list(case) + d.case if case else None)

class Skip(check.Check):
    pid = "C17"
    rule = "decks with an unknown card (written in every layout) at every position, with an unknown command, and with one more card of each kind of which one field is spoilt in each way, in each mode"
    def cases(self):
        quick = self.tier == "quick"
        out = []
        self.base = {}
        tg = ("ASTER", "SYSTUS", "NASTRAN")
        for b, (sol, fs) in BASES.items():
            d = features.deck(sol, fs)
            self.base[b] = d
            n = len(d.cards)
            for k, l in ALIEN.items():
                for w in self.space.product(range(n + 1)):
                    w = w[0]
                    if quick and b not in ("101", "111") and w % 5:
                        continue
                    for t in tg if not quick or w % 3 == 0 else tg[w % 3:w % 3 + 1]:
                        out.append(("%s %s unknown card %s at %d" % (t, b, k, w), (t, b, [l], w, (), True)))
            for k, l in CASES.items():
                for t in tg:
                    self.space.product([k])
                    out.append(("%s %s unknown command %s" % (t, b, k), (t, b, [], 0, l, None)))
        for b in ("101", "111") if quick else BASES:
            n = len(self.base[b].cards)
            for j, c in enumerate(EXTRA):
                for k, x, must in corrupt(c):
                    for w in self.space.product((n // 2, 3 * n // 4, n)):
                        w = w[0]
                        if quick and (b == "111" and w != n or b == "101" and w == 3 * n // 4):
                            continue
                        for t in tg:
                            if quick and tg[(j + w) % 3] != t:
                                continue
                            out.append(("%s %s %s#%d %s at %d" % (t, b, c[0], j, k, w), (t, b, [c_format.plain(x)], w, (), must if k != "more" else c_format.plain(c))))
        return out
    def text(self, p):
        t, b, extra, w, case, must = p
        return blocks(self.base[b], extra, w, case)
    def describe(self, p):
        return "%s\n%s" % (p[0], self.text(p))
    def judge(self, p):
        t, b, extra, w, case, must = p
        tx = self.text(p)
        r = run.translate(tx, t)
        n = 1
        word = re.match(r"\w+", (extra[0] if extra else case)[0]).group(0).upper()
        msg = r.out + r.err
        said = "Parsing error in %s" % word in msg
        if "Parsing warning in %s" % word in msg and not said and not isinstance(must, bool):
            return [], n        # the rest of the card is announced as dismissed
        if extra and must and not said:
            return ["nothing is said about %s" % extra[0]], n
        if case and word not in msg:
            return ["nothing is said about %s" % case], n
        if extra and not said:
            return [], n        # a card with another meaning
        out = []
        if "Parsing of line not complete" in msg:
            # what is before the rest of the line has been understood
            if isinstance(must, bool):
                return [], n
            v = run.translate(blocks(self.base[b], [must], w), t)
            if not v.ok:
                return [], n
            want = files(v)
        else:
            want = self.want(b, t)
        if want is None:
            return ["the deck itself is not translated"], n
        if not r.ok:
            return ["what is not understood ends the translation: %s" % (r.status,)], n
        if word not in PARTLY:
            out += ["best effort: " + x for x in c_format.diff(want, files(r))]
        if True:
            q = run.translate(tx, t, extra=["-m"], dump=True); n += 1
            if not q.ok:
                out.append("mesh at least ended with %s" % (q.status,))
            else:
                if word not in PARTLY:
                    out += ["mesh at least: " + x for x in c_format.diff(mesh(want), mesh(files(q)))]
        q = run.translate(tx, t, extra=["-s"], dump=False); n += 1
        if extra:
            if q.status[0] != "exit" or q.status[1] == 0:
                out.append("strict ended with %s" % (q.status,))
            left = [x for x in files(q) if x.startswith("in")]
            if left:
                out.append("strict refused the deck and left %s" % left)
        elif q.ok:
            out += ["strict: " + x for x in c_format.diff(mesh(want, True), mesh(files(q), True))]
        return out, n
    def want(self, b, t):
        c = self.__dict__.setdefault("_want", {})
        if (b, t) not in c:
            r = run.translate(blocks(self.base[b]), t)
            c[b, t] = files(r) if r.ok else None
        return c[b, t]

def mesh(fs, all_=False):
    """the files that hold the mesh"""
    return {n: t for n, t in fs.items() if (n != "in.med.txt" if all_ else n == "in.med.txt" or n.endswith((".nas", "_DATA1.ASC")))}

if __name__ == "__main__":
    sys.exit(check.main(Skip))
