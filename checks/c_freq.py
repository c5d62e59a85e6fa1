"""Are the excitation, the frequencies, the damping and the modes of a frequency response those of the input?"""
import cmath, itertools, math, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import check, run, nas, ref, cmp, aster, systus, dyn, cons
from lib.comm import seq, Concept, MODES
from checks import c_case

CARDS = c_case.CARDS
PAD = (None,) * 6
def tab(i, pairs, x=None, y=None):
    l = []
    for p in pairs:
        l += list(p)
    return ("TABLED1", i, x, y) + (None,) * 5 + tuple(l) + ("ENDT",)
def damp(i, kind, pairs):
    l = []
    for p in pairs:
        l += list(p)
    return ("TABDMP1", i, kind) + (None,) * 6 + tuple(l) + ("ENDT",)

CONST = [(0., 1.), (1000., 1.)]
VAR = [(0., 1.), (20., 3.), (40., 2.), (100., 8.)]
TABLES = {"const": (CONST, None, None), "var": (VAR, None, None), "logx": ([(1., 1.), (20., 3.), (100., 8.)], "LOG", None), "logy": (VAR, None, "LOG"), "log": ([(1., 1.), (20., 3.), (100., 8.)], "LOG", "LOG"),
          "short": ([(5., 2.), (15., 4.)], None, None), "skip": ([(0., 1.), ("SKIP", "SKIP"), (20., 3.), (100., 8.)], None, None), "two": ([(0., 5.), (100., 5.)], "LINEAR", "LINEAR"), "down": ([(100., 8.), (40., 2.), (0., 1.)], None, None), "real": ([(0., 1), (100., 3.)], None, None)}

def tabval(t, f):
    pts, lx, ly = TABLES[t]
    pts = sorted(p for p in pts if p[0] != "SKIP")
    g = math.log if lx == "LOG" else lambda q: q
    h = math.log if ly == "LOG" else lambda q: q
    if f < pts[0][0]:
        a, b = pts[0], pts[1]
    elif f > pts[-1][0]:
        a, b = pts[-2], pts[-1]
    else:
        a, b = next((p, q) for p, q in zip(pts, pts[1:]) if p[0] <= f <= q[0])
    r = h(a[1]) + (h(b[1]) - h(a[1])) * (g(f) - g(a[0])) / (g(b[0]) - g(a[0]))
    return math.exp(r) if ly == "LOG" else r

# what is excited: (cards, selections, {(node, dof): amplitude})
EXCITE = {
    "one": ([("DAREA", 181, 3, 3, 5.)], [], {(3, "DZ"): 5.}),
    "two": ([("DAREA", 181, 3, 3, 5., 6, 1, -2.)], [], {(3, "DZ"): 5., (6, "DX"): -2.}),
    "cards": ([("DAREA", 181, 3, 3, 5.), ("DAREA", 181, 5, 2, 7.)], [], {(3, "DZ"): 5., (5, "DY"): 7.}),
    "moment": ([("DAREA", 181, 6, 5, 4.)], [], {(6, "DRY"): 4.}),
    "same": ([("DAREA", 181, 3, 3, 5.), ("DAREA", 181, 3, 1, 1.)], [], {(3, "DZ"): 5., (3, "DX"): 1.}),
    "force": ([("FORCE", 181, 3, 0, 2., 0., 0., 3.)], [], {(3, "DZ"): 6.}),
    "lseq": ([("LSEQ", 188, 181, 187), ("FORCE", 187, 3, 0, 2., 0., 0., 3.)], ["LOADSET = 188"], {(3, "DZ"): 6.}),
    "other": ([("DAREA", 181, 3, 3, 5.), ("DAREA", 199, 5, 2, 9.)], [], {(3, "DZ"): 5.}),
}
DAREA2 = (("DAREA", 191, 6, 2, 6.), {(6, "DY"): 6.})
# how the loads are put together: None = the load itself; (S, [(Si, which load)])
COMBINE = {"direct": None, "1x1": (1., [(1., 1)]), "2x1": (2., [(1., 1)]), "1x3": (1., [(3., 1)]), "-2x3": (-2., [(3., 1)]), "two": (1., [(1., 1), (1., 2)]), "two scaled": (2., [(3., 1), (-1., 2)]),
           "share": (1., [(2., 1), (1., 3)]), "twice": (1., [(1., 1), (4., 1)]), "area": (1., [(1., 1), (1., 4)]), "area scaled": (1., [(2., 1), (5., 4)]), "second": (1., [(1., 2)])}
PHASE = {"none": (None, [], 0.), "real": (30., [], 30.), "id": (193, [("DPHASE", 193, 3, 3, 45.)], 45.), "-90": (-90., [], -90.), "zero": (0., [], 0.)}
DELAY = {"none": (None, [], 0.), "real": (0.01, [], .01), "id": (194, [("DELAY", 194, 3, 3, .02)], .02), "zero": (0., [], 0.)}
SECOND = {"none": None, "const": ([(0., 10.), (1000., 10.)]), "var": ([(0., 0.), (100., 50.)])}
FREQS = {
    "freq1": ([("FREQ1", 90, 10., 10., 4)], [10., 20., 30., 40., 50.]),
    "zero": ([("FREQ1", 90, 0., 5., 3)], [0., 5., 10., 15.]),
    "default": ([("FREQ1", 90, 8., 4.)], [8., 12.]),
    "freq": ([("FREQ", 90, 5., 12.5, 60.)], [5., 12.5, 60.]),
    "long": ([("FREQ", 90) + tuple(3. * i for i in range(1, 13))], [3. * i for i in range(1, 13)]),
    "unsorted": ([("FREQ", 90, 50., 12.5, 30.)], [12.5, 30., 50.]),
    "one": ([("FREQ", 90, 25.)], [25.]),
    "two freq": ([("FREQ", 90, 5., 12.), ("FREQ", 90, 7., 70.)], [5., 7., 12., 70.]),
    "freq+freq1": ([("FREQ", 90, 7., 70.), ("FREQ1", 90, 10., 10., 2)], [7., 10., 20., 30., 70.]),
    "two freq1": ([("FREQ1", 90, 10., 10., 2), ("FREQ1", 90, 50., 5., 2)], [10., 20., 30., 50., 55., 60.]),
    "repeat": ([("FREQ", 90, 5., 12., 5.)], [5., 12.]),
    "other": ([("FREQ1", 90, 10., 10., 4), ("FREQ1", 91, 15., 10., 4)], [10., 20., 30., 40., 50.]),
}
def between(f1, f2, n):
    """FREQ3: n frequencies from each end or mode to the next one"""
    b = [f1] + [f for f in MODES if f1 < f < f2] + [f2]
    return sorted({round(x + (y - x) * k / (n - 1.), 9) for x, y in zip(b, b[1:]) for k in range(n)})
def around(f1, f2, s, n):
    """FREQ4: an odd number of frequencies around each mode"""
    n += 1 - n % 2
    return sorted({round(f * (1. - s + 2 * s * k / (n - 1.) if n > 1 else 1.), 9) for f in MODES if f1 <= f <= f2 for k in range(n)})
FREQS.update({
    "freq3": ([("FREQ3", 90, 10., 50., "LINEAR", 4)], between(10., 50., 4)),
    "freq3 default": ([("FREQ3", 90, 10., 50.)], between(10., 50., 10)),
    "freq3 two": ([("FREQ3", 90, 5., 500., None, 2)], between(5., 500., 2)),
    "freq3 no mode": ([("FREQ3", 90, 18., 20., None, 3)], between(18., 20., 3)),
    "freq4": ([("FREQ4", 90, 10., 50., .2, 5)], around(10., 50., .2, 5)),
    "freq4 default": ([("FREQ4", 90)], around(0., 1e20, .1, 3)),
    "freq4 even": ([("FREQ4", 90, 5., 300., .05, 4)], around(5., 300., .05, 4)),
    "freq4 one": ([("FREQ4", 90, 5., 300., .05, 1)], around(5., 300., .05, 1)),
})
AROUND_MODES = [k for k in FREQS if k.startswith(("freq3", "freq4"))]
# with several cards in a set, those of the first one are used, which is announced
FIRST = {"two freq": [5., 12.], "freq+freq1": [7., 70.], "two freq1": [10., 20., 30.]}
SDAMP = {
    "none": (None, None), "crit": (damp(85, "CRIT", [(0., .02), (1000., .02)]), lambda f: .02), "var": (damp(85, "CRIT", [(0., .02), (100., .04)]), lambda f: .02 + .02 * f / 100),
    "g": (damp(85, "G", [(0., .06), (1000., .06)]), lambda f: .03), "default": (damp(85, None, [(0., .06), (1000., .06)]), lambda f: .03), "gvar": (damp(85, "G", [(0., .02), (100., .06)]), lambda f: .01 + .02 * f / 100),
    "q": (damp(85, "Q", [(0., 10.), (1000., 10.)]), lambda f: .05), "skip": (damp(85, "CRIT", [(0., .02), ("SKIP", "SKIP"), (100., .04)]), lambda f: .02 + .02 * f / 100),
}
SUPPRESS = {"108": ("SDAMP", "METHOD"), "111": ("G",)}
GLOBAL = {"none": ([], None), "g+w3": ([("PARAM", "G", .05), ("PARAM", "W3", 100.)], 5e-4)}
# (card, number of modes asked for, lower, upper, normalisation)
METHODS = {
    "nd": (("EIGRL", 50, None, None, 4), 4, None, None, "MASS"), "one": (("EIGRL", 50), 1, None, None, "MASS"), "band": (("EIGRL", 50, 1., 900.), None, 1., 900., "MASS"), "upper": (("EIGRL", 50, None, 900.), None, None, 900., "MASS"),
    "band nd": (("EIGRL", 50, 1., 900., 6), 6, 1., 900., "MASS"), "upper nd": (("EIGRL", 50, None, 900., 6), 6, None, 900., "MASS"), "lower nd": (("EIGRL", 50, 3., None, 5), 5, 3., None, "MASS"), "max": (("EIGRL", 50, None, None, 4, None, None, None, "MAX"), 4, None, None, "MAX"), "mass": (("EIGRL", 50, None, None, 4, None, None, None, "MASS"), 4, None, None, "MASS"),
    "eigr nd": (("EIGR", 50, "LAN", None, None, None, 5), 5, None, None, "MASS"), "eigr band": (("EIGR", 50, "LAN", 1., 900.), None, 1., 900., "MASS"), "eigr max": (("EIGR", 50, "LAN", None, None, None, 5, None, None, "MAX"), 5, None, None, "MAX"),
}
# dampers, from point to ground and between points; and how many there are in Code_Aster
DAMPERS = {"none": [], "ground": [("CDAMP1", 70, 71, 3, 3), ("PDAMP", 71, 40.)], "two": [("CDAMP1", 70, 71, 3, 3, 6, 3), ("PDAMP", 71, 40.)]}
# kinds of enforced motions
MOTION = {"D": "DEPL", "DISP": "DEPL", 1: "DEPL", "V": "VITE", "VELO": "VITE", 2: "VITE", "A": "ACCE", "ACCE": "ACCE", 3: "ACCE"}
# Rayleigh damping: cards, factor of the mass, factor of the stiffness
RAYLEIGH = {"none": ([], 0., 0.), "mass": ([("PARAM", "ALPHA1", .5)], .5, 0.), "stiffness": ([("PARAM", "ALPHA2", .002)], 0., .002), "both": ([("PARAM", "ALPHA2", .002), ("PARAM", "ALPHA1", .5)], .5, .002)}
DIMS = {"kind": {"R2": 2, "R1": 1, "R2 load": 2, "R2 0": 2}, "excite": EXCITE, "combine": COMBINE, "table": TABLES, "phase": PHASE, "delay": DELAY, "second": SECOND, "freq": FREQS, "sdamp": SDAMP, "global": GLOBAL, "method": METHODS, "damper": DAMPERS, "rayleigh": RAYLEIGH}
ORDER = list(DIMS)
BASE = {"kind": "R2", "excite": "one", "combine": "direct", "table": "const", "phase": "none", "delay": "none", "second": "none", "freq": "freq1", "sdamp": "none", "global": "none", "method": "nd", "damper": "none", "rayleigh": "none"}

def option(m):
    """of an assembled matrix"""
    try:
        return m.args["MATR_ELEM"].args["OPTION"]
    except (AttributeError, KeyError):
        return None

class Freq(check.Check):
    pid = "C13"
    rule = "the ordinary frequency response with sets of its parts (kind of load, what is excited, combination, table, phase, delay, frequencies, damping, modes) given differently, up to the depth"
    def cases(self):
        quick = self.tier == "quick"
        out = []
        for sol in (108, 111, 103):
            dims = [d for d in ORDER if sol == 111 and d != "global" or sol == 108 and d not in ("sdamp", "method") or sol == 103 and d == "method"]
            for s in self.space.subsets(dims, 2 if quick else 3):
                for c in itertools.product(*[[o for o in DIMS[d] if o != BASE[d]] for d in s]):
                    self.space.states += 1
                    d = dict(BASE); d.update(zip(s, c))
                    if d["freq"] in AROUND_MODES and sol != 111:
                        continue    # they need modes
                    if TABLES[d["table"]][1] and d["freq"] == "zero":
                        continue    # no logarithm of a zero frequency
                    lab = " ".join("%s=%s" % (k, v.replace(" ", "_")) for k, v in zip(s, c)) or "ordinary"
                    for t in ("ASTER", "SYSTUS"):
                        if t == "SYSTUS" and sol == 108:
                            continue
                        for m in (("", "direct") if t == "SYSTUS" and sol == 111 and "method" not in s and "table" not in s else ("",)):
                            if m and quick and len(s) > 1:
                                continue
                            out.append(("%s%s SOL %d %s" % (t, "/" + m if m else "", sol, lab), (t, m, sol, d)))
        # enforced motions
        for n, ty, ex in itertools.product((1, 2), MOTION, ("spcd", "lseq")):
            self.space.product([0])
            out.append(("enforced RLOAD%d %s %s" % (n, ty, ex), ("enforced", n, ty, ex)))
        return out
    def enforced(self, p):
        k, n, ty, ex = p
        cards = list(CARDS) + [("SPC1", 10, 123456, 1, 4), ("SPCD", 187 if ex == "lseq" else 181, 1, 1, 2.5), METHODS["nd"][0], tab(182, *TABLES["var"]), ("RLOAD%d" % n, 80, 181, None, None, 182, None, ty)] + FREQS["freq1"][0]
        case = ["SPC = 10", "METHOD = 50", "DLOAD = 80", "FREQ = 90"]
        if ex == "lseq":
            cards.append(("LSEQ", 188, 181, 187)); case.append("LOADSET = 188")
        return nas.Deck(111, case, cards)
    def j_enforced(self, p):
        r = run.translate(self.enforced(p).render(), "ASTER")
        if not r.ok:
            return ["translation ended with %s" % (r.status,)], 1
        g = aster.read(r)
        out = list(g.errors)
        gen = dyn.Generalised(g.comm)
        sv = [a for n, c, a in g.solves if c == "DYNA_VIBRA"]
        if len(sv) != 1:
            return out + ["%d solution commands" % len(sv)], 1
        x = [gen.by.get(aster.chname(q.get("VECT_ASSE_GENE"))) for q in seq(sv[0].get("EXCIT"))]
        if [q and q[1] for q in x] != [MOTION[p[2]]]:
            out.append("excitations of kinds %s, expected %s" % ([q and q[1] for q in x], MOTION[p[2]]))
        return sorted(set(out)), 1
    def deck(self, p):
        if p[0] == "enforced":
            return self.enforced(p)
        t, m, sol, d = p
        cards = list(CARDS) + [("SPC1", 10, 123456, 1, 4)]
        case = ["SPC = 10"]
        if sol != 108:
            case += ["METHOD = 50"]
            cards += [METHODS[d["method"]][0]]
        if sol == 103:
            return nas.Deck(sol, case, cards)
        case += ["DLOAD = 80", "FREQ = 90"]
        if d["sdamp"] != "none" and sol == 111:
            case += ["SDAMPING = 85"]; cards += [SDAMP[d["sdamp"]][0]]
        ex = EXCITE[d["excite"]]
        case += ex[1]
        co = COMBINE[d["combine"]]
        n = 1 if d["kind"] == "R1" else 2
        ty = {"R2 load": "LOAD", "R2 0": 0}.get(d["kind"])
        ph, phc, _ = PHASE[d["phase"]]
        de, dec, _ = DELAY[d["delay"]]
        sec = 192 if d["second"] != "none" else None
        if sec:
            cards += [tab(192, SECOND[d["second"]])]
        cards += phc + dec + ex[0]
        cards += [tab(182, *TABLES[d["table"]])]
        sid = 80 if co is None else 81
        cards += [("RLOAD%d" % n, sid, 181, de, ph, 182, sec, ty)]
        if co:
            l = []
            for k, w in co[1]:
                l += [k, 80 + w]
            cards += [("DLOAD", 80, co[0]) + tuple(l)]
            ws = {w for _, w in co[1]}
            if 2 in ws:      # another area, another table
                cards += [("RLOAD2", 82, 191, None, None, 197), DAREA2[0], tab(197, [(0., 2.), (100., 4.)])]
            if 3 in ws:      # another area, the same table
                cards += [("RLOAD2", 83, 191, None, None, 182), DAREA2[0]]
            if 4 in ws:      # the same area, another table
                cards += [("RLOAD2", 84, 181, None, None, 197), tab(197, [(0., 2.), (100., 4.)])]
        cards += FREQS[d["freq"]][0] + GLOBAL[d["global"]][0] + DAMPERS[d["damper"]] + RAYLEIGH[d["rayleigh"]][0]
        return nas.Deck(sol, case, cards)
    def describe(self, p):
        return self.deck(p).render()
    def expected(self, d, f):
        """{(node, dof): complex force} at a frequency"""
        amp = EXCITE[d["excite"]][2]
        ph, de = PHASE[d["phase"]][2], DELAY[d["delay"]][2]
        b = tabval(d["table"], f)
        s2 = 0.
        if d["second"] != "none":
            pts = SECOND[d["second"]]
            s2 = pts[0][1] + (pts[1][1] - pts[0][1]) * (f - pts[0][0]) / (pts[1][0] - pts[0][0])
        if d["kind"] == "R1":
            z = (b + 1j * s2) * cmath.exp(1j * (math.radians(ph) - 2 * math.pi * f * de))
        else:
            z = b * cmath.exp(1j * (math.radians(s2) + math.radians(ph) - 2 * math.pi * f * de))
        one = {k: v * z for k, v in amp.items()}
        co = COMBINE[d["combine"]]
        if co is None:
            return one
        out = {}
        for k, w in co[1]:
            g = 2. + 2. * f / 100
            x = {1: one, 2: {k2: v * g for k2, v in DAREA2[1].items()}, 3: {k2: v * b for k2, v in DAREA2[1].items()}, 4: {k2: v * g for k2, v in amp.items()}}[w]
            for q, v in x.items():
                out[q] = out.get(q, 0.) + co[0] * k * v
        return {k: v for k, v in out.items() if abs(v) > 1e-12}
    def judge(self, p):
        if p[0] == "enforced":
            return self.j_enforced(p)
        t, m, sol, d = p
        dk = self.deck(p)
        r = run.translate(dk.render(), t, extra=["--systus.DynamicMethod", m] if m else [])
        if d["kind"] == "R1" and d["second"] != "none" and "TYPE in RLOAD1 not supported" in r.out + r.err and r.status in (("exit", 0), ("exit", 1)):
            return [], 1        # refused
        if not r.ok:
            return ["translation ended with %s" % (r.status,)], 1
        R = ref.interpret(nas.Deck(101, ["SPC = 10"], list(CARDS) + [("SPC1", 10, 123456, 1, 4)]))
        msg = r.out + r.err
        d = dict(d)
        # what is announced as left out is judged without it
        if sol != 103:
            if d["second"] != "none" and ("hase table" in msg or "Table Phase" in msg):
                d["second"] = "none"
            if DELAY[d["delay"]][2] and "Delay" in msg:
                d["delay"] = "none"
            d["w"] = FREQS[d["freq"]][1]
            if "Several excitation frequencies" in msg:
                d["w"] = FIRST.get(d["freq"], d["w"])
        return sorted(set((self.j_aster if t == "ASTER" else self.j_systus)(R, r, sol, d, m))), 1
    def j_aster(self, R, r, sol, d, m):
        if sol == 111 and d["sdamp"] == "q" and "not (yet) implemented" in r.out + r.err:
            return []      # announced
        g = aster.read(r, key=cmp.keyer(R))
        out = list(g.errors); g.errors = []
        gen = dyn.Generalised(g.comm)
        sv = [s for s in g.solves if s[1] == ("CALC_MODES" if sol == 103 else "DYNA_VIBRA")]
        if len(sv) != 1:
            return out + ["%d solution commands" % len(sv)]
        name, cmd, args = sv[0]
        md = [(n, c, a) for n, c, a in g.comm.calls if c == "CALC_MODES"]
        if sol != 108:
            if len(md) != 1:
                return out + ["%d CALC_MODES" % len(md)]
            out += aster_modes(g, md[0][2], METHODS[d["method"]], r.out + r.err)
        if sol == 103:
            return out
        for c in g.cells:
            for k, v in (("AMOR_BETA", RAYLEIGH[d["rayleigh"]][1]), ("AMOR_ALPHA", RAYLEIGH[d["rayleigh"]][2])):
                x = (c.mat or {}).get("ELAS." + k, 0.)
                if (c.mat or {}).get("ELAS.E") is not None and not abs(float(x) - v) < 1e-9:
                    out.append("element of the nodes %s: %s is %s, expected %s" % (c.nodes, k, x, v))
        fs = dyn.values(args.get("LIST_FREQ"))
        out += freqs(fs, d["w"])
        for kw, op in (("MATR_MASS", "MASS_MECA"), ("MATR_RIGI", "RIGI_MECA")):
            x = args.get(kw)
            if sol == 111:
                x = (gen.by.get(aster.chname(x)) or (0, 0, None))[2]
            if option(x) != op:
                out.append("%s is a matrix %s" % (kw, option(x)))
        for f in d["w"]:
            try:
                h = dyn.harmonic(g, sv[0], f, gen)
            except dyn.Undefined as e:
                out.append("excitation: %s" % e); continue
            except ValueError as e:
                out.append("excitation cannot be computed at %g: %s" % (f, e)); continue
            out += same(h, self.expected(d, f), f)
        if sol == 111:
            am, ma = args.get("AMOR_MODAL"), args.get("MATR_AMOR")
            w = SDAMP[d["sdamp"]][1]
            got = None
            if am:
                k = seq(am)[0].get("AMOR_REDUIT")
                k = getattr(k, "source", k)
                while getattr(k, "cmd", None) == "CREA_TABLE":
                    k = seq(k.args["FONCTION"])[0]["FONCTION"]
                got = k
            if (got is None) != (w is None):
                out.append("modal damping %s" % ("is missing" if w else "added"))
            elif w is None:
                g2 = gen.by.get(aster.chname(ma)) if ma is not None else None
                if (d["damper"] != "none" or d["rayleigh"] != "none") and (g2 is None or option(g2[2]) != "AMOR_MECA"):
                    out.append("the dampers are left out")
            elif w:
                if ma is not None:
                    out.append("a damping matrix hides the modal damping")
                if d["damper"] != "none" and "Dampers not supported" not in r.out + r.err:
                    out.append("the modal damping hides the dampers, without a message")
                for f in (0.5, 25., 80.):
                    v = dyn.func(got, f)
                    if not abs(v - w(f)) < 1e-9:
                        out.append("modal damping %.9g at %g, expected %.9g" % (v, f, w(f)))
        else:
            ma = args.get("MATR_AMOR")
            w = GLOBAL[d["global"]][1]
            parts = [(1., ma)]
            if isinstance(ma, Concept) and ma.cmd == "COMB_MATR_ASSE":
                parts = [(float(x["COEF_R"]), x["MATR_ASSE"]) for x in seq(ma.args["COMB_R"])]
            ks = sum(k for k, x in parts if aster.chname(x) == aster.chname(args["MATR_RIGI"]))
            ds = sum(k for k, x in parts if option(x) == "AMOR_MECA")
            if any(aster.chname(x) != aster.chname(args["MATR_RIGI"]) and option(x) != "AMOR_MECA" for k, x in parts):
                out.append("damping matrix of %s" % parts)
            if (d["damper"] != "none" or d["rayleigh"] != "none") and not abs(ds - 1.) < 1e-12:
                out.append("damping of %g times that of the dampers" % ds)
            if not abs(ks - (w or 0.)) < 1e-12:
                out.append("damping of %g times the stiffness, expected %s" % (ks, w))
        return out + g.errors
    def j_systus(self, R, r, sol, d, m):
        fs = systus.read_all(r)
        if len(fs) != 1:
            return ["%d files" % len(fs)]
        nm, g = fs[0]
        out = list(g.errors)
        t = r.read(nm.replace("_DATA1.ASC", ".DAT")) or ""
        msg = r.out + r.err
        if m != "direct":
            out += systus_modes(t, METHODS[d["method"]], msg)
        if sol == 103:
            return out
        x = re.search(r"^FREQUENCY INITIAL (\S+)\s+(\S+) STEP (\S+)", t, re.M)
        w = d["w"]
        if x is None:
            if "requency range" not in msg:
                out.append("no frequencies and no message")
        else:
            a0, b0, s0 = (float(v) for v in x.groups())
            out += freqs([a0 + s0 * k for k in range(1, int(round((b0 - a0) / s0)) + 1)], w)
        # modal damping
        x = re.search(r"^DAMPING GAMMA (\S+)", t, re.M)
        got, w = (float(x.group(1)) if x else None), SDAMP[d["sdamp"]][1]
        if (got is None) != (w is None):
            out.append("modal damping %s" % ("is missing" if w else "added"))
        elif w and abs(w(0.) - w(100.)) > 1e-9:
            if "damping" not in msg:
                out.append("variable damping became constant without a message")
        elif w and not abs(got - w(0.)) < 1e-9:
            out.append("modal damping %.9g, expected %.9g" % (got, w(0.)))
        if d["rayleigh"] != "none" and "Rayleigh" not in msg:
            out.append("the Rayleigh damping is left out without a message")
        # excitation
        says = [k for k in ("Delay", "Phase", "Table Phase", "amplitude", "one loadcase", "must refer", "not implemented", "scal", "linear interpolations") if k in msg]
        if len(g.lc) != 1:
            if "one loadcase" not in msg:
                out.append("%d load cases" % len(g.lc))
            return out
        l = next(iter(g.lc.values()))
        x = re.search(r"^FUNCTION (\d+)", t, re.M)
        fn = g.tables.get(int(x.group(1))) if x else None
        if x and fn is None:
            out.append("FUNCTION %s is not a table" % x.group(1))
        pts = [q for q in TABLES[d["table"]][0] if q[0] != "SKIP"]
        if d["combine"] == "second":
            pts = [(0., 2.), (100., 4.)]
        for f in d["w"]:
            if fn and not min(pts)[0] <= f <= max(pts)[0]:
                continue    # how SYSTUS extends a table is its own matter
            k = table(fn[1][1:], f) if fn else 1.     # the first number is the kind of table
            h = {q: k * v for q, v in l.nodal.items() if abs(k * v) > 1e-12}
            e = same(h, self.expected(d, f), f)
            if e and not says:
                out += e
        return out

def table(v, f):
    p = sorted(zip(v[0::2], v[1::2]))
    if f <= p[0][0]:
        return p[0][1]
    for a, b in zip(p, p[1:]):
        if f <= b[0]:
            return a[1] + (b[1] - a[1]) * (f - a[0]) / (b[0] - a[0])
    return p[-1][1]

def freqs(got, want):
    if len(got) != len(want) or any(not abs(x - y) < 1e-6 for x, y in zip(got, want)):
        return ["frequencies %s, expected %s" % (got[:8], want[:8])]
    return []

def same(h, x, f):
    if set(h) != set(x) or any(not abs(h[k] - x[k]) < 1e-5 * max(1., abs(x[k])) for k in x):
        s = lambda q: "{%s}" % ", ".join("%s: %s" % (k, "%.6g%+.6gj" % (v.real, v.imag) if abs(complex(v).imag) > 1e-12 else "%.6g" % complex(v).real) for k, v in sorted(q.items()))
        return ["excitation at %g: %s, expected %s" % (f, s(h), s(x))]
    return []

def aster_modes(g, a, w, msg):
    card, nd, lo, up, norm = w
    out = []
    q = seq(a.get("CALC_FREQ"))[0]
    o = a.get("OPTION")
    # the modes kept afterwards
    flt = [seq(x["FILTRE_MODE"])[0] for n, c, x in g.comm.calls if c == "EXTR_MODE"]
    fmin = max([0.] + [float(x.get("FREQ_MIN", 0.)) for x in flt])
    fmax = min([1e30] + [float(x.get("FREQ_MAX", 1e30)) for x in flt])
    if "NMAX_FREQ" in q:
        if o != "PLUS_PETITE":
            out.append("OPTION %s with a number of modes" % o)
        if "FREQ" in q:
            out.append("FREQ and NMAX_FREQ together")
        n, b = q["NMAX_FREQ"], (fmin, fmax)
    elif o == "BANDE" and len(seq(q.get("FREQ"))) == 2:
        n, b = None, (max(fmin, q["FREQ"][0]), min(fmax, q["FREQ"][1]))
    else:
        return ["modes: OPTION=%s CALC_FREQ=%s" % (o, dict(q))]
    if n != nd:
        out.append("%s modes, expected %s" % (n, nd))
    if nd is not None and lo and "Lower bound of the modes is dismissed" in msg:
        lo = None
    if not abs(b[0] - (lo or 0.)) < 1e-6 or not abs(b[1] - (up or 1e30)) < 1e-6:
        out.append("modes of %g to %g, expected %s to %s" % (b[0], b[1], lo, up))
    nm = seq(a.get("NORM_MODE"))[0].get("NORME") if a.get("NORM_MODE") else None
    if nm != {"MASS": "MASS_GENE", "MAX": "TRAN_ROTA"}[norm]:
        out.append("norm %s for %s" % (nm, norm))
    return out

def systus_modes(t, w, msg):
    card, nd, lo, up, norm = w
    out = []
    m = re.search(r"^VECTOR (\d+)(.*)$", t, re.M)
    if not m:
        return ["no modes"]
    if nd is not None and int(m.group(1)) != nd:
        out.append("%s modes, expected %s" % (m.group(1), nd))
    if (lo is not None or up is not None) and "bound" not in msg:
        out.append("the band %s %s is left out without a message" % (lo, up))
    if ("NORM MASS" in m.group(2)) != (norm == "MASS"):
        out.append("norm %s for %s" % (m.group(2), norm))
    return out

if __name__ == "__main__":
    sys.exit(check.main(Freq))
