"""Springs, dampers, masses and direct matrices."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import check, run, ref, aster, systus, cmp, menu, nas, cons
from lib.sem import *

class Base:
    def __init__(s, scheme="seq", over={}, solid=False):
        b = s.b = menu.Builder(scheme)
        s.e, s.n = {}, {}
        for i, name in enumerate(("QU4", "HE8", "TR3")):
            k = {"QU4": "PY5", "TR3": "PE6"}.get(name, name) if solid else name
            pid = 902 if k in menu.SHELL else 901
            pts = b.place(k, 6.0 * i + 3.0)
            ids = [b.node(*p, None, *over.get((name, j), (None, None))) for j, p in enumerate(pts)]
            e = b.eid(); b.add(menu.CARD[k], e, pid, *ids)
            s.e[name], s.n[name] = e, ids[:{"QU4": 4, "TR3": 3}.get(name, 8)]
        b.add("PSOLID", 901, 1)
        if not solid:
            b.add("PSHELL", 902, 1, 0.125, 1)
        b.add("MAT1", 1, 2e11, None, 0.3, 7800.)
        b.add("CORD2R", 21, None, 1., 0., 0., 1., 0.5, 1., 2., 0.5, 0.)
        b.add("CORD2C", 22, None, 0.5, -1., 0., 0.5, -1., 2., 2., 0., 0.)
        s.free = {}
        s.pids = 0
        s.sets = {}
    def f(s, name):
        """node without element; C is where QU4[3] is"""
        if name not in s.free:
            q = dict((c[1], c[3:6]) for c in s.b.nodes)[s.n["QU4"][3]]
            s.b.ni += 1
            i = s.b.nn(s.b.ni)
            x = {"M": (7.5, 0.75, 3.), "N": (13.25, -1.5, 0.5), "C": q}[name]
            s.b.nodes.append(("GRID", i, None, *x, None, None))
            s.free[name] = i
        return s.free[name]
    def pid(s):
        s.pids += 1
        return 700 + s.pids

def elas(m, *pairs, k=1000., ge=None):
    p = m.pid()
    return [("PELAS", p, k, ge)] + [("CELAS1", m.b.eid(), p, *x) for x in pairs]
def bush(m, K, *els, B=None):
    p = m.pid()
    card = ["PBUSH", p, "K", *K] + ([None, "B", *B] if B else [])
    return [tuple(card)] + [("CBUSH", m.b.eid(), p, *x) for x in els]

K6 = (100., 200., 300., 40., 50., 60.)
K3 = (100., 200., 300.)
# atom -> model -> cards
A = {
    "wt": lambda m: [("PARAM", "WTMASS", .25)],
    "k1": lambda m: elas(m, (m.n["QU4"][0], 3, m.n["HE8"][1], 3)),
    "k1x": lambda m: elas(m, (m.n["QU4"][1], 1, m.n["TR3"][0], 2), k=250.),
    "k1r": lambda m: elas(m, (m.n["QU4"][1], 5, m.n["TR3"][0], 4), k=250.),
    "k1m": lambda m: elas(m, (m.n["QU4"][0], 1, m.n["HE8"][2], 1), (m.n["QU4"][2], 2, m.n["HE8"][3], 3), k=77.),
    "k1s": lambda m: elas(m, (m.n["QU4"][0], 1, m.n["HE8"][2], 1), (m.n["QU4"][0], 2, m.n["HE8"][2], 2), k=77.),
    "k1g": lambda m: elas(m, (m.n["HE8"][4], 2), k=55.),
    "k1G": lambda m: elas(m, (m.n["HE8"][4], 1), (m.n["TR3"][2], 3), k=56.),
    "k1p": lambda m: [("PELAS", 711, 10., None, None, 712, 20., None, None), ("CELAS1", m.b.eid(), 711, m.n["QU4"][3], 1, m.n["HE8"][6], 1),
                      ("CELAS1", m.b.eid(), 712, m.n["QU4"][3], 2, m.n["HE8"][6], 2)],
    "k1c": lambda m: elas(m, (m.n["QU4"][3], 2, m.f("C"), 2), k=88.),
    "k1o": lambda m: elas(m, (m.n["QU4"][1], 3, m.f("M"), 3), k=99.),
    "k2": lambda m: [("CELAS2", m.b.eid(), 300., m.n["QU4"][0], 1, m.n["HE8"][1], 1)],
    "k2x": lambda m: [("CELAS2", m.b.eid(), 310., m.n["QU4"][0], 2, m.n["HE8"][2], 1)],
    "k2r": lambda m: [("CELAS2", m.b.eid(), 320., m.n["QU4"][2], 4, m.n["TR3"][1], 4)],
    "k2n": lambda m: [("CELAS2", m.b.eid(), 330., m.n["HE8"][5], 1, m.n["HE8"][5], 3)],
    "k2g": lambda m: [("CELAS2", m.b.eid(), 340., m.n["HE8"][5], 1)],
    "k2m": lambda m: [("CELAS2", m.b.eid(), 350. + i, m.n["QU4"][1], i, m.n["HE8"][7], i) for i in (1, 2, 3)],
    "k2i": lambda m: [("CELAS2", 721, 360., m.n["QU4"][1], 1, m.n["TR3"][2], 1), ("PELAS", 721, 13.), ("CELAS1", m.b.eid(), 721, m.n["TR3"][0], 1, m.n["HE8"][0], 1)],
    "k2p": lambda m: [("CELAS2", 902, 360., m.n["QU4"][1], 1, m.n["TR3"][2], 1)],
    "b2": lambda m: bush(m, K6, (m.n["QU4"][0], m.n["TR3"][1], None, None, None, 0)),
    "b23": lambda m: bush(m, K3, (m.n["QU4"][0], m.n["HE8"][1], None, None, None, 0)),
    "bv": lambda m: bush(m, K6, (m.n["QU4"][1], m.n["HE8"][2], 0., 1., 0.5)),
    "bn": lambda m: bush(m, K6, (m.n["QU4"][1], m.n["HE8"][2], m.n["TR3"][2])),
    "b2v": lambda m: bush(m, K6, (m.n["QU4"][1], m.n["HE8"][2], 0., 1., 0.5), (m.n["TR3"][1], m.n["HE8"][4], 0., 0., 1.)),
    "bc": lambda m: bush(m, K6, (m.n["QU4"][2], m.n["HE8"][3], None, None, None, 21)),
    "bk": lambda m: bush(m, K6, (m.n["QU4"][2], m.n["HE8"][3], None, None, None, 22)),
    "b1": lambda m: bush(m, K6, (m.n["HE8"][6], None, None, None, None, 0)),
    "b1c": lambda m: bush(m, K6, (m.n["HE8"][6], None, None, None, None, 21)),
    "bz": lambda m: bush(m, K6, (m.n["QU4"][3], m.f("C"), None, None, None, 0)),
    "bzc": lambda m: bush(m, K6, (m.n["QU4"][3], m.f("C"), None, None, None, 21)),
    "b1k": lambda m: bush(m, (100., None, None, None, None, 7.), (m.n["HE8"][7], m.f("M"), None, None, None, 0)),
    "m2": lambda m: [("CONM2", m.b.eid(), m.n["QU4"][0], None, 12.5)],
    "m2o": lambda m: [("CONM2", m.b.eid(), m.n["QU4"][1], None, 12.5, 0.1, 0.2, 0.3)],
    "m2I": lambda m: [("CONM2", m.b.eid(), m.n["QU4"][1], None, 12.5, None, None, None, None, 1., 0.1, 2., 0.2, 0.3, 3.)],
    "m2oI": lambda m: [("CONM2", m.b.eid(), m.n["HE8"][1], None, 12.5, 0.1, 0.2, 0.3, None, 1., None, 2., None, None, 3.)],
    "m2h": lambda m: [("CONM2", m.b.eid(), m.n["HE8"][2], None, 3.5)],
    "m2d": lambda m: [("CONM2", m.b.eid(), m.n["HE8"][2], None, 3.5), ("CONM2", m.b.eid(), m.n["HE8"][2], None, 1.5)],
    "m2f": lambda m: [("CONM2", m.b.eid(), m.f("N"), None, 3.5), ("RBE2", m.b.eid(), m.f("N"), 123456, m.n["TR3"][0])],
    "m2c": lambda m: [("CONM2", m.b.eid(), m.n["QU4"][2], 21, 12.5, None, None, None, None, 1., 0.1, 2., 0.2, 0.3, 3.)],
    "m1": lambda m: [("CONM1", m.b.eid(), m.n["QU4"][0], None, 1., None, 2., None, None, 3.)],
    "m1f": lambda m: [("CONM1", m.b.eid(), m.n["QU4"][2], None, 1., 0.1, 2., 0.2, 0.3, 3., 0.01, 0.02, 0.03, 4., 0.04, 0.05, 0.06, 0.07, 5., 0.11, 0.12, 0.13, 0.14, 0.15, 6.)],
    "cm": lambda m: [("CMASS2", m.b.eid(), 4.5, m.n["QU4"][0], 1, m.n["HE8"][1], 1)],
    "cmg": lambda m: [("CMASS2", m.b.eid(), 5.5, m.n["QU4"][3], 2)],
    "dk": lambda m: dmig(m, "K2GG", "KAA", [((m.n["QU4"][0], 1), [((m.n["QU4"][0], 1), 11.), ((m.n["QU4"][1], 2), -2.), ((m.n["HE8"][0], 3), 3.)]),
                                            ((m.n["HE8"][0], 3), [((m.n["HE8"][0], 3), 8.)])]),
    "dkr": lambda m: dmig(m, "K2GG", "KAB", [((m.n["QU4"][2], 4), [((m.n["QU4"][2], 4), 11.), ((m.n["QU4"][1], 2), -2.)]), ((m.n["QU4"][1], 2), [((m.n["QU4"][1], 2), 13.)])]),
    "dkf": lambda m: dmig(m, "K2GG", "KAC", [((m.f("M"), 1), [((m.f("M"), 1), 11.), ((m.f("N"), 2), -2.)]), ((m.f("N"), 2), [((m.f("N"), 2), 13.)])]),
    "dk3": lambda m: dmig(m, "K2GG", "KAD", [((m.n["QU4"][0], 1), [((m.n["QU4"][0], 1), 11.), ((m.n["QU4"][1], 2), -2.)]), ((m.n["QU4"][1], 2), [((m.n["QU4"][1], 2), 13.), ((m.n["QU4"][2], 3), -3.)]),
                                             ((m.n["QU4"][2], 3), [((m.n["QU4"][2], 3), 17.), ((m.n["HE8"][1], 1), -1.5)]), ((m.n["HE8"][1], 1), [((m.n["HE8"][1], 1), 5.)]), ((m.n["TR3"][0], 2), [((m.n["TR3"][0], 2), 6.)])]),
    "dm": lambda m: dmig(m, "M2GG", "MAA", [((m.n["QU4"][0], 1), [((m.n["QU4"][0], 1), 11.), ((m.n["TR3"][1], 2), -2.)]), ((m.n["TR3"][1], 2), [((m.n["TR3"][1], 2), 8.)])]),
    "db": lambda m: dmig(m, "B2GG", "BAA", [((m.n["QU4"][0], 1), [((m.n["QU4"][0], 1), 11.), ((m.n["TR3"][1], 2), -2.)]), ((m.n["TR3"][1], 2), [((m.n["TR3"][1], 2), 8.)])]),
    "c1": lambda m: [("PDAMP", 731, 17.), ("CDAMP1", m.b.eid(), 731, m.n["QU4"][0], 3, m.n["HE8"][1], 3)],
    "c1x": lambda m: [("PDAMP", 732, 18.), ("CDAMP1", m.b.eid(), 732, m.n["QU4"][2], 1, m.n["HE8"][1], 2), ("CDAMP1", m.b.eid(), 732, m.n["TR3"][0], 2, m.n["HE8"][1], 2)],
    "c1g": lambda m: [("PDAMP", 733, 19.), ("CDAMP1", m.b.eid(), 733, m.n["QU4"][2], 1)],
    "c1p": lambda m: [("PDAMP", 734, 5., 735, 6., 736, 7., 737, 8.), ("CDAMP1", m.b.eid(), 734, m.n["QU4"][0], 1, m.n["TR3"][1], 1), ("CDAMP1", m.b.eid(), 736, m.n["QU4"][0], 2, m.n["TR3"][1], 2)],
    "zw": lambda m: [("PARAM", "WTMASS", .5)],
    "bB": lambda m: bush(m, K6, (m.n["QU4"][0], m.n["TR3"][2], None, None, None, 0), B=(1., 2., 3., 4., 5., 6.)),
}
def dmig(m, key, name, cols):
    m.sets.setdefault(key, name)
    out = [("DMIG", name, 0, 6, 1, None, None, None, 1)]
    for (g, c), rows in cols:
        f = ["DMIG", name, g, c, None]
        for (n, d), v in rows:
            f += [n, d, v, None]
        out.append(tuple(f[:-1]))
    return out

ROTATE = {"k1r", "k2r", "dkr", "c1r"}
SINGLE = [{"dk", "dkr", "dkf", "dk3"}]   # one matrix of a kind
SOLS = {"101": (101, ["LOAD=5"], []),
        "103": (103, ["METHOD=9"], [("EIGRL", 9, None, None, 4)]),
        "108": (108, ["DLOAD=80", "FREQ=90"], [("RLOAD2", 80, 81, None, None, 82), ("TABLED1", 82, None, None, None, None, None, None, None, 0., 1., 1000., 1., "ENDT"), ("FREQ1", 90, 0., 10., 5)])}
DAMP = {"db", "c1", "c1x", "c1g", "c1p", "bB"}
TABLE = {"k2n", "k2c", "c1x", "cm", "cmg", "dk", "dkr", "dkf", "dk3", "dm", "db"} | {a for a in A if a.startswith("k1") or a.startswith("c1")}   # written as matrices
WT = {"wt", "zw"}   # the factor of masses, before or after them
MASS = {a for a in A if a.startswith("m") or a in ("cm", "cmg", "dm")}

class Discrete(check.Check):
    pid = "C09"
    rule = "every set of springs, dampers, masses and direct matrices up to the depth, in a static, a modal and a frequency response analysis"
    def cases(self):
        out = []
        for tgt in ("ASTER", "SYSTUS"):
            depth = 2 if self.tier == "quick" else 3
            for s in self.space.subsets(list(A), depth):
                if not s or any(len(q & set(s)) > 1 for q in SINGLE):
                    continue
                if WT & set(s) and (len(WT & set(s)) > 1 or not MASS & set(s)):
                    continue
                for solid in (False, True):
                    if solid and ROTATE & set(s):
                        continue
                    for sol in SOLS:
                        if sol == "101" and (DAMP | MASS) & set(s) and len(set(s) - WT) > 1 or sol == "103" and DAMP & set(s) and len(s) > 1 or sol == "108" and len(set(s) - WT) > 1 and not DAMP & set(s):
                            continue
                        for sch in (("seq", "rev") if len(s) < 2 else ("seq",)):
                            out.append((" ".join(x for x in (tgt, "solid" if solid else "", sol, "+".join(s), sch) if x), (tgt, s, sol, sch, solid, ())))
                            if tgt == "SYSTUS" and sch == "seq" and TABLE & set(s):
                                out.append((" ".join(x for x in (tgt, "file", "solid" if solid else "", sol, "+".join(s)) if x), (tgt, s, sol, sch, solid, ("--systus.OutputMatrix", "file"))))
        return out
    def deck(self, p):
        tgt, s, sol, sch, solid, opt = p
        m = Base(sch, {}, solid)
        cards = []
        for a in s:
            cards += A[a](m)
        no, case, extra = SOLS[sol]
        cards.append(("SPC1", 10, 123456, m.n["HE8"][0], m.n["QU4"][3]))
        if sol == "101":
            cards.append(("FORCE", 5, m.n["HE8"][7], 0, 1., 0., 5., 0.))
        elif sol == "108":
            cards.append(("DAREA", 81, m.n["HE8"][7], 1, 500.))
        case = ["SPC=10"] + case + ["%s=%s" % kv for kv in m.sets.items()]
        return m.b.deck(no, case, cards + extra)
    def describe(self, p):
        return self.deck(p).render()
    def judge(self, p):
        d = self.deck(p)
        R = ref.interpret(d)
        r = run.translate(d.render("free"), p[0], p[5])
        if not r.ok:
            return ["translation ended with %s" % (r.status,)], 1
        out = judge(R, r, p)
        if out and p[0] == "ASTER" and cmp.keyer(R).coincident:
            out = min(out, judge(R, r, p, True), key=len)
        return out, 1

def ground(mat, blocked):
    """matrix without the components that are blocked"""
    return {k: v for k, v in mat.items() if k[0] not in blocked and k[1] not in blocked}

def mat_diff(e, g, what):
    out = []
    big = max([abs(v) for v in e.values()] + [1e-9])
    for k in sorted(set(e) | set(g), key=str):
        a, b = e.get(k, 0.0), g.get(k, 0.0)
        if not abs(a - b) <= 1e-5 * max(abs(a), abs(b)) + 1e-9 * big:
            out.append("%s %s: got %g expected %g" % (what, k, b, a))
    return out[:6]

def judge(R, r, p, perm=False):
    out = []
    tgt, s, sol = p[:3]
    quant = {"101": "K", "103": "KM", "108": "KMB"}[sol]
    known = set(R.fem.nodes)
    if tgt == "ASTER":
        g = aster.read(r, key=cmp.keyer(R, perm))
        out += list(g.errors)
        cs = []
        for i, a in enumerate(R.fem.analyses):
            if i >= len(g.solves):
                return out + ["%d solution commands" % len(g.solves)]
            o, rows, rbe3 = cons.aster_cons(R, g, i, "analysis %s" % a.id)
            cs.append((g, rows))
        exists = aster.dofs(g)
    else:
        l, errs = systus.read_all(r), []
        for n, g in l:
            errs += ["%s: %s" % (n, e) for e in g.errors]
        out += errs
        if len(l) != 1:
            return out + ["%d files" % len(l)]
        g = l[0][1]
        cs = [(g, [({k: 1.0}, 0.0) for k in g.fixed])]
        exists = None
    for (g, rows) in cs:
        blocked = {next(iter(cf)) for cf, rhs in rows if len(cf) == 1}
        # points that only stand for the ground
        allowed = {next(iter(cf)) for cf, rhs in R.spc_rows(10) + R.common_rows()[0] if len(cf) == 1}
        for k in sorted(blocked, key=str):
            if k[0] in known and k not in allowed and any((k, k) in getattr(R.fem, q) for q in "KMB"):
                out.append("%s of node %s is blocked" % (k[1], k[0]))
        blocked = {k for k in blocked if k[0] not in known}
        for q in quant:
            if q == "B" and tgt == "SYSTUS" and set(s) & DAMP - {"db"}:
                continue # said to be dismissed
            e, f = getattr(R.fem, q), ground(getattr(g, q), blocked)
            out += mat_diff(e, f, "matrix " + q)
    return out

if __name__ == "__main__":
    sys.exit(check.main(Discrete))
