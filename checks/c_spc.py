"""Blocked and imposed degrees of freedom of each analysis."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import check, run, ref, aster, systus, cmp, menu, nas, cons
from lib.sem import *

class Base:
    def __init__(s, scheme="seq", over={}):
        b = s.b = menu.Builder(scheme)
        s.e, s.n = {}, {}
        # name -> (cp, cd, ps) of nodes changed by atoms
        s.names = {}
        for i, k in enumerate(("QU4", "HE8", "TR3")):
            pid = 2 if k in menu.SHELL else 1
            pts = b.place(k, 6.0 * i)
            ids = [b.node(*p, None, *over.get((k, j), (None, None))) for j, p in enumerate(pts)]
            e = b.eid(); b.add(menu.CARD[k], e, pid, *ids)
            s.e[k], s.n[k] = e, ids
        p = b.node(-6., 0., 0., None, *over.get(("BAR", 0), (None, None)))
        q = b.node(-3., 1., 0.5, None, *over.get(("BAR", 1), (None, None)))
        s.e["BAR"] = b.eid(); s.n["BAR"] = [p, q]
        b.add("CBAR", s.e["BAR"], 3, p, q, 0., 0., 1.)
        b.add("PSOLID", 1, 1); b.add("PSHELL", 2, 1, 0.125, 1); b.add("PBAR", 3, 1, 0.5, 0.25, 0.125, 0.0625)
        b.add("MAT1", 1, 2e11, None, 0.3, 7800.)
        b.add("CORD2R", 21, None, 1., 0., 0., 1., 0.5, 1., 2., 0.5, 0.)
        b.add("CORD2C", 22, None, 0.5, -1., 0., 0.5, -1., 2., 2., 0., 0.)
        b.add("CORD2S", 23, None, 0.5, -1., 0., 0.5, -1., 2., 2., 0., 0.)

A = {
    "s6": lambda m, S, L: [("SPC1", S, 123456, m.n["QU4"][0])],
    "s3": lambda m, S, L: [("SPC1", S, 123, *m.n["HE8"][:3])],
    "st": lambda m, S, L: [("SPC1", S, 13, m.n["QU4"][1])],
    "sr": lambda m, S, L: [("SPC1", S, 45, m.n["QU4"][1])],
    "so": lambda m, S, L: [("SPC1", S, 124, m.n["QU4"][0])],
    "sm": lambda m, S, L: [("SPC1", S, 2, m.n["QU4"][1], m.n["HE8"][2], m.n["BAR"][0])],
    "sh": lambda m, S, L: [("SPC1", S, 123456, m.n["HE8"][4])],
    "sl": lambda m, S, L: [("SPC1", S, 3, *m.n["HE8"], *m.n["TR3"])],
    "c0": lambda m, S, L: [("SPC", S, m.n["BAR"][0], 123, 0.)],
    "c2": lambda m, S, L: [("SPC", S, m.n["TR3"][0], 1, 0., m.n["TR3"][1], 26, 0.)],
    "cv": lambda m, S, L: [("SPC", S, m.n["BAR"][0], 2, 0.5)],
    "cv'": lambda m, S, L: [("SPC", S, m.n["QU4"][2], 15, -0.25)],
    "cw": lambda m, S, L: [("SPC", S, m.n["TR3"][0], 3, 0.375, m.n["TR3"][2], 6, 0.0625)],
    "d": lambda m, S, L: [("SPC1", S, 1, m.n["QU4"][2]), ("SPCD", L, m.n["QU4"][2], 1, 0.125)],
    "dv": lambda m, S, L: [("SPC", S, m.n["QU4"][2], 1, 0.375), ("SPCD", L, m.n["QU4"][2], 1, 0.125)],
    "dw": lambda m, S, L: [("SPC", S, m.n["HE8"][6], 23, 0.375, m.n["BAR"][1], 1, -0.5), ("SPCD", L, m.n["HE8"][6], 3, 0.625, m.n["BAR"][1], 1, -0.75)],
    "d2": lambda m, S, L: [("SPC1", S, 12, m.n["HE8"][5], m.n["HE8"][6]), ("SPCD", L, m.n["HE8"][5], 1, 0.125, m.n["HE8"][6], 2, 0.75)],
    "dd": lambda m, S, L: [("SPC1", S, 123, m.n["HE8"][5]), ("SPCD", L, m.n["HE8"][5], 1, 0.125, m.n["HE8"][5], 2, 0.75)],
    "dm": lambda m, S, L: [("SPC1", S, 123456, m.n["TR3"][2]), ("SPCD", L, m.n["TR3"][2], 135, 0.25)],
    "ps": lambda m, S, L: [],
    "ps2": lambda m, S, L: [],
    "cd": lambda m, S, L: [("SPC1", S, 13, m.n["QU4"][3])],
    "cdr": lambda m, S, L: [("SPC1", S, 5, m.n["QU4"][3])],
    "cdc": lambda m, S, L: [("SPC1", S, 2, m.n["HE8"][7]), ("SPC1", S, 1, m.n["BAR"][1])],
    "cds": lambda m, S, L: [("SPC", S, m.n["HE8"][3], 3, 0.)],
    "cdv": lambda m, S, L: [("SPC", S, m.n["TR3"][1], 2, 0.5)],
    "cdf": lambda m, S, L: [("SPC1", S, 123456, m.n["QU4"][3])],
    "th": lambda m, S, L: [("SPC1", S, 12, m.n["HE8"][0], "THRU", m.n["HE8"][3])],
}
OVER = {"ps": {("BAR", 1): (None, 46)}, "ps2": {("HE8", 6): (None, 13), ("TR3", 2): (None, 123456)},
        "cd": {("QU4", 3): (21, None)}, "cdr": {("QU4", 3): (21, None)}, "cdf": {("QU4", 3): (21, None)},
        "cdc": {("HE8", 7): (22, None), ("BAR", 1): (22, None)},
        "cds": {("HE8", 3): (23, None)}, "cdv": {("TR3", 1): (21, None)}}
# spherical displacement systems are announced as unsupported
SKIP = {"ASTER": {"cds"}, "SYSTUS": {"cds"}}
MODES = {
    "one": (["SPC=10", "LOAD=5"], lambda i: 10, lambda i: 5, []),
    "add": (["SPC=99", "LOAD=5"], lambda i: 10 + 10 * (i % 2), lambda i: 5, [("SPCADD", 99, 10, 20)]),
    "sub": (["SUBCASE 1", "SPC=10", "LOAD=5", "SUBCASE 2", "SPC=20", "LOAD=6"], lambda i: 10 + 10 * (i % 2), lambda i: 5 + i % 2, []),
    "same": (["SPC=10", "SUBCASE 1", "LOAD=5", "SUBCASE 2", "LOAD=6"], lambda i: 10, lambda i: 5 + i % 2, []),
    "over": (["SPC=10", "LOAD=5", "SUBCASE 3", "SPC=20", "SUBCASE 4", "LOAD=6"], lambda i: 10 + 10 * (i % 2), lambda i: 5 + i % 2, []),
    "both": (["LOAD=5", "SUBCASE 1", "SPC=10", "SUBCASE 2", "SPC=99"], lambda i: 10 + 10 * (i % 2), lambda i: 5, [("SPCADD", 99, 20, 10)]),
}

class Spc(check.Check):
    pid = "C07"
    rule = "every set of constraint cards up to the depth, spread over one or two sets, added by SPCADD or selected by subcases"
    def cases(self):
        out = []
        for tgt in ("ASTER", "SYSTUS"):
            names = [a for a in A if a not in SKIP[tgt]]
            depth = 2 if self.tier == "quick" else 3
            for s in self.space.subsets(names, depth):
                if not s:
                    continue
                for mode in MODES:
                    if len(s) == 3 and mode in ("both", "over"):
                        continue
                    for sch in (("seq", "gap") if len(s) < 3 else ("seq",)):
                        if sch != "seq" and "th" in s:
                            continue
                        out.append(("%s %s %s %s" % (tgt, mode, "+".join(s), sch), (tgt, mode, s, sch)))
        return out
    def deck(self, p):
        tgt, mode, s, sch = p
        over = {}
        for a in s:
            for k, (cd, ps) in OVER.get(a, {}).items():
                o = over.get(k, (None, None))
                over[k] = (cd or o[0], ps or o[1])
        m = Base(sch, over)
        case, sid, lid, extra = MODES[mode]
        cards, used = [], set()
        for i, a in enumerate(s):
            c = A[a](m, sid(i), lid(i))
            cards += c
            used |= {x[1] for x in c if x[0] in ("SPC", "SPC1")}
        for S in (10, 20):
            if S not in used and (S == 10 or mode not in ("one", "same")):
                cards.append(("SPC1", S, 123, m.n["TR3"][2]))
        for L in (5, 6):
            cards.append(("FORCE", L, m.n["HE8"][1], 0, 1., 0., float(L), 0.))
        return m.b.deck(101, case, cards + extra)
    def describe(self, p):
        return self.deck(p).render()
    def judge(self, p):
        d = self.deck(p)
        R = ref.interpret(d)
        for a in R.fem.analyses:
            if conflict(a.rows) or not legal(R, a):
                return [], 0
        r = run.translate(d.render("free"), p[0])
        if not r.ok:
            return ["translation ended with %s" % (r.status,)], 1
        return judge(R, r, p[0]), 1

def legal(R, a):
    """no component with two values, and enforced displacements on components that the analysis constrains"""
    raw = (R.spc_rows(int(a.par["SPC"])) if "SPC" in a.par else []) + R.common_rows()[0]
    single = {next(iter(cf)) for cf, r in raw if len(cf) == 1}
    return not conflict(raw) and all(k in single for k in a.load.imposed)

def conflict(rows):
    """the same combination imposed to two values: no meaning"""
    cols = sorted({c for cf, _ in rows for c in cf}, key=str)
    M = rowspace(rows, cols)
    return any(not np.any(np.abs(x[:-1]) > 1e-9) and abs(x[-1]) > 1e-9 for x in M)

def judge(R, r, tgt):
    out = []
    rot, tr = cons.live(R)
    exists = lambda k: k[0] in tr and (not k[1].startswith("DR") or k[0] in rot)
    if tgt == "ASTER":
        g = aster.read(r, key=cmp.keyer(R))
        out += list(g.errors)
        if len(g.solves) != len(R.fem.analyses):
            return out + ["%d solution commands, expected %d" % (len(g.solves), len(R.fem.analyses))]
        for i, a in enumerate(R.fem.analyses):
            what = "analysis %s" % a.id
            o, rows, rbe3 = cons.aster_cons(R, g, i, what)
            out += o + cons.affine(a.rows, rows, what, exists) + cons.free_extra(R, g, rows, what)
            L = cmp.aster_solve(g, i)[0]
            out += cmp.load_diff(a.load, L, what)
        return out
    cs, errs = cons.systus_cases(r)
    out += errs
    if len(cs) != len(R.fem.analyses):
        return out + ["%d load cases, expected %d" % (len(cs), len(R.fem.analyses))]
    for a, (n, g, i, l) in zip(R.fem.analyses, cs):
        what = "analysis %s" % a.id
        out += cons.affine(a.rows, cons.systus_rows(g, l), what, exists)
        out += cmp.load_diff(a.load, l, what)
    return out

if __name__ == "__main__":
    sys.exit(check.main(Spc))
