"""Loads of each analysis."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import check, run, ref, aster, systus, cmp, menu, nas
from lib.sem import *

class Base:
    """one element of each kind, all apart; nodes addressable by name"""
    def __init__(s, scheme="seq", flip=False):
        b = s.b = menu.Builder(scheme)
        s.e, s.n = {}, {}
        for i, k in enumerate(("QU4", "TR3", "HE8", "TE4", "PE6", "H20")):
            pid = 2 if k in menu.SHELL else 1
            e, ids = b.element(k, pid, 6.0 * i)
            s.e[k], s.n[k] = e, ids
        p, q = b.node(-6., 0., 0.), b.node(-3., 1., 0.5)
        if flip: p, q = q, p
        s.e["BAR"] = b.eid(); s.n["BAR"] = [p, q]
        b.add("CBAR", s.e["BAR"], 3, p, q, 0., 0., 1.)
        p2, q2 = b.node(-6., 5., 0.), b.node(-9., 6., 0.)     # against X
        s.e["BAR2"] = b.eid(); s.n["BAR2"] = [p2, q2]
        b.add("CBAR", s.e["BAR2"], 3, p2, q2, 1., 0., 0.5)
        b.add("PSOLID", 1, 1); b.add("PSHELL", 2, 1, 0.125); b.add("PBAR", 3, 1, 0.5, 0.25, 0.125, 0.0625)
        b.add("MAT1", 1, 2e11, None, 0.3, 7800.)
        b.add("SPC1", 1, 123456, p)
        b.add("CORD2R", 21, None, 1., 0., 0., 1., 0.5, 1., 2., 0.5, 0.)
        b.add("CORD2C", 22, None, 0.5, -1., 0., 0.5, -1., 2., 2., 0., 0.)
    def other(s, k):
        """element of another kind, only there when a load needs it"""
        if k not in s.e:
            s.e[k], s.n[k] = s.b.element(k, 2 if k in menu.SHELL else 1, 6.0 * len(s.e))
        return s.e[k], s.n[k]

def f_(n, i, S, sc, v, cid=0, nm="FORCE"):
    return lambda m: [(nm, S, m.n[n][i], cid, sc, *v)]

def atoms():
    A = {}
    def a(name, fn): A[name] = fn
    a("F", lambda m, S: [("FORCE", S, m.n["HE8"][2], 0, 2., 1., 2., 3.)])
    a("F'", lambda m, S: [("FORCE", S, m.n["HE8"][2], 0, 3., 0., -1., 0.5)])
    a("F.q", lambda m, S: [("FORCE", S, m.n["QU4"][1], None, 4., 0., 0., 1.)])
    a("F.d", lambda m, S: [("FORCE", S, m.n["HE8"][k], 0, 1.5, 1., 0., 0.) for k in (0, 5)])
    a("FR", lambda m, S: [("FORCE", S, m.n["QU4"][2], 21, 2., 1., 2., 4.)])
    a("FC", lambda m, S: [("FORCE", S, m.n["QU4"][3], 22, 2., 1., 2., 4.)])
    a("M", lambda m, S: [("MOMENT", S, m.n["QU4"][1], 0, 2., 1., 2., 3.)])
    a("MR", lambda m, S: [("MOMENT", S, m.n["BAR"][1], 21, 2., 1., 2., 3.)])
    a("F1", lambda m, S: [("FORCE1", S, m.n["HE8"][2], 5., m.n["HE8"][0], m.n["HE8"][6])])
    a("F2", lambda m, S: [("FORCE2", S, m.n["HE8"][3], 5., m.n["HE8"][0], m.n["HE8"][1], m.n["HE8"][0], m.n["HE8"][3])])
    a("PL4", lambda m, S: [("PLOAD", S, 3., *m.n["HE8"][:4])])
    a("PL3", lambda m, S: [("PLOAD", S, 2., *m.n["TR3"])])
    a("P2", lambda m, S: [("PLOAD2", S, 2.5, m.e["QU4"])])
    a("P2'", lambda m, S: [("PLOAD2", S, 1.5, m.e["TR3"])])
    a("P2l", lambda m, S: [("PLOAD2", S, 0.5, m.e["QU4"], m.e["TR3"])])
    a("P4s", lambda m, S: [("PLOAD4", S, m.e["QU4"], 7.)])
    a("P4s'", lambda m, S: [("PLOAD4", S, m.e["TR3"], -7.)])
    a("P4h", lambda m, S: [("PLOAD4", S, m.e["HE8"], 6., None, None, None, m.n["HE8"][4], m.n["HE8"][6])])
    a("P4h'", lambda m, S: [("PLOAD4", S, m.e["HE8"], 8., None, None, None, m.n["HE8"][1], m.n["HE8"][6])])
    a("P4t", lambda m, S: [("PLOAD4", S, m.e["TE4"], 5., None, None, None, m.n["TE4"][0], m.n["TE4"][3])])
    a("P4t'", lambda m, S: [("PLOAD4", S, m.e["TE4"], 5.5, None, None, None, m.n["TE4"][1], m.n["TE4"][0])])
    a("P4p3", lambda m, S: [("PLOAD4", S, m.e["PE6"], 4., None, None, None, m.n["PE6"][0])])
    a("P4p4", lambda m, S: [("PLOAD4", S, m.e["PE6"], 4.5, None, None, None, m.n["PE6"][0], m.n["PE6"][4])])
    a("P4q", lambda m, S: [("PLOAD4", S, m.e["H20"], 3.5, None, None, None, m.n["H20"][0], m.n["H20"][2])])
    a("P4v", lambda m, S: [("PLOAD4", S, m.e["HE8"], 2., None, None, None, m.n["HE8"][0], m.n["HE8"][2], 0, 1., 2., 2.)])
    a("P4vs", lambda m, S: [("PLOAD4", S, m.e["QU4"], 2., None, None, None, None, None, 0, 2., 0., 1.)])
    a("P4v'", lambda m, S: [("PLOAD4", S, m.e["HE8"], 3., None, None, None, m.n["HE8"][0], m.n["HE8"][2], 0, 0., -1., 0.)])
    a("P4vs'", lambda m, S: [("PLOAD4", S, m.e["QU4"], -1., None, None, None, None, None, 0, 1., 1., 0.)])
    a("P4vR", lambda m, S: [("PLOAD4", S, m.e["HE8"], 3., None, None, None, m.n["HE8"][0], m.n["HE8"][5], 21, 1., 0., 0.)])
    a("P1y", lambda m, S: [("PLOAD1", S, m.e["BAR"], "FY", "FR", 0., 3., 1., 3.)])
    a("P1z", lambda m, S: [("PLOAD1", S, m.e["BAR"], "FZ", "FR", 0., -2., 1., -2.)])
    a("P1v", lambda m, S: [("PLOAD1", S, m.e["BAR"], "FY", "FR", 0., 1., 1., 5.)])
    a("P1p", lambda m, S: [("PLOAD1", S, m.e["BAR"], "FZ", "FR", 0.25, 2., 0.75, 4.)])
    a("P1L", lambda m, S: [("PLOAD1", S, m.e["BAR"], "FX", "LE", 0.5, 2., 1.5, 3.)])
    a("P1L'", lambda m, S: [("PLOAD1", S, m.e["BAR"], "FX", "LE", 0., 2., 3.201562118716, 2.)])
    a("P1b", lambda m, S: [("PLOAD1", S, m.e["BAR2"], "FY", "FR", 0., 1., 1., 5.)])
    a("G", lambda m, S: [("GRAV", S, None, 9.81, 0., 0., -1.)])
    a("G'", lambda m, S: [("GRAV", S, 0, 2., 0.5, 0., 1.)])
    a("GR", lambda m, S: [("GRAV", S, 21, 4., 1., 0.5, 0.)])
    a("R", lambda m, S: [("RFORCE", S, m.n["HE8"][0], 0, 0.5, 0., 0., 1.)])
    a("R0", lambda m, S: [("RFORCE", S, 0, 0, 0.25, 1., 1., 0.)])
    def face(k, p, i, j=None):
        def fn(m, S):
            e, n = m.other(k)
            return [("PLOAD4", S, e, p, None, None, None, n[i], None if j is None else n[j])]
        return fn
    for k, faces in (("PY5", ((0, 2), (1, 3), (0, None), (2, None))), ("P13", ((0, 2), (0, None))), ("T10", ((0, 3), (2, 0))), ("P15", ((0, None), (3, None), (0, 4), (5, 1))), ("PE6", ((3, None), (1, 5), (5, 0))),
                     ("HE8", ((0, 2), (2, 7), (3, 4), (0, 5))), ("TE4", ((0, 1), (3, 2))), ("H20", ((4, 6), (1, 6), (3, 6), (0, 7), (5, 0)))):
        for i, j in faces:
            if k == "P13" or j is None and k == "PY5": continue   # triangles of pyramids: no fourth corner to name them
            a("%s.%s%s" % (k, i, "" if j is None else j), face(k, 2.25, i, j))
    for k in ("QU8", "TR6"):
        a("P4" + k, lambda m, S, k=k: [("PLOAD4", S, m.other(k)[0], 1.75)])
        a("P2" + k, lambda m, S, k=k: [("PLOAD2", S, 1.25, m.other(k)[0])])
    a("P4vQ8", lambda m, S: [("PLOAD4", S, m.other("QU8")[0], 2., None, None, None, None, None, 0, 2., 0., 1.)])
    a("P4vT10", lambda m, S: [("PLOAD4", S, m.other("T10")[0], 2., None, None, None, m.other("T10")[1][0], m.other("T10")[1][3], 0, 2., 0., 1.)])
    a("PLp", lambda m, S: [("PLOAD", S, 3., *[m.n["PE6"][i] for i in (0, 1, 4, 3)])])
    a("PLt", lambda m, S: [("PLOAD", S, 3., *[m.n["TE4"][i] for i in (0, 2, 1)])])
    a("PLt'", lambda m, S: [("PLOAD", S, 3., *[m.n["TE4"][i] for i in (1, 2, 3)])])
    a("MC", lambda m, S: [("MOMENT", S, m.n["QU4"][3], 22, 2., 1., 2., 4.)])
    a("FCx", lambda m, S: [("FORCE", S, m.n["HE8"][6], 22, 2., 1., 2., 4.)])
    a("F1'", lambda m, S: [("FORCE1", S, m.n["QU4"][2], -2., m.n["QU4"][1], m.n["HE8"][6])])
    a("F2'", lambda m, S: [("FORCE2", S, m.n["QU4"][2], -2., m.n["QU4"][1], m.n["HE8"][6], m.n["QU4"][0], m.n["TE4"][3])])
    a("F0", lambda m, S: [("FORCE", S, m.n["HE8"][1], 0, 2., 1., 0., 0.), ("FORCE", S, m.n["HE8"][1], 0, -2., 1., 0., 0.)])
    a("Rr", lambda m, S: [("RFORCE", S, m.n["HE8"][1], 0, 0.5, 0., 3., 4.)])
    a("G0", lambda m, S: [("GRAV", S, None, 0., 0., 0., -1.)])
    return A

BASIC = set("F F' F.q F.d FR FC M MR F1 F2 PL4 PL3 P2 P2' P2l P4s P4s' P4h P4h' P4t P4t' P4p3 P4p4 P4q P4v P4vs P4v' P4vs' P4vR P1y P1z P1v P1p P1L P1L' P1b G G' GR R R0 P2t P4r".split())
A = atoms()
THRU = {"P2t": lambda m, S: [("PLOAD2", S, 0.75, m.e["QU4"], "THRU", m.e["TR3"])],
        "P4r": lambda m, S: [("PLOAD4", S, m.e["QU4"], 1.25, None, None, None, "THRU", m.e["TR3"])]}
A.update(THRU)
# features a target announces as unsupported (message and non-zero exit, or a warning naming the loss)
SKIP = {"SYSTUS": set("R Rr R0 P1y P1z P1v P1p P1L P1L' P1b GR P4vR".split()), "ASTER": set("GR P4vR".split())}

MODES = {
    # name -> (case control, set of each position, extra cards)
    "one": (["SPC=1", "LOAD=10"], lambda i: 10, []),
    "comb": (["SPC=1", "LOAD=99"], lambda i: 10 + 10 * (i % 2), [("LOAD", 99, 2., 1.5, 10, -0.5, 20)]),
    "sub": (["SPC=1", "SUBCASE 1", "LOAD=10", "SUBCASE 2", "LOAD=20"], lambda i: 10 + 10 * (i % 2), []),
    "subr": (["SPC=1", "SUBCASE 3", "LOAD=20", "SUBCASE 5", "LOAD=10"], lambda i: 10 + 10 * (i % 2), []),
    "both": (["SPC=1", "SUBCASE 1", "LOAD=10", "SUBCASE 2", "LOAD=99"], lambda i: 10 + 10 * (i % 2), [("LOAD", 99, 1., 2., 10, 3., 20)]),
}

class Loads(check.Check):
    pid = "C06"
    rule = "every set of load cards up to the depth, spread over one or two load sets, combined by LOAD or selected by subcases"
    def cases(self):
        out = []
        for tgt in ("ASTER", "SYSTUS"):
            names = [a for a in A if a not in SKIP[tgt]]
            depth = 2 if self.tier == "quick" else 3
            for s in self.space.subsets(names, depth):
                if not s or self.tier == "quick" and len(s) > 1 and not BASIC >= set(s):
                    continue
                for mode in MODES:
                    if len(s) == 1 and mode in ("subr",):
                        continue
                    if len(s) == 3 and mode in ("subr", "both"):
                        continue
                    for sch in (("seq",) if len(s) > 1 else ("seq", "gap", "rev")):
                        if sch == "rev" and set(s) & set(THRU): continue
                        if sch == "gap" and set(s) & set(THRU): continue
                        out.append(("%s %s %s %s" % (tgt, mode, "+".join(s), sch), (tgt, mode, s, sch)))
        return out
    def deck(self, p):
        tgt, mode, s, sch = p
        m = Base(sch)
        case, sid, extra = MODES[mode]
        cards = []
        used = set()
        for i, a in enumerate(s):
            cards += A[a](m, sid(i)); used.add(sid(i))
        # sets named by the case control must exist
        for S in (10, 20):
            if S not in used and (mode != "one"):
                cards.append(("FORCE", S, m.n["TE4"][1], 0, 1., 0., 1., 0.))
        return m.b.deck(101, case, cards + extra)
    def describe(self, p):
        return self.deck(p).render()
    def judge(self, p):
        d = self.deck(p)
        R = ref.interpret(d)
        r = run.translate(d.render("free"), p[0])
        if not r.ok:
            return ["translation ended with %s" % (r.status,)], 1
        return judge_loads(R, r, p[0]), 1

def judge_loads(R, r, tgt):
    out = []
    if tgt == "ASTER":
        g = aster.read(r, key=cmp.keyer(R))
        out += list(g.errors)
        if len(g.solves) != len(R.fem.analyses):
            return out + ["%d solution commands, expected %d" % (len(g.solves), len(R.fem.analyses))]
        for i, a in enumerate(R.fem.analyses):
            L, rows, rbe3 = cmp.aster_solve(g, i)
            out += cmp.load_diff(a.load, L, "analysis %s" % a.id)
            out += line_aster(R, g, a.load, L, "analysis %s" % a.id)
            out += ["analysis %s: unexpected %s" % (a.id, o) for o in L.other]
        return out
    lcs = []
    for n, g in systus.read_all(r):
        out += g.errors
        lcs += [(g, l) for l in g.lc.values()]
    exp = [a for a in R.fem.analyses]
    if len(lcs) != len(exp):
        return out + ["%d load cases, expected %d" % (len(lcs), len(exp))]
    for a, (g, l) in zip(exp, lcs):
        out += cmp.load_diff(a.load, l, "analysis %s" % a.id)
    return out

def line_at(l, x, length):
    """value of a PLOAD1 at fraction x"""
    eid, typ, scale, x1, p1, x2, p2 = l
    if scale == "LE":
        x1, x2 = x1 / length, x2 / length
    if x < x1 or x > x2:
        return 0.0
    return p1 + (p2 - p1) * (x - x1) / (x2 - x1)

KW = {"FX": 0, "FY": 1, "FZ": 2, "MX": 3, "MY": 4, "MZ": 5}

def line_aster(R, g, e, L, what):
    exp, got = {}, {}
    cell = {frozenset(c.nodes): c for c in R.fem.cells if c.kind == "SE2"}
    ts = (0.03, 0.27, 0.5, 0.73, 0.97)
    for l in e.line:
        c = R.cell[l[0]]
        ln = float(np.linalg.norm(R.xyz[c.nodes[1]] - R.xyz[c.nodes[0]]))
        for t in ts:
            v = line_at(l, t, ln)
            k = (c.id, l[1], t)
            exp[k] = exp.get(k, 0.0) + v
    for gc, kw, fn in L.line:
        c = cell.get(frozenset(gc.nodes))
        if c is None:
            return ["%s: line load on another element" % what]
        a, b = R.xyz[c.nodes[0]], R.xyz[c.nodes[1]]
        for t in ts:
            pt = a + t * (b - a)
            if fn[0] == "const":
                v = fn[1]
            elif fn[0] == "table":
                x = {"X": pt[0], "Y": pt[1], "Z": pt[2]}.get(fn[1])
                if x is None:
                    return ["%s: line load as a function of %s" % (what, fn[1])]
                pts = fn[2]
                lo, hi = min(a[0], b[0]), max(a[0], b[0])
                if (fn[3] == "EXCLU" and pts[0][0] > lo + 1e-9) or (fn[4] == "EXCLU" and pts[-1][0] < hi - 1e-9):
                    return ["%s: function defined on [%s, %s] for an element between %s and %s" % (what, pts[0][0], pts[-1][0], lo, hi)]
                v = float(np.interp(x, [q[0] for q in pts], [q[1] for q in pts]))
            else:
                return ["%s: line load %s" % (what, fn)]
            k = (c.id, kw, t)
            got[k] = got.get(k, 0.0) + v
    return dict_diff(exp, got, what + " line load", 1e-4)

if __name__ == "__main__":
    sys.exit(check.main(Loads))
