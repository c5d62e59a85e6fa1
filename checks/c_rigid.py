"""Rigid bodies, averages and linear relations of each analysis."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import check, run, ref, aster, systus, cmp, menu, nas, cons
from lib.sem import *

class Base:
    def __init__(s, scheme="seq", over={}, solid=False):
        b = s.b = menu.Builder(scheme)
        s.e, s.n = {}, {}
        for i, name in enumerate(("QU4", "HE8", "TR3", "TE4")):
            k = {"QU4": "PY5", "TR3": "PE6"}.get(name, name) if solid else name
            pid = 2 if k in menu.SHELL else 1
            pts = b.place(k, 6.0 * i)
            ids = [b.node(*p, None, *over.get((name, j), (None, None))) for j, p in enumerate(pts)]
            e = b.eid(); b.add(menu.CARD[k], e, pid, *ids)
            s.e[name], s.n[name] = e, ids[:{"QU4": 4, "TR3": 3}.get(name, 8)]
        p = b.node(-6., 0., 0.)
        q = b.node(-3., 1., 0.5)
        s.e["BAR"] = b.eid(); s.n["BAR"] = [p, q]
        if solid:
            b.add("CROD", s.e["BAR"], 3, p, q); b.add("PROD", 3, 1, 0.5)
        else:
            b.add("CBAR", s.e["BAR"], 3, p, q, 0., 0., 1.)
            b.add("PSHELL", 2, 1, 0.125, 1); b.add("PBAR", 3, 1, 0.5, 0.25, 0.125, 0.0625)
        b.add("PSOLID", 1, 1)
        b.add("MAT1", 1, 2e11, None, 0.3, 7800.)
        b.add("CORD2R", 21, None, 1., 0., 0., 1., 0.5, 1., 2., 0.5, 0.)
        b.add("CORD2C", 22, None, 0.5, -1., 0., 0.5, -1., 2., 2., 0., 0.)
        s.free = {}
    def f(s, name):
        """node without element"""
        if name not in s.free:
            s.free[name] = s.b.node(*{"M": (7.5, 0.75, 3.), "N": (13.25, -1.5, 0.5), "P": (2., 4., 1.)}[name])
        return s.free[name]

# atom -> (model, MPC set, load set) -> cards
A = {
    "r2f": lambda m, S, L: [("RBE2", m.b.eid(), m.f("M"), 123456, *m.n["HE8"][4:8])],
    "r2t": lambda m, S, L: [("RBE2", m.b.eid(), m.f("M"), 123, *m.n["HE8"][4:7])],
    "r2s": lambda m, S, L: [("RBE2", m.b.eid(), m.n["BAR"][1], 123456, m.n["QU4"][0], m.n["QU4"][3])],
    "r2p": lambda m, S, L: [("RBE2", m.b.eid(), m.n["QU4"][1], 126, m.n["TR3"][0], m.n["TR3"][2])],
    "r2q": lambda m, S, L: [("RBE2", m.b.eid(), m.n["QU4"][2], 3, m.n["HE8"][0])],
    "r2c": lambda m, S, L: [("RBE2", m.b.eid(), m.n["HE8"][4], 123456, m.n["TE4"][0], m.n["TE4"][1])],
    "r2m": lambda m, S, L: [("RBE2", m.b.eid(), m.f("M"), 123456, *m.n["TR3"])],
    "r2d": lambda m, S, L: [("RBE2", m.b.eid(), m.n["HE8"][1], 123, m.n["TE4"][0], m.n["TE4"][2])],
    "r2n": lambda m, S, L: [("RBE2", m.b.eid(), m.n["HE8"][1], 123456, m.n["QU4"][1])],
    "r2L": lambda m, S, L: [("RBE2", m.b.eid(), m.f("P"), 123456, *m.n["HE8"][:4], *m.n["TR3"], *m.n["TE4"], *m.n["QU4"])],
    "r3": lambda m, S, L: [("RBE3", m.b.eid(), None, m.f("N"), 123456, 1.0, 123, *m.n["TE4"])],
    "r3b": lambda m, S, L: [("RBE3", m.b.eid(), None, m.f("N"), 123, 1.0, 123, m.n["QU4"][0], m.n["QU4"][1], 2.5, 123, m.n["QU4"][2], m.n["HE8"][2])],
    "r3c": lambda m, S, L: [("RBE3", m.b.eid(), None, m.f("P"), 123456, 0.5, 123456, *m.n["QU4"])],
    "r3d": lambda m, S, L: [("RBE3", m.b.eid(), None, m.f("P"), 12, 0.5, 12, m.n["QU4"][0], m.n["QU4"][2], 0.25, 3, m.n["TR3"][0], m.n["TR3"][1], 0.5, 13, m.n["HE8"][3])],
    "r3e": lambda m, S, L: [("RBE3", m.b.eid(), None, m.n["BAR"][0], 123, 1.0, 123, *m.n["TR3"])],
    "rb": lambda m, S, L: [("RBAR", m.b.eid(), m.n["QU4"][2], m.n["TR3"][1], 123456)],
    "rbn": lambda m, S, L: [("RBAR", m.b.eid(), m.n["BAR"][0], m.n["QU4"][3], None, 123456)],
    "rbs": lambda m, S, L: [("RBAR", m.b.eid(), m.n["HE8"][6], m.n["TE4"][3], 123456)],
    "rbf": lambda m, S, L: [("RBAR", m.b.eid(), m.n["QU4"][2], m.f("M"), 123456)],
    "rb1": lambda m, S, L: [("RBAR1", m.b.eid(), m.n["TR3"][0], m.n["QU4"][1], 123456)],
    "rb1s": lambda m, S, L: [("RBAR1", m.b.eid(), m.n["TR3"][2], m.n["HE8"][5], 123)],
    "rb1d": lambda m, S, L: [("RBAR1", m.b.eid(), m.n["QU4"][3], m.n["TR3"][0])],
    "cr": lambda m, S, L: [("CRIGD1", m.b.eid(), None, m.n["BAR"][1], m.n["QU4"][1], m.n["TR3"][2])],
    "crf": lambda m, S, L: [("CRIGD1", m.b.eid(), None, m.f("M"), *m.n["QU4"])],
    "m2": lambda m, S, L: [("MPC", S, m.n["HE8"][1], 1, 1., m.n["TR3"][0], 1, -1.)],
    "m3": lambda m, S, L: [("MPC", S, m.n["QU4"][1], 3, 1., m.n["TR3"][1], 3, -0.5, None, None, m.n["HE8"][0], 2, 0.25)],
    "m4": lambda m, S, L: [("MPC", S, m.n["TE4"][0], 1, 2., m.n["TE4"][1], 2, -1., None, None, m.n["TE4"][2], 3, 0.5, m.n["BAR"][1], 5, 3.)],
    "m5": lambda m, S, L: [("MPC", S, m.n["TE4"][3], 1, 2., m.n["TE4"][1], 2, -1., None, None, m.n["TE4"][2], 3, 0.5, m.n["BAR"][1], 6, 3.,
                            None, None, m.n["HE8"][7], 3, -0.125)],
    "mw": lambda m, S, L: [("MPC", S, m.n["HE8"][1], d, 1., m.n["TR3"][0], d, -1.) for d in (1, 2, 3)],
    "mx": lambda m, S, L: [("MPC", S, m.n["QU4"][1], d, 1., m.n["BAR"][0], d, -1.) for d in (1, 2, 3, 4, 5, 6)],
    "ms": lambda m, S, L: [("MPC", S, m.n["HE8"][2], 1, 1., m.n["HE8"][2], 2, -2., None, None, m.n["HE8"][3], 1, 0.5)],
    "mr": lambda m, S, L: [("MPC", S, m.n["QU4"][0], 4, 1., m.n["BAR"][1], 5, -2.)],
    "mcd": lambda m, S, L: [("MPC", S, m.n["TR3"][1], 1, 1., m.n["QU4"][0], 2, -2.)],
    "mcc": lambda m, S, L: [("MPC", S, m.n["TE4"][1], 1, 1., m.n["QU4"][0], 3, -2.)],
    "m0": lambda m, S, L: [("MPC", S, m.n["HE8"][3], 1, 1., m.n["TR3"][0], 2, -1., None, None, m.n["TR3"][2], 2, 1.)],
    "mS": lambda m, S, L: [("MPC", S, m.n["HE8"][1], 1, 1., m.n["TR3"][0], 1, -1.), ("MPC", S, m.n["HE8"][2], 1, 1., m.n["TR3"][1], 1, -1.)],
    "fm": lambda m, S, L: [("FORCE", L, m.f("M"), 0, 1., 5., 6., 7.)],
    "mm": lambda m, S, L: [("MOMENT", L, m.f("M"), 0, 1., 5., 6., 7.)],
    "sp": lambda m, S, L: [("SPC1", 10, 123456, m.n["QU4"][2])],
    "sM": lambda m, S, L: [("SPC1", 10, 246, m.f("M"))],
    "sMf": lambda m, S, L: [("SPC1", 10, 123456, m.f("M"))],
    "sH": lambda m, S, L: [("SPC1", 10, 12, m.n["HE8"][2], m.n["TE4"][1])],
}
OVER = {"mcd": {("TR3", 1): (21, None)}, "mcc": {("TE4", 1): (22, None)}}
SKIP = {"ASTER": set(), "SYSTUS": set()}
MODES = {
    "one": (["SPC=10", "MPC=30", "LOAD=5"], lambda i: 30, lambda i: 5, []),
    "sub": (["SPC=10", "SUBCASE 1", "MPC=30", "LOAD=5", "SUBCASE 2", "MPC=40", "LOAD=6"], lambda i: 30 + 10 * (i % 2), lambda i: 5 + i % 2, []),
    "over": (["SPC=10", "MPC=30", "LOAD=5", "SUBCASE 3", "MPC=40", "SUBCASE 4", "LOAD=6"], lambda i: 30 + 10 * (i % 2), lambda i: 5 + i % 2, []),
}
# atoms that need rotations of elements
ROTATE = {"r2p", "r3c", "m4", "m5", "mx", "mr", "r2q"}
# (options, model without rotations)
VARIANTS = {"ASTER": {"": ((), False), "asMPC": (("--convertCompletelyRigidsIntoMPCs", "true"), False), "solid": ((), True)},
            "SYSTUS": {"": ((), False), "lagrangian": (("--systus.RBE2TranslationMode", "lagrangian"), False), "solid": ((), True),
                       "solid lagrangian": (("--systus.RBE2TranslationMode", "lagrangian"), True)}}

class Rigid(check.Check):
    pid = "C08"
    rule = "every set of rigid bodies, averages, relations, and loads and blocks of their nodes up to the depth, spread over one or two sets, added by MPCADD or selected by subcases"
    def cases(self):
        out = []
        for tgt in ("ASTER", "SYSTUS"):
            names = [a for a in A if a not in SKIP[tgt]]
            depth = 2 if self.tier == "quick" else 3
            for s in self.space.subsets(names, depth):
                if not s:
                    continue
                mpc = sum(1 for a in s if a.startswith("m"))
                for var, (opts, solid) in VARIANTS[tgt].items():
                    if solid and ROTATE & set(s):
                        continue
                    for mode in (MODES if mpc else ("one",)):
                        if len(s) == 3 and (mode == "over" or var not in ("", "solid")) or var and mode not in ("one", "sub"):
                            continue
                        for sch in (("seq", "rev") if len(s) < 2 else ("seq",)):
                            out.append((" ".join(x for x in (tgt, var, mode, "+".join(s), sch) if x), (tgt, mode, s, sch, opts, solid)))
        return out
    def deck(self, p):
        tgt, mode, s, sch, opts, solid = p
        over = {}
        for a in s:
            over.update(OVER.get(a, {}))
        m = Base(sch, over, solid)
        case, sid, lid, extra = MODES[mode]
        cards, used = [], set()
        for i, a in enumerate(s):
            c = A[a](m, sid(i), lid(i))
            cards += c
            used |= {x[1] for x in c if x[0] == "MPC"}
        for S in (30, 40):
            if S not in used and (S == 30 or mode != "one"):
                cards.append(("MPC", S, m.n["TE4"][3], 1, 1., m.n["TR3"][2], 3, -1.))
        cards.append(("SPC1", 10, 12, m.n["BAR"][0]))
        for L in (5, 6):
            cards.append(("FORCE", L, m.n["HE8"][1], 0, 1., 0., float(L), 0.))
        return m.b.deck(101, case, cards + extra)
    def describe(self, p):
        return self.deck(p).render()
    def judge(self, p):
        d = self.deck(p)
        R = ref.interpret(d)
        for a in R.fem.analyses:
            if not independent(a.rows, a.rbe3) or not loaded(R, a):
                return [], 0
        r = run.translate(d.render("free"), p[0], p[4])
        if not r.ok:
            return ["translation ended with %s" % (r.status,)], 1
        return judge(R, r, p[0]), 1

def independent(rows, rbe3):
    """no redundant equation, no component made dependent twice"""
    rows = rows + [({(m, d): 1.0}, 0.0) for m, ds, sl in rbe3 for d in ds]
    cols = sorted({c for cf, _ in rows for c in cf}, key=str)
    return len(rowspace(rows, cols)) == len(rows)

def loaded(R, a):
    """loads act on something that resists"""
    rot, tr = cons.live(R)
    tied = {k for cf, r in a.rows if len(cf) > 1 for k in cf} | {(m, d) for m, ds, sl in a.rbe3 for d in ds}
    return all((k[0] in (rot if k[1].startswith("DR") else tr)) or k in tied for k in a.load.nodal)

def rbe3_diff(R, exp, got, what, isdead):
    def canon(l):
        return sorted([(str(m), sorted(ds), sorted((str(n), sorted(d for d in dd if not isdead((n, d))), round(c, 9)) for n, (dd, c) in sl.items())) for m, ds, sl in l])
    a, b = canon(exp), canon(got)
    return [] if a == b else ["%s: averages %s, expected %s" % (what, b, a)]

def judge(R, r, tgt):
    out = []
    rot, tr = cons.live(R)
    if tgt == "ASTER":
        g = aster.read(r, key=cmp.keyer(R))
        out += list(g.errors)
        if len(g.solves) != len(R.fem.analyses):
            return out + ["%d solution commands, expected %d" % (len(g.solves), len(R.fem.analyses))]
        got = []
        for i, a in enumerate(R.fem.analyses):
            what = "analysis %s" % a.id
            o, rows, rbe3 = cons.aster_cons(R, g, i, what)
            ex = aster.dofs(g)
            L = cmp.aster_solve(g, i)[0]
            o += ["%s: load on %s, which does not exist in the model" % (what, k) for k in L.nodal if k not in ex]
            for m, ds, sl in rbe3:
                o += ["%s: average of %s %s, which does not exist in the model" % (what, n, d) for n, d in [(m, d) for d in ds] + [(n, d) for n in sl for d in sl[n][0]] if (n, d) not in ex]
            o += cons.free_extra(R, g, rows + [({(m, d): 1.0}, 0.) for m, ds, sl in rbe3 for d in ds], what)
            if not independent(rows, rbe3):
                o.append("%s: redundant equations make the system singular" % what)
            out += o
            got.append((L, rows, rbe3))
    else:
        cs, errs = cons.systus_cases(r)
        out += errs
        if len(cs) != len(R.fem.analyses):
            return out + ["%d load cases, expected %d" % (len(cs), len(R.fem.analyses))]
        got = [(cons.systus_load(g, l),) + cons.systus_all_rows(g, l) for (n, g, i, l) in cs]
    for i, (a, (L, rows, rbe3)) in enumerate(zip(R.fem.analyses, got)):
        what = "analysis %s" % a.id
        if tgt == "SYSTUS" and not rot:
            find = couples(a.rows)
            L.nodal, a.load.nodal = merged(L.nodal, find), merged(a.load.nodal, find)
            rows, a.rows = ([(merged(cf, find), r) for cf, r in x] for x in (rows, a.rows))
        avg = {(m, d) for m, ds, sl in a.rbe3 for d in ds}
        isdead = lambda k: not (k[0] in (rot if k[1].startswith("DR") else tr) or k in a.load.nodal or k in avg)
        out += cons.affine(cons.project(a.rows, isdead), cons.project(rows, isdead), what)
        out += rbe3_diff(R, a.rbe3, rbe3, what, lambda k: k[0] not in rot and k[1].startswith("DR"))
        out += cmp.load_diff(a.load, L, what)
    return out

def couples(rows):
    """names one component for the rotations that the points of a rigid body share (without rotations of elements
    only the rotations of bodies exist)"""
    same = {}
    def find(k):
        while k in same:
            k = same[k]
        return k
    for cf, r in rows:
        ks = sorted(cf, key=str)
        if len(ks) == 2 and r == 0 and cf[ks[0]] == -cf[ks[1]] and all(k[1].startswith("DR") for k in ks):
            a, b = find(ks[0]), find(ks[1])
            if a != b:
                same[b] = a
    return lambda k: find(k) if k[1].startswith("DR") else k

def merged(d, find):
    out = {}
    for k, v in d.items():
        out[find(k)] = out.get(find(k), 0.0) + v
    return {k: v for k, v in out.items() if v}

if __name__ == "__main__":
    sys.exit(check.main(Rigid))
