"""Does a nonlinear analysis keep the behaviour of each element?"""
import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import check, run, nas, ref, cmp, aster, menu
from lib.comm import seq

E0 = 2e11
# name -> (cards of the material, constants expected, relation)
def el(m):
    return [("MAT1", m, E0, None, .25, 7800.)], {}, "ELAS"
def plastic(h, sy, tail=(), young=E0):
    hh = h or 0.
    def f(m):
        return [("MATS1", m, None, "PLASTIC", h) + (tail or (1, 1)) + (sy,), ("MAT1", m, young, None, .25, 7800.)], {"ECRO_LINE.D_SIGM_EPSI": young * hh / (young + hh), "ECRO_LINE.SY": sy}, "VMIS_ISOT_LINE"
    return f
def hyper(a10, a01, d1, rho, a20):
    def f(m):
        c = ["MATHP", m, a10, a01, d1, rho]
        if a20 is not None:
            c += [None] * 3 + [None, 1, 1] + [None] * 5 + [a20]
        d = 1000. * ((a10 or 0.) + (a01 or 0.)) if d1 is None else d1
        return [tuple(c)], {"ELAS_HYPER.C10": a10 or 0., "ELAS_HYPER.C01": a01 or 0., "ELAS_HYPER.C20": a20 or 0., "ELAS_HYPER.K": 2 * d, "ELAS_HYPER.RHO": rho or 0.}, "ELAS_HYPER"
    return f
MATS = {
    "el": el, "pl": plastic(1e9, 3e8), "pl0": plastic(0., 3e8), "pl-": plastic(None, 2.5e8), "pl blank": plastic(2e10, 3e8, (None, None)), "pl soft": plastic(30303., 850., young=3e6),
    "hy": hyper(80., 20., 5e4, 1000., None), "hy d": hyper(80., 20., None, None, None), "hy 20": hyper(80., 20., 5e4, 1000., 7.), "hy a": hyper(80., None, 5e4, 1000., 3.),
}
SOLIDS = ("HE8", "TE4", "PE6", "H20", "T10")
ELEMS = SOLIDS + ("QU4", "TR3", "bar", "beam", "rod")
LARGE = {"no": (), "-1": (("PARAM", "LGDISP", -1),), "1": (("PARAM", "LGDISP", 1),), "2": (("PARAM", "LGDISP", 2),)}

class Nonlin(check.Check):
    pid = "C21"
    rule = "every sequence of at most two (thorough: three) elements, each with its material, sharing it or not; large displacements or not; the cards of the materials first, last or reversed; one or two subcases"
    assumptions = ["the meaning of MATS1 and MATHP is that of the Quick Reference Guide of MSC Nastran, that of ECRO_LINE and ELAS_HYPER of the Code_Aster documents U4.43.01 and R5.03.19"]
    def cases(self):
        out = []
        quick = self.tier == "quick"
        atoms = [(e, m) for e in ELEMS for m in MATS if not m.startswith("hy") or e in SOLIDS]
        small = [(e, m) for e, m in atoms if e in ("HE8", "QU4", "bar", "rod") and m in ("el", "pl", "hy", "pl-")]
        seqs = [(a,) for a in atoms] + list(itertools.product(atoms if not quick else small, atoms))
        if not quick:
            seqs += list(itertools.product(small, repeat=3))
        for s in seqs:
            self.space.states += 1
            for share in ((0, 1) if len({m for e, m in s}) < len(s) else (0,)):
                for lg in LARGE:
                    for order in ("first", "last", "reversed"):
                        for n in (1, 2):
                            if quick and len(s) > 1 and (order, n, lg) not in (("first", 1, "1"), ("last", 2, "no"), ("reversed", 1, "1")):
                                continue
                            if len(s) > 2 and (order, n) not in (("first", 2), ("reversed", 1)):
                                continue
                            out.append(("%s%s lgdisp=%s %s %d" % (" + ".join("%s:%s" % x for x in s), " shared" if share else "", lg, order, n), (s, share, lg, order, n)))
        return out
    def build(self, p):
        s, share, lg, order, n = p
        b = menu.Builder("gap" if len(s) > 1 else "seq")
        exp, mats, known = {}, [], {}
        first = None
        for i, (e, m) in enumerate(s):
            x = 5. * i
            mid = 10 + 3 * i
            if share and m in known:
                mid = known[m]
            else:
                known[m] = mid
                mats += MATS[m](mid)[0]
            pid = 20 + 7 * i
            if e in ("bar", "beam", "rod"):
                u, v = b.node(x, 0., 0.), b.node(x + 2., 1., .5)
                k = b.eid()
                if e == "bar":
                    b.add("CBAR", k, pid, u, v, 0., 0., 1.); b.add("PBAR", pid, mid, .5, .25, .125, .0625)
                elif e == "beam":
                    b.add("CBEAM", k, pid, u, v, 0., 0., 1.); b.add("PBEAM", pid, mid, .5, .25, .125, None, .0625)
                else:
                    b.add("CROD", k, pid, u, v); b.add("PROD", pid, mid, .375)
                ids = [u, v]
            else:
                k, ids = b.element(e, pid, x)
                if e in ("QU4", "TR3"):
                    b.add("PSHELL", pid, mid, .1, mid)
                elif m.startswith("hy"):
                    b.add("PLSOLID", pid, mid)
                else:
                    b.add("PSOLID", pid, mid)
            first = first or ids
            exp[k] = (e, m, frozenset(ids))
        if order == "reversed":
            mats.reverse()
        b.cards = mats + b.cards if order == "first" else b.cards + mats
        load = [("SPC1", 1, 123456, first[0]), ("FORCE", 2, first[-1], 0, 1., 0., 0., 1.), ("FORCE", 3, first[-1], 0, 2., 0., 1., 0.), ("NLPARM", 70, 5)]
        case = ["SPC = 1", "NLPARM = 70"]
        for i in range(n):
            case += ["SUBCASE %d" % (i + 1), "LOAD = %d" % (2 + i)]
        return b.deck(106, case, load + list(LARGE[lg])), exp
    def describe(self, p):
        return self.build(p)[0].render()
    def judge(self, p):
        s, share, lg, order, n = p
        d, exp = self.build(p)
        r = run.translate(d.render(), "ASTER")
        if not r.ok:
            return ["translation ended with %s" % (r.status,)], 1
        # places of the points alone
        R = ref.interpret(nas.Deck(101, [], [c for c in d.cards if c[0] == "GRID"]))
        g = aster.read(r, key=cmp.keyer(R))
        out = list(g.errors); g.errors = []
        nl = [(k, a) for k, c, a in g.solves if c == "STAT_NON_LINE"]
        if len(nl) != n or len(g.solves) != n:
            return out + ["%d analyses, %d of them nonlinear, expected %d" % (len(g.solves), len(nl), n)], 1
        by = {}
        for c in g.cells:
            by.setdefault(frozenset(c.nodes), []).append(c)
        large = lg in ("1", "2")
        for k, (e, m, ids) in exp.items():
            cs = by.get(ids, [])
            if len(cs) != 1:
                out.append("element %s: %d in the output" % (k, len(cs))); continue
            c = cs[0]
            cards, const, rel = MATS[m](0)
            who = "element %s (%s %s)" % (k, e, m)
            mat = c.mat or {}
            if rel != "ELAS_HYPER":
                young = [q for q in cards if q[0] == "MAT1"][0][2]
                const = dict(const); const.update({"ELAS.E": young, "ELAS.NU": .25, "ELAS.RHO": 7800.})
            for q, v in const.items():
                w = mat.get(q)
                if w is None or not abs(float(w) - v) <= 2e-5 * abs(v):
                    out.append("%s: %s is %s, expected %.9g" % (who, q, w, v))
            for q in mat:
                if q.split(".")[0] in ("ECRO_LINE", "ELAS_HYPER", "ELAS") and q not in const and q.split(".")[1] not in ("AMOR_HYST", "ALPHA"):
                    out.append("%s: %s is %s" % (who, q, mat[q]))
            for a in nl:
                got = [x for x in seq(a[1].get("COMPORTEMENT")) if any(y is c for y in g.cells_of(x, "COMPORTEMENT"))]
                if len(got) != 1:
                    out.append("%s: %d behaviours in %s" % (who, len(got), a[0])); continue
                want, wdef = rel, "GROT_GDEP" if rel == "ELAS_HYPER" else None
                if rel == "ELAS" and large and e in ("bar", "beam", "rod"):
                    want, wdef = "ELAS_POUTRE_GR", "GROT_GDEP"
                if got[0].get("RELATION") != want:
                    out.append("%s: relation %s, expected %s" % (who, got[0].get("RELATION"), want))
                if wdef and got[0].get("DEFORMATION") != wdef or not large and not wdef and got[0].get("DEFORMATION") not in (None, "PETIT"):
                    out.append("%s: deformation %s, expected %s" % (who, got[0].get("DEFORMATION"), wdef))
            if e in ("bar", "beam", "rod"):
                mod = seq(c.model or ())
                want = ("POU_D_T_GD",) if large else ("BARRE",) if e == "rod" else ("POU_D_T", "POU_D_E")
                if len(mod) != 1 or mod[0] not in want:
                    out.append("%s: element %s, expected %s" % (who, mod, want))
        return sorted(set(out + g.errors)), 1

if __name__ == "__main__":
    sys.exit(check.main(Nonlin))
