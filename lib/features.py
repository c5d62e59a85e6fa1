"""Features that can be put together in one deck, whatever the others: states of the system that builds whole models.

A deck = solution sequence + set of features.  Every feature adds its own cards around a common base (a hexahedron and a
quad that share an edge, clamped at one edge), with identifiers of its own; some share points of the base.
"""
import itertools
from lib import corpus

F = {}
def feature(name, sols=(101, 103, 105, 106, 108, 111)):
    def d(fn):
        F[name] = (fn, sols)
        return fn
    return d

class S:
    """deck under construction"""
    def __init__(s, sol):
        s.sol, s.b = sol, corpus.base()
        s.above, s.sub = [], None
        s.extra, s.n = [], 0
        s.spc, s.load, s.mpc = [("SPC1", 1, 123456, s.b.hn[0], s.b.hn[3])], [("FORCE", 5, s.b.hn[6], 0, 1., 0., 5., 0.)], []
        s.cases = []
        s.k2, s.outputs = {}, []
        s.slot = 0
    def add(s, *c):
        s.b.cards.append(tuple(c))
    def at(s):
        """a place of its own"""
        s.slot += 1
        return 10. * s.slot
    def eid(s):
        return s.b.eid()

def fx(name):
    return sorted(F).index(name)

# ---- elements
@feature("rod")
def _(s):
    x = s.at(); e, n = s.b.element("SE2", 11, x, card="CROD", skew=False)
    s.add("PROD", 11, 1, 0.02, 0.001)
    s.spc.append(("SPC1", 1, 123, *n))
@feature("conrod")
def _(s):
    s.add("CONROD", s.eid(), s.b.hn[0], s.b.hn[6], 1, 0.01, 0.002)
@feature("bar")
def _(s):
    x = s.at(); e, n = s.b.element("SE2", 12, x, card="CBAR", tail=(0., 1., 0.), skew=False)
    s.add("PBAR", 12, 1, 0.03, 1e-4, 2e-4, 3e-4, 0.5)
    s.spc.append(("SPC1", 1, 123456, n[0])); s.load.append(("FORCE", 5, n[1], 0, 1., 0., 0., 2.))
@feature("barg")
def _(s):
    x = s.at(); o = s.b.node(x, 5., 0.); e, n = s.b.element("SE2", 13, x, card="CBAR", tail=(o,), skew=False)
    s.add("PBARL", 13, 1, None, "I", None, None, None, None, 0.4, 0.2, 0.2, 0.01, 0.02, 0.02)
    s.spc.append(("SPC1", 1, 123456, n[0], o))
@feature("beam")
def _(s):
    x = s.at(); e, n = s.b.element("SE2", 14, x, card="CBEAM", tail=(0., 0., 1.), skew=False)
    s.add("PBEAM", 14, 2, 0.03, 1e-4, 2e-4, 0., 3e-4); s.add("MAT1", 2, 7e10, None, 0.33, 2700.)
    s.spc.append(("SPC1", 1, 123456, n[0])); s.load.append(("PLOAD1", 5, e, "FY", "FR", 0., 7., 1., 7.) if s.sol in (101,) else ("MOMENT", 5, n[1], 0, 1., 1., 0., 0.))
@feature("tria")
def _(s):
    x = s.at(); e, n = s.b.element("TR3", 15, x, skew=False)
    s.add("PSHELL", 15, 1, 0.02, 1, None, 1)
    s.spc.append(("SPC1", 1, 123456, n[0], n[1])); s.load.append(("PLOAD2", 5, 3., e) if s.sol in (101, 105, 106) else ("FORCE", 5, n[2], 0, 1., 0., 0., 2.))
@feature("comp")
def _(s):
    x = s.at(); e, n = s.b.element("QU4", 16, x, skew=False)
    s.add("PCOMP", 16, None, None, None, None, None, None, None, 3, 0.01, 30., None, 3, 0.02, -45.)
    s.add("MAT8", 3, 1e11, 1e10, 0.3, 5e9, 4e9, 3e9, 1600.)
    s.spc.append(("SPC1", 1, 123456, n[0], n[1]))
@feature("offset")
def _(s):
    s.add("CQUAD4", s.eid(), 17, *s.b.hn[4:], None, 0.5); s.add("PSHELL", 17, 1, 0.125, 1)
@feature("tetra10")
def _(s):
    x = s.at(); e, n = s.b.element("T10", 18, x, skew=False)
    s.add("PSOLID", 18, 1); s.spc.append(("SPC1", 1, 123, *n[:3])); s.load.append(("FORCE", 5, n[3], 0, 1., 0., 0., 2.))
@feature("penta")
def _(s):
    x = s.at(); e, n = s.b.element("PE6", 19, x, skew=False)
    s.add("PSOLID", 19, 4); s.add("MAT1", 4, 3e11, None, 0.25, 5000.); s.spc.append(("SPC1", 1, 123, *n[:3]))
@feature("tria6")
def _(s):
    x = s.at(); e, n = s.b.element("TR6", 20, x, skew=False)
    s.add("PSHELL", 20, 1, 0.03, 1); s.spc.append(("SPC1", 1, 123456, *n[:3]))
# ---- discrete elements
@feature("celas1")
def _(s):
    s.add("PELAS", 31, 1e4); s.add("CELAS1", s.eid(), 31, s.b.hn[6], 1, s.b.qn[2], 1)
@feature("celas2")
def _(s):
    s.add("CELAS2", s.eid(), 2e4, s.b.hn[7], 3)
@feature("celasx")
def _(s):
    s.add("PELAS", 37, 1e4); s.add("CELAS1", s.eid(), 37, s.b.hn[5], 2, s.b.hn[5], 3)
@feature("cbush")
def _(s):
    s.add("CBUSH", s.eid(), 33, s.b.hn[1], s.b.hn[6], None, None, None, 0); s.add("PBUSH", 33, "K", 1e3, 2e3, 3e3, 4e3, 5e3, 6e3)
@feature("cdamp", (103, 108, 111))
def _(s):
    s.add("PDAMP", 34, 17.); s.add("CDAMP1", s.eid(), 34, s.b.hn[1], 1, s.b.hn[6], 1)
@feature("cvisc", (103, 108, 111))
def _(s):
    s.add("PVISC", 35, 5., 6.); s.add("CVISC", s.eid(), 35, s.b.hn[5], s.b.qn[1])
@feature("conm2")
def _(s):
    s.add("CONM2", s.eid(), s.b.hn[7], 0, 12., 0.5, None, None, None, 1., None, 2., None, None, 3.)
@feature("conm1")
def _(s):
    s.add("CONM1", s.eid(), s.b.qn[2], 0, 2., None, 3., None, None, 4., None, None, None, 5.)
@feature("cmass2")
def _(s):
    s.add("CMASS2", s.eid(), 2.5, s.b.hn[4], 2)
@feature("lonemass")
def _(s):
    x = s.at(); n = s.b.node(x, 0., 0.)
    s.add("CONM2", s.eid(), n, 0, 7.); s.spc.append(("SPC1", 1, 123456, n))
@feature("dmig")
def _(s):
    s.k2["K2GG"] = "KAAX"
    s.extra += [("DMIG", "KAAX", 0, 6, 1, 0), ("DMIG", "KAAX", s.b.hn[4], 1, None, s.b.hn[4], 1, 1e3, None, s.b.hn[5], 1, -5e2), ("DMIG", "KAAX", s.b.hn[5], 1, None, s.b.hn[5], 1, 2e3)]
@feature("dmigm", (103, 108, 111))
def _(s):
    s.k2["M2GG"] = "MAAX"
    s.extra += [("DMIG", "MAAX", 0, 6, 1, 0), ("DMIG", "MAAX", s.b.hn[4], 1, None, s.b.hn[4], 1, 1.5)]
# ---- rigid bodies and relations
@feature("rbe2")
def _(s):
    x = s.at(); m, a, b = s.b.node(x, 0., 0.), s.b.node(x, 1., 0.), s.b.node(x, 0., 2.)
    s.add("RBE2", s.eid(), m, 123456, a, b); s.add("CELAS2", s.eid(), 1e3, m, 1); s.spc.append(("SPC1", 1, 23456, m))
@feature("rbe2mesh")
def _(s):
    s.add("RBE2", s.eid(), s.b.hn[4], 123456, s.b.hn[5])
@feature("rbe2part")
def _(s):
    s.add("RBE2", s.eid(), s.b.qn[2], 123, s.b.hn[6])
@feature("rbar")
def _(s):
    s.add("RBAR", s.eid(), s.b.hn[2], s.b.hn[7], 123456)
@feature("rbe3")
def _(s):
    x = s.at(); r = s.b.node(x, 0., 0.)
    s.add("RBE3", s.eid(), None, r, 123456, 1., 123, s.b.hn[4], s.b.hn[6], s.b.hn[7])
    s.load.append(("FORCE", 5, r, 0, 1., 0., 0., 3.))
@feature("mpc", (101, 103, 105, 106))
def _(s):
    s.mpc.append(("MPC", 3, s.b.hn[6], 1, 1., s.b.hn[7], 1, -1., None, None, s.b.hn[5], 2, 0.5))
# ---- constraints
@feature("spcd", (101, 106))
def _(s):
    s.spc.append(("SPC1", 1, 3, s.b.hn[1])); s.load.append(("SPCD", 5, s.b.hn[1], 3, 0.125))
@feature("spcv", (101, 106))
def _(s):
    s.spc.append(("SPC", 1, s.b.hn[5], 3, 0.25, s.b.qn[1], 1, 0.))
@feature("perm")
def _(s):
    x = s.at(); s.b.node(x, 0., 0., ps=123456)
@feature("cd")
def _(s):
    x = s.at(); s.extra.append(("CORD2R", 61, None, 1., 0., 0., 1., 0.5, 1., 2., 0.5, 0.))
    a, b = s.b.node(x, 0., 0., cd=61), s.b.node(x, 2., 1., cd=61)
    s.add("CROD", s.eid(), 41, a, b); s.add("PROD", 41, 1, 0.02)
    s.spc.append(("SPC1", 1, 12, a, b)); s.load.append(("FORCE", 5, b, 61, 1., 0., 0., 2.))
@feature("orphan")
def _(s):
    x = s.at(); n = s.b.node(x, 0., 0.); s.spc.append(("SPC1", 1, 123456, n))
@feature("autospc")
def _(s):
    s.extra.append(("PARAM", "AUTOSPC", "YES"))
@feature("gap", (101, 106))
def _(s):
    x = s.at(); n = s.b.node(x, 0., 0.); s.spc.append(("SPC1", 1, 123456, n))
    s.add("PGAP", 36, 0.25, None, 1e6); s.add("CGAP", s.eid(), 36, s.b.hn[5], n, 1., 0., 0.)
# ---- loads
@feature("grav", (101, 105, 106))
def _(s):
    s.extra.append(("GRAV", 6, 0, 9.81, 0., 0., -1.)); s.cases.append(("LOAD", 6))
@feature("rforce", (101, 106))
def _(s):
    s.extra.append(("RFORCE", 7, s.b.hn[0], 0, 2., 0., 0., 1.)); s.cases.append(("LOAD", 7))
@feature("pload4", (101, 105, 106))
def _(s):
    s.load.append(("PLOAD4", 5, s.b.h, 100., None, None, None, s.b.hn[4], s.b.hn[6]))
@feature("moment")
def _(s):
    s.load.append(("MOMENT", 5, s.b.qn[1], 0, 2., 0., 0., 1.))
@feature("force1")
def _(s):
    s.load.append(("FORCE1", 5, s.b.hn[6], 10., s.b.hn[0], s.b.hn[2]))
@feature("loadcomb", (101, 106))
def _(s):
    s.extra += [("FORCE", 8, s.b.hn[5], 0, 1., 0., 0., 4.), ("LOAD", 9, 2., 1.5, 5, 0.5, 8)]; s.cases.append(("LOAD", 9))
@feature("spc2", (101, 106))
def _(s):
    s.extra += [("SPC1", 2, 123, *s.b.hn[:4]), ("SPCADD", 4, 1, 2)]; s.cases.append(("SPC", 4))
@feature("output")
def _(s):
    s.outputs += ["SET 3 = %d,%d" % (s.b.hn[4], s.b.hn[6]), "DISP=3"]
@feature("title")
def _(s):
    s.outputs += ["TITLE=SOME TITLE", "SUBTITLE=SOMETHING"]
@feature("sets")
def _(s):
    s.extra += [("SET1", 77, *s.b.hn[:5]), ("SET3", 78, "GRID", *s.b.hn[:3]), ("SET3", 79, "ELEM", s.b.h)]
@feature("wtmass")
def _(s):
    s.extra.append(("PARAM", "WTMASS", 0.5))
@feature("ge")
def _(s):
    s.b.cards = [c[:8] + (None, 0.02) if False else c for c in s.b.cards]
    s.extra.append(("PARAM", "G", 0.02)); s.extra.append(("PARAM", "W3", 100.))
@feature("rload1", (108, 111))
def _(s):
    s.extra += [("RLOAD1", 86, 87, None, None, 82), ("DAREA", 87, s.b.hn[7], 3, 60.)]; s.cases.append(("DLOAD", 86))
@feature("resvec", (111,))
def _(s):
    s.outputs.append("RESVEC=YES")

TABLE = lambda i, *xy: ("TABLED1", i, None, None, None, None, None, None, None, *xy, "ENDT")

def names(sol):
    return [n for n in F if sol in F[n][1]]

def deck(sol, feats):
    s = S(sol)
    for n in sorted(feats):
        F[n][0](s)
    case = list(s.outputs) + ["%s=%s" % kv for kv in s.k2.items()] + ["SPC=1"] + (["MPC=3"] if s.mpc else [])
    cards = list(s.spc) + s.mpc
    subs = []
    if sol in (101, 106, 105):
        cards += s.load
        if sol == 106:
            cards.append(("NLPARM", 44, 4)); case.append("NLPARM=44")
        subs = [("LOAD", 5)] + s.cases
    elif sol in (108, 111):
        cards += [("RLOAD2", 80, 81, None, None, 82), TABLE(82, 0., 1., 100., 2., 1000., 3.5), ("DAREA", 81, s.b.hn[6], 1, 500.), ("FREQ1", 90, 1., 0.5, 20)]
        case.append("FREQ=90")
        if sol == 111:
            case += ["METHOD=9", "SDAMP=70"]
            cards += [("EIGRL", 9, 0., 1000.), ("TABDMP1", 70, "CRIT", None, None, None, None, None, None, 0., 0.02, 100., 0.03, "ENDT")]
        subs = [("DLOAD", 80)] + s.cases
    elif sol == 103:
        cards.append(("EIGRL", 9, None, None, 12)); case.append("METHOD=9")
    if sol == 105:
        cards.append(("EIGRL", 9, None, None, 6))
        for i, (k, v) in enumerate(subs):
            case += ["SUBCASE %d" % (2 * i + 1), "%s=%d" % (k, v), "SUBCASE %d" % (2 * i + 2), "METHOD=9"] + (["STATSUB=%d" % (2 * i + 1)] if i else [])
    elif len(subs) == 1:
        case.append("%s=%d" % subs[0])
    else:
        for i, (k, v) in enumerate(subs):
            case += ["SUBCASE %d" % (i + 1), "%s=%d" % (k, v)] + ([] if k in ("LOAD", "DLOAD") else ["%s=%d" % subs[0]])
    return s.b.deck(sol, case, cards + s.extra)

def sets(sol, depth):
    ns = names(sol)
    for m in range(depth + 1):
        for c in itertools.combinations(ns, m):
            yield c
