"""Base decks: states of the deck-building systems of the other checks that together show every form of every card,
and hand-written decks for what those do not build."""
import importlib, os, sys
from lib import menu, check
from lib.nas import Deck

MODULES = ("c_mesh", "c_props", "c_loads", "c_spc", "c_rigid", "c_discrete")

def sig(c):
    return (c[0], tuple("-" if f is None else type(f).__name__[0] for f in c[1:]))

_cache = None
def selected():
    """[(label, deck)] — greedy cover of the signatures of cards"""
    global _cache
    if _cache is not None:
        return _cache
    sys.path.insert(0, os.path.join(check.VERIF, "checks"))
    seen, out = set(), []
    for m in MODULES:
        mod = importlib.import_module(m)
        cl = [c for c in vars(mod).values() if isinstance(c, type) and issubclass(c, check.Check) and c is not check.Check][0]
        k = cl(); k.tier = "quick"
        for label, p in k.cases():
            if "seq" not in label and m not in ("c_mesh", "c_props"):
                continue
            d = k.deck(p)
            s = {sig(c) for c in d.cards}
            if s - seen:
                seen |= s
                out.append(("%s:%s" % (m[2:], label), d))
    _cache = out
    return out

def base(solid=False):
    """two quads and a hexa that share nodes"""
    b = menu.Builder("seq")
    h, hn = b.element("HE8", 1, 0., skew=False)
    b.add("PSOLID", 1, 1)
    b.add("MAT1", 1, 2e11, None, 0.3, 7800.)
    b.h, b.hn = h, hn
    if not solid:
        q = [hn[1], b.node(4., 0., 0.), b.node(4., 1.5, 0.), hn[2]]
        b.q, b.qn = b.eid(), q
        b.add("CQUAD4", b.q, 2, *q)
        b.add("PSHELL", 2, 1, 0.125, 1)
    return b

def extra():
    out = []
    def add(name, b, sol, case, *cards):
        out.append((name, b.deck(sol, case, cards)))
    # modal searches
    for n, c in (("eigrl", ("EIGRL", 9, 1., 500., 12, None, None, None, "MASS")), ("eigrl-n", ("EIGRL", 9, None, None, 12)),
                 ("eigr", ("EIGR", 9, "LAN", 1., 500., 10, 12, None, None, "MAX")), ("eigrl-band", ("EIGRL", 9, 1., 500.))):
        b = base()
        add(n, b, 103, ["SPC=1", "METHOD=9"], ("SPC1", 1, 123456, b.hn[0], b.hn[3]), c)
    b = base()
    add("eigb", b, 105, ["SPC=1", "SUBCASE 1", "LOAD=5", "SUBCASE 2", "METHOD=9"], ("SPC1", 1, 123456, b.hn[0], b.hn[3]), ("FORCE", 5, b.hn[6], 0, 1., 0., 5., 0.),
        ("EIGB", 9, "INV", 0.5, 10., 4, 3, None, None, "MAX"))
    b = base()
    add("eigc", b, 110, ["SPC=1", "METHOD=9", "CMETHOD=8"], ("SPC1", 1, 123456, b.hn[0], b.hn[3]), ("EIGRL", 9, None, None, 12), ("EIGC", 8, "CLAN", "MAX", None, None, None, 6),
        ("PDAMP", 31, 17.), ("CDAMP1", b.eid(), 31, b.hn[1], 1, b.hn[6], 1))
    # frequency responses
    T = lambda i, *xy: ("TABLED1", i, None, None, None, None, None, None, None, *xy, "ENDT")
    FQ = {"freq": [("FREQ", 90, 1., 2.5, 7., 11., 12.5, 13., 14., 15., 16.5)], "freq1": [("FREQ1", 90, 1., 0.5, 20)], "freq3": [("FREQ1", 90, 1., 0.5, 20), ("FREQ3", 90, 20., 2000., "LINEAR", 10)],
          "freq4": [("FREQ1", 90, 1., 0.5, 20), ("FREQ4", 90, 20., 2000., 0.25, 5)]}
    for sol in (108, 111):
        for n, fq in FQ.items():
            if n == "freq3" or sol == 108 and n == "freq4":
                continue
            b = base()
            case = ["SPC=1", "DLOAD=80", "FREQ=90"] + (["METHOD=9", "SDAMP=70"] if sol == 111 else [])
            cards = [("SPC1", 1, 123456, b.hn[0], b.hn[3]), ("RLOAD2", 80, 81, None, None, 82), T(82, 0., 1., 100., 2., 1000., 3.5), ("DAREA", 81, b.hn[6], 1, 500.)] + fq
            if sol == 111:
                cards += [("EIGRL", 9, 0., 1000.), ("TABDMP1", 70, "CRIT", None, None, None, None, None, None, 0., 0.02, 100., 0.03, 500., 0.04, 900., 0.05, 1000., 0.06, "ENDT")]
            add("%d-%s" % (sol, n), b, sol, case, *cards)
    b = base()
    add("108-all", b, 108, ["SPC=1", "DLOAD=80", "FREQ=90"], ("SPC1", 1, 123456, b.hn[0], b.hn[3]), ("DLOAD", 80, 2., 1.5, 84, 0.5, 85, 0.25, 87), ("RLOAD2", 84, 81, 61, 62, 82),
        ("RLOAD1", 85, 83, None, None, 82), ("DELAY", 61, b.hn[6], 1, 0.125), ("DPHASE", 62, b.hn[6], 1, 30.), T(82, 0., 1., 100., 2., 1000., 3.5, 2000., 1., 3000., 2.),
        ("DAREA", 81, b.hn[6], 1, 500.), ("DAREA", 83, b.hn[5], 2, 50.), ("DAREA", 83, b.hn[7], 3, 60.), ("RLOAD2", 87, 83, 0.25, 45., 82, None, "LOAD"),
        ("FREQ1", 90, 1., 0.5, 20), ("PARAM", "G", 0.02), ("PARAM", "W3", 100.))
    # nonlinear
    b = base(True)
    add("106-nlelast", b, 106, ["SPC=1", "LOAD=5", "NLPARM=4"], ("SPC1", 1, 123, *b.hn[:4]), ("FORCE", 5, b.hn[6], 0, 1., 0., 5., 0.), ("NLPARM", 4, 7),
        ("MATS1", 1, 40, "NLELAST"), ("TABLES1", 40, None, None, None, None, None, None, None, 0., 0., 1e-3, 2e8, 2e-3, 3e8, 3e-3, 3.5e8, 4e-3, 3.7e8, "ENDT"))
    b = base(True)
    add("106-plastic", b, 106, ["SPC=1", "LOAD=5", "NLPARM=4"], ("SPC1", 1, 123, *b.hn[:4]), ("FORCE", 5, b.hn[6], 0, 1., 0., 5., 0.), ("NLPARM", 4),
        ("MATS1", 1, None, "PLASTIC", 2e9, 1, 1, 3e8), ("PARAM", "LGDISP", 1))
    b = base(True)
    b.cards = [c for c in b.cards if c[0] not in ("PSOLID", "MAT1")]
    add("106-hyper", b, 106, ["SPC=1", "LOAD=5", "NLPARM=4"], ("SPC1", 1, 123, *b.hn[:4]), ("FORCE", 5, b.hn[6], 0, 1., 0., 5., 0.), ("NLPARM", 4, 7),
        ("PLSOLID", 1, 1), ("MATHP", 1, 80., 20., 1.5e5, 1000., None, None, None, None, 2, 1, None, None, None, None, None, 3.))
    # gap and contact
    b = base(True)
    x = b.node(9., 1., 2.)
    add("gap", b, 101, ["SPC=1", "LOAD=5"], ("SPC1", 1, 123456, *b.hn[:4], x), ("FORCE", 5, b.hn[6], 0, 1., 0., 5., 0.), ("PGAP", 33, 0.25, None, 1e6), ("CGAP", b.eid(), 33, b.hn[5], x, 1., 0., 0.))
    def two():
        b = base(True)
        e, n = b.element("HE8", 1, 0., 0., 1.25, skew=False)
        return b, e, n
    b, e, n = two()
    add("bcbody", b, 101, ["SPC=1", "LOAD=5", "BCONTACT=3"], ("SPC1", 1, 123456, *b.hn[:4]), ("FORCE", 5, n[6], 0, 1., 0., 0., -5.), ("BSURF", 41, b.h), ("BSURF", 42, e),
        ("BCBODY", 51, "3D", "DEFORM", 41), ("BCBODY", 52, "3D", "DEFORM", 42), ("BCTABLE", 3, None, None, 1, None, None, None, None, None, "SLAVE", 51, None, None, None, None, None, None, None, "MASTERS", 52))
    b, e, n = two()
    add("bsconp", b, 101, ["SPC=1", "LOAD=5"], ("SPC1", 1, 123456, *b.hn[:4]), ("FORCE", 5, n[6], 0, 1., 0., 0., -5.), ("BSSEG", 41, *b.hn[4:]), ("BSSEG", 42, *n[:4]), ("BSCONP", 61, 41, 42))
    b, e, n = two()
    add("bconp", b, 101, ["SPC=1", "LOAD=5"], ("SPC1", 1, 123456, *b.hn[:4]), ("FORCE", 5, n[6], 0, 1., 0., 0., -5.), ("BLSEG", 41, *b.hn[4:6]), ("BLSEG", 42, *n[:2]), ("BFRIC", 7, None, None, 0.25),
        ("BCONP", 61, 41, 42, None, None, 7, None, 0), )
    # coordinates, sets, parameters and the rest
    b = base()
    b.nodes = [("GRDSET", None, None, None, None, None, None, None, 456)] + b.nodes
    p = b.ni = b.ni + 1
    b.nodes += [("GRID", p, 22, 3., 30., 1.), ("GRID", p + 1, 23, 3., 60., 30.), ("GRID", p + 2, 24, 0.5, 0.25, 0.125, 22)]
    add("coords", b, 101, ["SPC=1", "LOAD=5"], ("CORD2R", 21, None, 1., 0., 0., 1., 0.5, 1., 2., 0.5, 0.), ("CORD2C", 22, 21, 0.5, -1., 0., 0.5, -1., 2., 2., 0., 0.),
        ("CORD2S", 23, 0, 0.5, -1., 0., 0.5, -1., 2., 2., 0., 0.), ("CORD1R", 24, *b.hn[:3], 25, *b.hn[4:7]), ("SPC1", 1, 123456, b.hn[0], b.hn[3]),
        ("CROD", b.eid(), 5, b.hn[6], p), ("CROD", b.eid(), 5, b.hn[6], p + 1), ("CONROD", b.eid(), b.hn[5], p + 2, 1, 0.01), ("PROD", 5, 1, 0.02, 0.001),
        ("FORCE", 5, p, 21, 1., 0., 5., 0.), ("MOMENT", 5, b.qn[1], 0, 2., 0., 0., 1.), ("FORCE1", 5, b.hn[6], 10., b.hn[0], b.hn[2]), ("TEMP", 6, b.hn[0], 20., b.hn[1], 30.))
    b = base()
    add("visc", b, 103, ["SPC=1", "METHOD=9"], ("SPC1", 1, 123456, b.hn[0], b.hn[3]), ("EIGRL", 9, None, None, 4), ("CVISC", b.eid(), 36, b.hn[5], b.qn[1]), ("PVISC", 36, 5., 6.))
    b = base()
    add("params", b, 101, ["TITLE=A TITLE", "SUBTITLE=WITH MORE", "SPC=1", "LOAD=5", "DISP=ALL", "SPCFORCES(PRINT,PUNCH)=ALL"], ("PARAM", "AUTOSPC", "YES"), ("PARAM", "GRDPNT", 0), ("PARAM", "WTMASS", 0.5), ("PARAM", "POST", -1),
        ("PARAM", "K6ROT", 100.), ("PARAM", "PRTMAXIM", "YES"), ("SPC1", 1, 123456, b.hn[0], b.hn[3]), ("FORCE", 5, b.hn[6], 0, 1., 0., 5., 0.), ("GRAV", 6, 0, 9.81, 0., 0., -1.),
        ("LOAD", 7, 1., 2., 5, 3., 6), ("SET1", 77, *b.hn[:5]), ("SET3", 78, "GRID", *b.hn[:3]), ("SET3", 79, "ELEM", b.h))
    b = base()
    add("subcases", b, 101, ["SPC=1", "SUBCASE 1", "LABEL=FIRST", "LOAD=5", "SUBCASE 4", "LOAD=7", "SPC=2", "SUBCASE 9", "LOAD=6", "MPC=3"], ("SPC1", 1, 123456, b.hn[0], b.hn[3]), ("SPC1", 2, 123, *b.hn[:4]),
        ("SPC", 2, b.hn[5], 3, 0.25, b.qn[1], 1), ("FORCE", 5, b.hn[6], 0, 1., 0., 5., 0.), ("GRAV", 6, 0, 9.81, 0., 0., -1.), ("LOAD", 7, 1., 2., 5, 3., 6), ("MPC", 3, b.hn[6], 1, 1., b.hn[7], 1, -1., None, None, b.hn[5], 2, 0.5),
        ("RBE2", b.eid(), b.hn[4], 123, b.hn[5]), ("RBE3", b.eid(), None, b.qn[2], 123456, 1., 123, b.hn[1], b.hn[2], b.qn[1]), ("PLOAD4", 5, b.h, 100., None, None, None, b.hn[4], b.hn[6]),
        ("CONM2", b.eid(), b.hn[7], None, 12., 0.5, None, None, None, 1., None, 2., None, None, 3.))
    return out
