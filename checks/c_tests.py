"""Are the results given with a model (option -t) turned into the tests they ask for?"""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import check, run, nas, ref, cmp, aster, systus, menu
from lib.comm import seq, Comm, Concept
import numpy as np

DOF = ("DX", "DY", "DZ", "DRX", "DRY", "DRZ")

# ---------------------------------------------------------------- models
CDS = {"none": {}, "rect": {2: 21, 9: 21}, "cyl": {3: 22, 7: 22, 10: 22}, "both": {2: 21, 3: 22, 9: 22, 10: 21}}
def model(cd="none", scheme="seq", spoint=False):
    b = menu.Builder(scheme)
    at = CDS[cd]
    pts = b.place("HE8", 1.)
    h = [b.node(*p, None, at.get(i + 1)) for i, p in enumerate(pts)]
    q = [b.node(-2. - i, 1.5 * i + .5, .25, None, at.get(9 + i)) for i in range(2)]
    he = b.eid(); b.add("CHEXA", he, 1, *h)
    be = b.eid(); b.add("CBAR", be, 2, *q, 0., 0., 1.)
    top = [b.node(x, y, z + 1.) for x, y, z in pts[4:]]
    b.h2 = h[4:] + top
    b.he2 = b.eid(); b.add("CHEXA", b.he2, 1, *b.h2)
    b.add("PSOLID", 1, 1); b.add("PBAR", 2, 1, .5, .25, .125, .0625); b.add("MAT1", 1, 2e11, None, .3, 7800.)
    b.add("CORD2R", 21, None, 0., 0., 0., 3., 0., 4., 1., 0., 0.)
    b.add("CORD2C", 22, None, -1., -2., 0., -1., -2., 5., 1., -2., 0.)
    b.add("SPC1", 10, 123, h[0], h[1], h[3]); b.add("SPC1", 10, 123456, q[0])
    b.add("SPC1", 20, 123, h[0], h[1], h[3]); b.add("SPC1", 20, 123456, q[1])
    for l in (5, 6):
        b.add("FORCE", l, h[6], None, 1., 0., 1. * l, 2.)
    if spoint:
        b.sp = [b.nn(b.ni + 1 + i) for i in range(3)]
        b.add("SPOINT", *b.sp)
    b.h, b.q, b.he, b.be = h, q, he, be
    return b

# case control: name -> (lines, ids of the analyses)
STATIC = {
    "plain": (["SPC=10", "LOAD=5"], [None]),
    "one": (["SPC=10", "SUBCASE 1", "LOAD=5"], [1]),
    "two": (["SPC=10", "SUBCASE 1", "LOAD=5", "SUBCASE 2", "LOAD=6"], [1, 2]),
    "far": (["SUBCASE 4", "SPC=10", "LOAD=5", "SUBCASE 17", "SPC=20", "LOAD=6"], [4, 17]),
}
MODAL = {
    "plain": (["METHOD=1", "SPC=10"], [None]),
    "two": (["METHOD=1", "SUBCASE 1", "SPC=10", "SUBCASE 2", "SPC=20"], [1, 2]),
    "same": (["METHOD=1", "SPC=10", "SUBCASE 1", "LABEL=a", "SUBCASE 2", "LABEL=b"], [1, 2]),
}
HARM = {
    "plain": (["SPC=10", "DLOAD=80", "FREQ=90"], [None]),
    "two": (["SPC=10", "FREQ=90", "SUBCASE 3", "DLOAD=80", "SUBCASE 5", "DLOAD=81"], [3, 5]),
}
HCARDS = [("FREQ1", 90, 10., 10., 4), ("TABLED1", 70) + (None,) * 6 + (0., 1., 1000., 1., "ENDT")]

# ---------------------------------------------------------------- F06
TITLES = {0: "", 1: "BEAM", 3: "MY BEAM X", 7: "A B C D E F G"}      # words of the page line: the tables have rows of as many words
def number(v):
    return "0.0         " if v == 0 else "%.6E" % v

class F06:
    """prints the pages that Nastran prints"""
    def __init__(s, title=0, subtitle=False, crlf=False):
        s.lines, s.page_no, s.title, s.subtitle, s.eol = [], 0, TITLES[title], subtitle, "\r\n" if crlf else "\n"
    def page(s, sub, *more):
        s.page_no += 1
        s.lines += ["1    %-60s  MAY  4, 2016   PAGE %5d" % (s.title, s.page_no)]
        s.lines += ["      SMALL BENCH" if s.subtitle else " ", "0" + (" " * 107 + " SUBCASE %d" % sub if sub is not None else " " * 80)]
        s.lines += list(more)
    def vector(s, name, sub, rows, cut=None, step=None):
        """rows: (point, type, values)"""
        head = ["     LOAD STEP =  %.5E" % step] if step is not None else [" "]
        head += [" " * 44 + name, " ", "      POINT ID.   TYPE          T1             T2             T3             R1             R2             R3"]
        s.page(sub, *head)
        for i, (n, t, v) in enumerate(rows):
            if cut is not None and i == cut:
                s.page(sub, *head)
            s.lines.append("%14d      %s   " % (n, t) + "".join("%15s" % number(x) for x in v))
    def complex(s, name, sub, freq, rows, polar=False):
        s.page(sub, "      FREQUENCY =  %.6E" % freq, " " * 39 + name, " " * 58 + ("(MAGNITUDE/PHASE)" if polar else "(REAL/IMAGINARY)"), " ",
               "      POINT ID.   TYPE          T1             T2             T3             R1             R2             R3")
        for n, t, v in rows:
            a, b = ([abs(x) for x in v], [np.degrees(np.angle(x)) % 360. if x else 0. for x in v]) if polar else ([x.real for x in v], [x.imag for x in v])
            s.lines.append("0%13d      %s   " % (n, t) + "".join("%15s" % number(x) for x in a))
            s.lines.append(" " * 24 + "".join("%15s" % number(x) for x in b))
    def eigen(s, sub, modes, kind=None):
        s.page(sub, " " * 46 + "R E A L   E I G E N V A L U E S", *([" " * 40 + kind] if kind else []),
               "   MODE    EXTRACTION      EIGENVALUE            RADIANS             CYCLES            GENERALIZED         GENERALIZED",
               "    NO.       ORDER                                                                       MASS              STIFFNESS")
        for i, (l, c, m, k) in enumerate(modes):
            s.lines.append("%9d%10d" % (i + 1, i + 1) + "".join("%20.6E" % x for x in (l, abs(l) ** .5, c, m, k)))
    def stresses(s, sub, cells, cut=None):
        """cells: (element, [(corner, von Mises)])"""
        head = [" ", " " * 22 + "S T R E S S E S   I N   H E X A H E D R O N   S O L I D   E L E M E N T S   ( H E X A )",
                "0                CORNER        ------CENTER AND CORNER POINT STRESSES---------       DIR.  COSINES       MEAN",
                "  ELEMENT-ID    GRID-ID        NORMAL              SHEAR             PRINCIPAL       -A-  -B-  -C-     PRESSURE       VON MISES"]
        s.page(sub, *head)
        k = 0
        for e, l in cells:
            s.lines.append("0%10d           0GRID CS  8 GP" % e)
            for n, v in [("CENTER", 99.)] + l:
                if cut is not None and k == cut:
                    s.page(sub, *head)
                k += 1
                s.lines += ["0%22s  X  -5.086108E-01  XY   5.015129E-02   A  -2.092143E-01  LX 0.17 0.99 0.00   3.148544E-01    %s" % (n, number(v)),
                            " " * 25 + "Y  -2.179761E-01  YZ  -1.741783E-18   B  -5.173727E-01  LY 0.97-0.17 0.20",
                            " " * 25 + "Z  -2.179761E-01  ZX   1.039771E-02   C  -2.179761E-01  LZ 0.20-0.03-0.98"]
    def text(s):
        return s.eol.join(s.lines + ["1    * * * END OF JOB * * *", ""])

def value(k, n, c):
    """results of a section: nothing repeats; small, null, negative values among them"""
    i = (7 * k + 5 * n + 11 * c) % 13
    return (0. if i == 3 else 3.5e-14 if i == 7 else -2.25e-9 * (1 + c) if i == 9 else (-1) ** (n + c) * (1. + k + n / 64. + c / 8.) * 10. ** (i - 6))
def cvalue(k, n, c):
    return complex(value(k, n, c), 0. if (n + c) % 5 == 0 else value(k + 3, n, c + 1))
def six(x):
    return float("%.6E" % x)

def local(R, n, v):
    """from the system of the point to the global one"""
    T = R.basis(R.cd[n], R.xyz[n]) if R.cd.get(n) else None
    return v if T is None else list(np.array(T).T @ np.array(v[:3])) + list(np.array(T).T @ np.array(v[3:]))

class Tests(check.Check):
    pid = "C19"
    rule = "every sequence of result sections up to the depth, for each case control, numbering, displacement systems, page layout"
    def cases(self):
        out, seen = [], set()
        quick = self.tier == "quick"
        def put(tgt, kind, mode, secs, **o):
            if kind == "static" and STATIC[mode][1][0] is None and any(a[0] == "p" and b[0] != "p" for a, b in zip(secs, secs[1:])):
                return      # one analysis is not both with and without load steps
            lab = "%s %s %s %s%s" % (tgt, kind, mode, "+".join(secs), "".join(" %s=%s" % x for x in sorted(o.items())))
            if lab not in seen:
                seen.add(lab); out.append((lab, (tgt, kind, mode, tuple(secs), o)))
        S = ["d0", "d1", "dX", "b0", "b1", "f0", "l1", "s1"]
        for tgt in ("ASTER", "SYSTUS"):
            sec = S + (["v0", "w1", "x0", "y1", "p0", "p1"] if tgt == "ASTER" else [])
            for mode in STATIC:
                for s in self.space.sequences(sec, 2 if quick else 3):
                    if s: put(tgt, "static", mode, s)
                for s in self.space.sequences(sec, 1 if quick else 2):
                    for cd in CDS:
                        if s: put(tgt, "static", mode, s, cd=cd)
                for s in self.space.sequences([x for x in sec if x in ("d1", "b0", "v0", "w1", "x0", "y1")], 2):
                    for t in TITLES:
                        for sub in (0, 1):
                            if s: put(tgt, "static", mode, s, title=t, sub=sub)
                for s in self.space.sequences(sec, 1 if quick else 2):
                    for sch in ("gap", "rev"):
                        if s: put(tgt, "static", mode, s, scheme=sch)
                    for t in TITLES:
                        for sub in (0, 1):
                            if s: put(tgt, "static", mode, s, title=t, sub=sub)
                    for tol in ("0.5", "1e-3"):
                        if s: put(tgt, "static", mode, s, tol=tol)
                    if s: put(tgt, "static", mode, s, crlf=1)
            E = ["e0", "e1", "r0", "a1", "d0", "eX"]
            for mode in MODAL:
                for s in self.space.sequences(E, 2 if quick else 3):
                    if s: put(tgt, "modal", mode, s)
                for s in self.space.sequences(E, 2):
                    for t in TITLES:
                        if s: put(tgt, "modal", mode, s, title=t)
                for s in self.space.sequences(E, 1 if quick else 2):
                    for tol in ("0.5", "1e-3"):
                        if s: put(tgt, "modal", mode, s, tol=tol)
            for s in self.space.sequences(["e1", "d0"], 2) if tgt == "ASTER" else []:
                if s: put(tgt, "buckling", "two", s)
            for sol in (108, 111) if tgt == "ASTER" else (111,):    # SYSTUS has no direct response
                C = ["c0", "c1", "m0", "g1", "cX"] + (["e0"] if sol == 111 else [])
                for mode in HARM:
                    for s in self.space.sequences(C, 2 if quick else 3):
                        if s: put(tgt, "h%d" % sol, mode, s)
                    for s in self.space.sequences(C, 2):
                        for t in TITLES:
                            if s: put(tgt, "h%d" % sol, mode, s, title=t)
                    for s in self.space.sequences(C, 1):
                        for cd in CDS:
                            for t in TITLES:
                                if s: put(tgt, "h%d" % sol, mode, s, cd=cd, title=t)
                        for tol in ("0.5", "1e-3"):
                            if s: put(tgt, "h%d" % sol, mode, s, tol=tol)
        # tables
        for mode in ("one", "two"):
            for cols in self.space.sequences(("NOEUD", "INST", "DX", "DZ", "DRY", "COOR_X", "NUME_ORDRE"), 3 if quick else 4, ok=lambda s: len(set(s)) == len(s)):
                if "NOEUD" in cols and set(cols) & {"DX", "DZ", "DRY"}:
                    put("ASTER", "csv", mode, cols)
            for f in ("plain", "lead", "comment", "crlf", "quoted", "tight", "two", "first"):
                for sch in ("seq", "gap"):
                    put("ASTER", "csv", mode, ("NOEUD", "INST", "NUME_ORDRE", "COOR_X") + DOF, form=f, scheme=sch)
        return out

    # ---- model, results and the tests that they are
    def build(self, p):
        tgt, kind, mode, secs, o = p
        b = model(o.get("cd", "none"), o.get("scheme", "seq"), any(s[0] == "s" for s in secs) and kind == "static")
        extra, sol = [], 101
        if kind in ("static", "csv"):
            case, ids = STATIC[mode]
        elif kind == "modal":
            case, ids = MODAL[mode]; sol = 103
            extra = [("EIGRL", 1, None, None, 10)]
        elif kind == "buckling":
            case, ids = (["SPC=10", "SUBCASE 1", "LOAD=5", "SUBCASE 2", "METHOD=1"], [1, 2]); sol = 105
            extra = [("EIGRL", 1, None, None, 3)]
        else:
            case, ids = HARM[mode]; sol = int(kind[1:])
            extra = list(HCARDS) + [("RLOAD2", 80, 60, None, None, 70), ("RLOAD2", 81, 61, None, None, 70), ("DAREA", 60, b.h[6], 3, 5.), ("DAREA", 61, b.h[6], 1, 2.)]
            if sol == 111:
                case = case[:1] + ["METHOD=1"] + case[1:]
                extra.append(("EIGRL", 1, 0., 500.))
        return b, b.deck(sol, case, extra), ids

    def results(self, p, b, R, ids):
        """(file name, text, tests): tests: (analysis, what, where, reference, order or instant or frequency)"""
        tgt, kind, mode, secs, o = p
        if kind == "csv":
            return self.table(p, b, ids)
        f = F06(o.get("title", 0), o.get("sub", 0), o.get("crlf", 0))
        want = []
        dofs = {n: DOF[:3] for n in b.h}; dofs.update({n: DOF for n in b.q})
        points = sorted(b.h + b.q)
        for k, s in enumerate(secs):
            t = s[0]
            # analysis: the first, the last, one that the model does not have
            known = s[1] != "X"
            sub = ids[0] if s[1] == "0" else ids[-1] if s[1] == "1" else 99
            who = ids.index(sub) + 1 if known else None      # analyses are numbered in their order
            if t in "dbsp":
                rows = [(n, "G", [value(k, i, c) for c in range(6)]) for i, n in enumerate(points)]
                if t == "s" and b.__dict__.get("sp"):
                    rows.append((b.sp[0], "S", [value(k, 20, c) for c in range(3)]))
                    rows.sort()
                f.vector("D I S P L A C E M E N T   V E C T O R", sub, rows, 4 if t in "bp" else None, step := .5 * (k + 1) if t == "p" else None)
                for n, g, v in rows:
                    if g == "G" and known:
                        u = local(R, n, [six(x) for x in v])
                        want += [(who, "DEPL", (n, DOF[c]), u[c], step) for c in range(6) if DOF[c] in dofs[n]]
            elif t in "fl":
                rows = [(n, "G", [value(k, i, c) for c in range(6)]) for i, n in enumerate(points)]
                f.vector("F O R C E S   O F   S I N G L E - P O I N T   C O N S T R A I N T" if t == "f" else "L O A D   V E C T O R", sub, rows)
            elif t in "vwxy":
                cells = [(e, [(n, six(abs(value(k, i + j, 2)) + 1.)) for i, n in enumerate(c)]) for e, c, j in ((b.he, b.h, 0), (b.he2, b.h2, 6))]
                f.stresses(sub, cells, {"v": None, "w": 5, "x": 13, "y": 9}[t])
                if known:
                    want += [(who, "VMIS", (e, n), v, None) for e, l in cells for n, v in l]
            elif t in "era":
                modes = [(six(1e3 * (i + 1) ** 2 * (k + 1.5)), six(8. * (i + 1) * (k + 1.5)), 1. if t == "e" else six(2.5 + i), six(40. * (i + 2))) for i in range(6)]
                f.eigen(sub, modes, {"e": None, "r": None, "a": "(AFTER AUGMENTATION OF RESIDUAL VECTORS)"}[t])
                if known and t != "a":
                    want += [(who, "MODE", i + 1, m, None) for i, m in enumerate(modes)]
            else:
                rows = [(n, "G", [cvalue(k, i, c) for c in range(6)]) for i, n in enumerate(points)]
                freq = (10. if t == "c" else 20.) + 10. * (k > 0)
                f.complex("C O M P L E X   F O R C E S   O F   S I N G L E   P O I N T   C O N S T R A I N T" if t == "g" else "C O M P L E X   D I S P L A C E M E N T   V E C T O R", sub, freq, rows, t == "m")
                if known and t != "g":
                    for n, g, v in rows:
                        u = local(R, n, v)
                        want += [(who, "CPLX", (n, DOF[c]), complex(u[c]), freq) for c in range(6) if DOF[c] in dofs[n]]
        return "ref.f06", f.text(), want

    def table(self, p, b, ids):
        tgt, kind, mode, secs, o = p
        form = o.get("form", "plain")
        cols = (["RESULTAT", "NOM_CHAM"] + list(secs)) if form != "first" else (list(secs) + ["RESULTAT"])
        points = b.h + b.q
        dofs = {n: DOF[:3] for n in b.h}; dofs.update({n: DOF for n in b.q})
        lead = " ," if form == "lead" else ""
        sep = "," if form == "tight" else " ,"
        lines = ["# A TABLE", "#", "#-----"] if form == "comment" else []
        lines.append(lead + sep.join(("%-12s" % c if form != "tight" else c) for c in cols))
        want = []
        who = [ids[0] or 1] + ([ids[-1] or 1] if form == "two" and len(ids) > 1 else [])
        for k, w in enumerate(who):
            inst = 0. if "INST" not in secs else 0.5 * k
            for i, n in enumerate(points):
                row = []
                for c in cols:
                    v = {"RESULTAT": "RESU%d" % w, "NOM_CHAM": "DEPL", "NOEUD": "N%d" % n, "INST": "%.5E" % inst, "NUME_ORDRE": "1", "COOR_X": "%.5E" % (1. * i)}.get(c)
                    if v is None:
                        j = DOF.index(c)
                        x = float("%.5E" % value(k, i, j)); v = "%.5E" % x
                        if c in dofs[n]:
                            want.append((w, "DEPL", (n, c), x, inst))
                    if form == "quoted" and c in ("RESULTAT", "NOM_CHAM", "NOEUD"):
                        v = '"%s"' % v
                    row.append("%12s" % v if form not in ("tight", "quoted") else v)
                lines.append(lead + sep.join(row))
        eol = "\r\n" if form == "crlf" else "\n"
        return "ref.csv", eol.join(lines) + eol, want

    def describe(self, p):
        b, d, ids = self.build(p)
        name, text, want = self.results(p, b, ref.interpret(d), ids)
        return d.render() + "\n---- " + name + "\n" + text
    def judge(self, p):
        tgt, kind, mode, secs, o = p
        b, d, ids = self.build(p)
        R = ref.interpret(d)
        name, text, want = self.results(p, b, R, ids)
        extra = ["-t", name] + (["-x", o["tol"]] if "tol" in o else [])
        tol = float(o.get("tol", "0.02"))
        r = run.translate(d.render("free"), tgt, extra, {name: text.encode() if isinstance(text, str) else text})
        if not r.ok:
            return ["translation ended with %s" % (r.status,)], 1
        got = aster_tests(r, cmp.keyer(R)) if tgt == "ASTER" else systus_tests(r, R)
        return compare(p, tgt, want, got, tol, {b.he: frozenset(b.h), b.he2: frozenset(b.h2)}), 1

def aster_tests(r, key):
    """the tests of a command file"""
    out = []
    c = Comm(r.read("in.comm"))
    if c.errors or c.undefined:
        return [("error", (c.errors + [str(x) for x in c.undefined])[:2])]
    m = aster.Med(r.read("in.med.txt"))
    # a cell of a group of one
    nodes = {"N%d" % (i + 1): key(x[3]) for i, x in enumerate(m.nodes)}
    for name, cmd, a in c.calls:
        if cmd != "TEST_RESU":
            continue
        for t in seq(a["RESU"]):
            res = t["RESULTAT"]
            ident = int(re.sub(r"\D", "", res.name)) if res.name else None
            tolm = seq(t["TOLE_MACHINE"])[0]
            if "PARA" in t:
                out.append((ident, "PARA", (t["NUME_MODE"], t["PARA"]), t["VALE_CALC"], None, tolm, t["CRITERE"]))
                continue
            n = nodes.get(t["NOEUD"], t["NOEUD"]) if "NOEUD" in t else None
            if t["NOM_CHAM"] == "DEPL" and "VALE_CALC_C" in t:
                out.append((ident, "CPLX", (n, t["NOM_CMP"]), t["VALE_CALC_C"], t["FREQ"], tolm, t["CRITERE"]))
            elif t["NOM_CHAM"] == "DEPL":
                v = t["VALE_REFE"]
                if t.get("PRECISION") != tolm:
                    out.append(("error", ["tolerances %s and %s" % (t.get("PRECISION"), tolm)]))
                if abs(t["VALE_CALC"] - v) > 1e-9 * abs(v) + 2e-10:
                    out.append(("error", ["values %s and %s" % (t["VALE_CALC"], v)]))
                if ("INST" in t) == ("NUME_ORDRE" in t) or t.get("NUME_ORDRE", 1) != 1:
                    out.append(("error", ["instant or order"]))
                out.append((ident, "DEPL", (n, t["NOM_CMP"]), v, t.get("INST"), tolm, t["CRITERE"]))
            else:
                g = t["GROUP_MA"]
                cells = [x for x in m.cells if g in m.fam.get(x[1], ("", []))[1]]
                corner = frozenset(nodes["N%d" % i] for i in cells[0][4]) if len(cells) == 1 else ()
                ok = t["NOM_CMP"] == "VMIS" and t["NOM_CHAM"] == "SIEQ_ELNO"
                out.append((ident, "VMIS", (corner if ok else g, n), t["VALE_CALC"], None, tolm, t["CRITERE"]))
    return out

NUMBER = r"[-+0-9.eE]+"
def systus_tests(r, R):
    """the tests of the LANGAGE parts of the data files"""
    out = []
    names = sorted(n for n in os.listdir(r.dir) if re.match(r"in_SC\d+\.DAT$", n))
    for name in names:
        key = cmp.keyer(R)
        sec = systus.sections(r.read(name[:-4] + "_DATA1.ASC"))
        text = r.read(name)
        where = {}
        for l in sec["NODES"][1]:
            w = l.split() if isinstance(l, str) else l
            where[int(w[0])] = key([float(x) for x in w[-3:]])
        for block in re.findall(r'LANGAGE\n(.*?)\nend;', text, re.S):
            ident = re.search(r'open_file\("in_(\d+)\.RESU"', block)
            ident = int(ident.group(1)) if ident else None
            if "close_file(iResu)" not in block:
                out.append(("error", ["file not closed"]))
            for part in block.split("\n\n"):
                tol = re.search(r"if \(diff > abs\((%s)\)\)" % NUMBER, part)
                tol = float(tol.group(1)) if tol else None
                m = re.search(r"displacement = node_displacement\(1,(\d+)\);\ndiff = abs\(\(displacement\[(\d)\]-\((%s)\)\)/\((%s)\)\);" % (NUMBER, NUMBER), part)
                if m:
                    v, w = float(m.group(3)), float(m.group(4))
                    out.append((ident, "DEPL", (where.get(int(m.group(1))), DOF[int(m.group(2)) - 1]), v, None, tol, "'RELATIF'" if w == v else "'ABSOLU'"))
                    continue
                m = re.search(r"frequency = frequency_number\((\d+)\);\ndiff = abs\(\(frequency-\((%s)\)\)/\((%s)\)\);" % (NUMBER, NUMBER), part)
                if m:
                    out.append((ident, "PARA", (int(m.group(1)), "FREQ"), float(m.group(2)), None, tol, "RELATIF" if m.group(2) == m.group(3) else "ABSOLU"))
                    continue
                m = re.search(r"abs\(puls - (%s)\)/(%s)>.*?trans_node_displacement\(nume_ordre,(\d+)\).*?trans_node_displacement\(nume_ordre\+1,(\d+)\).*?displacement_real = displacement\[(\d)\]\*cos\(phase\[(\d)\]\);"
                              r".*?displacement_imag = displacement\[(\d)\]\*sin\(phase\[(\d)\]\);.*?displacement_real-\((%s)\)\) \+ abs\(displacement_imag-\((%s)\)\)\)/\((%s)\)" % ((NUMBER,) * 5), part, re.S)
                if m:
                    g = m.groups()
                    if g[2] != g[3] or len(set(g[4:8])) != 1:
                        out.append(("error", ["a test of two points"])); continue
                    v = complex(float(g[8]), float(g[9]))
                    out.append((ident, "CPLX", (where.get(int(g[2])), DOF[int(g[4]) - 1]), v, float(g[0]) / (2 * np.pi), tol, "RELATIF" if abs(float(g[10]) - abs(v)) <= 1e-5 * abs(v) else "ABSOLU"))
                    continue
                if "TEST_RESU" in part:
                    out.append(("error", ["test not understood: %s" % part[:200]]))
    return out

def compare(p, tgt, want, got, tol, cells):
    kind, mode = p[1], p[2]
    bad = [g[1] for g in got if g[0] == "error"]
    if bad:
        return ["%s" % bad[0][0]]
    exp = []
    for who, what, where, v, x in want:
        if what == "MODE":
            l, f, mass, k = v
            if tgt == "SYSTUS":
                if kind == "modal":
                    exp.append((who, "PARA", (where, "FREQ"), f, None))
            elif kind == "buckling":
                exp.append((who, "PARA", (where, "CHAR_CRIT"), l, None))
            else:
                exp += [(who, "PARA", (where, q), y, None) for q, y in (("FREQ", f), ("MASS_GENE", mass), ("RIGI_GENE", k)) if q != "RIGI_GENE" or mass != 1.]
        elif what == "VMIS":
            exp.append((who, what, (cells[where[0]], where[1]), v, x))
        else:
            exp.append((who, what, where, v, x))
    out = []
    left = list(got)
    index = {}
    for g in left:
        index.setdefault(g[:3], []).append(g)
    for e in exp:
        c = index.get(e[:3], [])
        small = lambda a, b: abs(a - b) <= 2e-6 * abs(b) + 2e-12 + (1e-5 * wide if e[1] == "CPLX" else 0.)
        # polar values are printed with six digits
        wide = abs(e[3]) if e[1] == "CPLX" else 0.
        g = next((g for g in c if small(g[3], e[3]) and (e[4] is None) == (g[4] is None) and (e[4] is None or abs(g[4] - e[4]) <= 1e-5 * (1 + abs(e[4])))), None)
        if g is None:
            out.append("no test of %s %s of analysis %s: %s%s; there is %s" % (e[1], e[2], e[0], e[3], "" if e[4] is None else " at %s" % e[4], [(x[3], x[4]) for x in c][:3]))
            continue
        c.remove(g)
        if abs(g[5] - (tol if e[1] != "CPLX" and e[1] != "VMIS" or abs(e[3]) >= 1e-3 else g[5])) > 1e-9:
            out.append("tolerance of the test of %s %s: %s, not %s" % (e[1], e[2], g[5], tol))
        if abs(e[3]) >= 1e-3 and "RELATIF" not in g[6]:
            out.append("test of %s %s of %s is not relative" % (e[1], e[2], e[3]))
        if e[3] == 0 and "ABSOLU" not in g[6]:
            out.append("test of %s %s of zero is relative" % (e[1], e[2]))
    for l in index.values():
        for g in l:
            out.append("test of nothing in the results: analysis %s %s %s = %s%s" % (g[0], g[1], g[2], g[3], "" if g[4] is None else " at %s" % g[4]))
    return out

if __name__ == "__main__":
    sys.exit(check.main(Tests))
