"""Is each subcase one analysis with exactly the selections in force for it?"""
import itertools, math, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import check, run, nas, ref, cmp, cons, aster, systus, dyn
from lib.comm import seq
from lib.fem import Load

CARDS = [("GRID", 1, None, 0., 0., 0.), ("GRID", 2, None, 1., 0., 0.), ("GRID", 3, None, 1., 1., 0.), ("GRID", 4, None, 0., 1., 0.), ("GRID", 5, None, 2., 0., 0.), ("GRID", 6, None, 2., 1., 0.),
         ("CQUAD4", 1, 1, 1, 2, 3, 4), ("CQUAD4", 2, 1, 2, 5, 6, 3), ("PSHELL", 1, 1, 0.1, 1, None, 1), ("MAT1", 1, 2.1e11, None, 0.3, 7800.)]
BULK = {
    "SPC": [[("SPC1", 10, 123456, 1, 4)], [("SPC1", 20, 123456, 1, 2), ("SPC1", 20, 3, 4)]],
    "LOAD": [[("FORCE", 5, 3, 0, 1., 0., 0., 5.)], [("FORCE", 6, 6, 0, 1., 0., 6., 0.), ("FORCE", 6, 5, 0, 1., 0., 0., 7.)]],
    "MPC": [[("MPC", 30, 3, 1, 1., 6, 1, -1.)], [("MPC", 40, 3, 2, 1., 6, 2, -1.)]],
    "METHOD": [[("EIGRL", 50, None, None, 4)], [("EIGRL", 60, None, None, 7)]],
    "NLPARM": [[("NLPARM", 70, 5)], [("NLPARM", 75, 10)]],
    "FREQ": [[("FREQ1", 90, 0., 10., 5)], [("FREQ1", 95, 5., 20., 3)]],
    "DLOAD": [[("RLOAD2", 80, 181, None, None, 182), ("DAREA", 181, 3, 3, 5.)], [("RLOAD2", 83, 184, None, None, 182), ("DAREA", 184, 6, 2, 6.)]],
    "SDAMPING": [[("TABDMP1", 85, "CRIT", None, None, None, None, None, None, 0., .02, 1000., .02, "ENDT")], [("TABDMP1", 86, "CRIT", None, None, None, None, None, None, 0., .04, 1000., .04, "ENDT")]],
}
IDS = {"SPC": (10, 20), "LOAD": (5, 6), "MPC": (30, 40), "METHOD": (50, 60), "NLPARM": (70, 75), "FREQ": (90, 95), "DLOAD": (80, 83), "SDAMPING": (85, 86)}
TABLED = [("TABLED1", 182, None, None, None, None, None, None, None, 0., 1., 1000., 1., "ENDT")]
FORCES = {80: {(3, "DZ"): 5.}, 83: {(6, "DY"): 6.}}
LISTS = {90: [0., 10., 20., 30., 40., 50.], 95: [5., 25., 45., 65.]}
MODES = {50: 4, 60: 7}
STEPS = {70: 5, 75: 10}
CRIT = {85: .02, 86: .04, None: None}
KEYS = {101: ("SPC", "LOAD", "MPC"), 103: ("SPC", "MPC", "METHOD"), 105: ("SPC", "LOAD", "MPC", "METHOD"), 106: ("SPC", "LOAD", "MPC", "NLPARM"),
        108: ("SPC", "DLOAD", "FREQ"), 111: ("SPC", "DLOAD", "FREQ", "METHOD", "SDAMPING")}
NEED = {101: (), 103: ("METHOD",), 106: ("NLPARM",), 108: ("DLOAD", "FREQ"), 111: ("DLOAD", "FREQ", "METHOD")}
OPTIONAL = ("MPC", "SDAMPING")
# requests and texts that select nothing
NOISE = {"-": (), "spcf": ("SET 20 = 1,2", "SPCFORCES = 20"), "spcfall": ("SPCFORCES = ALL",), "spcfopt": ("SPCFORCES(PLOT,PRINT) = ALL",), "mpcf": ("SET 40 = 3", "MPCFORCES = 40"), "mpcfall": ("MPCFORCES = ALL",),
         "oload": ("SET 6 = 3", "OLOAD = 6"), "disp": ("SET 5 = 3 THRU 5", "DISP = 5"), "dispall": ("DISPLACEMENT(SORT1,REAL) = ALL",), "stress": ("STRESS = ALL",), "force": ("FORCE = ALL",),
         "title": ("TITLE = SPC=20", "SUBTITLE = LOAD = 6"), "label": ("LABEL = MPC 40 METHOD 60",), "echo": ("ECHO = NONE",), "comment": ("$ SPC = 20",), "gp": ("GPFORCE = ALL",)}
# other names of the same command
NAMES = {"METHOD": ("METHOD(STRUCTURE)",), "FREQ": ("FREQUENCY",), "SDAMPING": ("SDAMPING(STRUCTURE)",)}

SUBSEQ = [lambda c: ["SUBSEQ = " + ", ".join(c)], lambda c: ["SUBSEQ=" + ",".join(c)], lambda c: ["  SUBSEQ " + ",".join(c), "LABEL = COMBINATION"], lambda c: ["SUBSEQ = " + c[0]] if len(c) == 1 else ["SUBSEQ = %s," % c[0], "         " + ", ".join(c[1:])]]

def patterns(n):
    """what one command says above and in each of n subcases: None, the first or the second set; the first set is the first used"""
    out = []
    for v in itertools.product((None, 0, 1), repeat=n + 1):
        u = [x for x in v if x is not None]
        if not u or u[0] == 0:
            out.append(v)
    return out

def effective(v, n):
    """set in force in each subcase (n = 0: one analysis)"""
    return [v[0]] if n == 0 else [v[i + 1] if v[i + 1] is not None else v[0] for i in range(n)]

class Case(check.Check):
    pid = "C12"
    rule = "every way to give each selection above and in up to three subcases: sets of commands that differ from the ordinary layout up to the depth"
    def states(self, sol, n, depth):
        """(command -> pattern) reached from the ordinary layout by changing one command at a time"""
        keys = KEYS[sol]
        pats = patterns(n)
        base = {k: tuple([None if k in OPTIONAL else 0] + [None] * n) for k in keys}
        if sol == 105:
            base["METHOD"] = tuple([None] * n + [0])
        out = []
        for s in self.space.subsets(list(keys), depth):
            for c in itertools.product(*[[p for p in pats if p != base[k]] for k in s]):
                d = dict(base); d.update(zip(s, c))
                self.space.states += 1
                eff = {k: effective(d[k], n) for k in keys}
                if sol == 105:
                    # static subcases, then buckling ones
                    m = [x is not None for x in eff["METHOD"]]
                    if n < 2 or m[0] or not m[-1] or sorted(m) != m:
                        continue
                    if any(l is None for l, b in zip(eff["LOAD"], m) if not b):
                        continue
                elif any(x is None for k in NEED[sol] for x in eff[k]):
                    continue
                if any(x is None for x in eff["SPC"]) and sol != 101:
                    continue
                if sol == 101 and any(x is None for x in eff["SPC"]) and sum(x is None for k in keys for x in eff[k]) > 3:
                    continue
                out.append(d)
        return out
    def cases(self):
        out = []
        quick = self.tier == "quick"
        for sol in KEYS:
            for n in (0, 1, 2, 3):
                if sol == 105 and n < 2:
                    continue
                depth = {0: 4, 1: 3, 2: 3 if len(KEYS[sol]) < 4 or not quick else 2, 3: 1 if quick else 2}[n]
                for d in self.states(sol, n, depth):
                    lab = " ".join("%s:%s" % (k, "".join("-" if x is None else "ab"[x] for x in d[k])) for k in KEYS[sol])
                    tg = ["ASTER"]
                    if sol in (101, 103, 111):
                        tg.append("SYSTUS")
                    if sol == 101:
                        tg.append("NASTRAN")
                    for t in tg:
                        if quick and n >= 2 and t != "ASTER" and sum(v[1:] != (None,) * n for v in d.values()) > 2:
                            continue
                        out.append(("%s SOL %d %s" % (t, sol, lab), (t, sol, n, d, (1, 2, 3), (), ())))
        # numbers of the subcases, other requests, other names
        for sol in KEYS:
            tg = ["ASTER"] + (["SYSTUS"] if sol in (101, 103, 111) else []) + (["NASTRAN"] if sol == 101 else [])
            n = 2
            d = {k: tuple([None if k in OPTIONAL else 0] + [None] * n) for k in KEYS[sol]}
            d["SPC"] = (None, 0, 1)
            if sol == 105:
                d["METHOD"] = (None, None, 0)
            for t in tg:
                for ids in ((10, 20, 30), (3, 7, 8), (5, 100000, 100001)):
                    out.append(("%s SOL %d numbers %s" % (t, sol, ids[:2]), (t, sol, n, d, ids, (), ())))
                ns = [x for x in NOISE if x != "-"]
                for s in self.space.subsets([(x, w) for x in ns for w in (0, 1, 2)], 1 if quick and t != "ASTER" or sol not in (101, 111) else 2):
                    if s and len({x for x, _ in s}) == len(s):
                        out.append(("%s SOL %d noise %s" % (t, sol, " ".join("%s@%d" % x for x in s)), (t, sol, n, d, (1, 2, 3), s, ())))
                for k in NAMES:
                    if k in KEYS[sol]:
                        for v in patterns(n):
                            if sol == 105 and (v[0] is not None or v[1] is not None):
                                continue
                            if any(x is None for x in effective(v, n)) and k in NEED.get(sol, ()):
                                continue
                            for w in itertools.product((0, 1), repeat=n + 1):
                                if any(x is None and y for x, y in zip(v, w)) or not any(w):
                                    continue
                                e = dict(d); e[k] = v
                                out.append(("%s SOL %d name %s %s %s" % (t, sol, k, "".join("-" if x is None else "ab"[x] for x in v), "".join(map(str, w))), (t, sol, n, e, (1, 2, 3), (), (k, w))))
        # combinations of the subcases
        d0 = {"SPC": (0, None, None, None), "LOAD": (None, 0, 1, 0), "MPC": (None,) * 4}
        for n in (1, 2, 3):
            d = {k: v[:n + 1] for k, v in d0.items()}
            one = [(m, co, st) for m in range(1, n + 1) for co in itertools.product((1., -2.5, 0.), repeat=m) for st in range(len(SUBSEQ))]
            two = [((a[0], a[1], 0), (b[0], b[1], 0)) for a in one for b in one if a[2] == b[2] == 0 and b[0] >= a[0]]
            for cs in [(a,) for a in one] + two:
                self.space.states += 1
                for t in ("ASTER", "SYSTUS", "NASTRAN"):
                    if t == "SYSTUS" and len(cs) > 1 and quick:
                        continue
                    out.append(("%s combinations of %d: %s" % (t, n, " ".join("%s%s" % (list(c[1]), "abcd"[c[2]]) for c in cs)), (t, 101, n, d, (1, 2, 3), (), ("+",) + cs)))
        return out
    def deck(self, p):
        t, sol, n, d, ids, noise, names = p
        combos = names[1:] if names and names[0] == "+" else ()
        if combos:
            names = ()
        def sec(i):
            l = []
            for k in KEYS[sol]:
                if d[k][i] is not None:
                    nm = k
                    if names and names[0] == k and names[1][i]:
                        nm = NAMES[k][0]
                    l.append("%s = %d" % (nm, IDS[k][d[k][i]]))
            for x, w in noise:
                if w == i:
                    l += list(NOISE[x])
            return l
        case = sec(0)
        for i in range(n):
            case += ["SUBCASE %d" % ids[i]] + sec(i + 1)
            # each combination comes after the last subcase it combines
            for k, (m, co, st) in enumerate(combos):
                if m == i + 1:
                    case += ["SUBCOM %d" % (10 + k)] + SUBSEQ[st](["%g" % x if x % 1 else "%d." % x for x in co])
        cards = list(CARDS)
        for k in KEYS[sol]:
            for c in BULK[k]:
                cards += c
        if "DLOAD" in KEYS[sol]:
            cards += TABLED
        return nas.Deck(sol, case, cards)
    def describe(self, p):
        return self.deck(p).render()
    def judge(self, p):
        t, sol, n, d, ids, noise, names = p
        dk = self.deck(p)
        R = ref.interpret(nas.Deck(101, [l for l in self.deck((t, sol, n, d, ids, (), ())).case], dk.cards))
        r = run.translate(dk.render(), t)
        if not r.ok:
            return ["translation ended with %s" % (r.status,)], 1
        exp = [{k: (None if effective(d[k], n)[i] is None else IDS[k][effective(d[k], n)[i]]) for k in KEYS[sol]} for i in range(max(n, 1))]
        if names and names[0] == "+":
            return sorted(set({"ASTER": k_aster, "SYSTUS": k_systus, "NASTRAN": k_nastran}[t](R, r, sol, exp, ids, names[1:]))), 1
        return sorted(set({"ASTER": j_aster, "SYSTUS": j_systus, "NASTRAN": j_nastran}[t](R, r, sol, exp, ids))), 1

def rows_aster(g, names):
    out = []
    for nm in names:
        c = g.charges.get(nm)
        if c is None:
            g.errors.append("unknown charge %s" % nm)
        else:
            out += c.rows
    return out

def modes_of(x):
    """the command that computes the modes of a base"""
    while getattr(x, "cmd", None) in ("EXTR_MODE", "NORM_MODE", "DEFI_BASE_MODALE"):
        a = x.args
        if x.cmd == "EXTR_MODE":
            x = seq(a["FILTRE_MODE"])[0]["MODE"]
        elif x.cmd == "NORM_MODE":
            x = a["MODE"]
        else:
            x = next(q["MODE_MECA"] for q in seq(a["RITZ"]) if "MODE_MECA" in q)
    return x

def nmodes(a):
    for k, q in (("CALC_FREQ", "NMAX_FREQ"), ("CALC_CHAR_CRIT", "NMAX_CHAR_CRIT")):
        if k in a:
            return seq(a[k])[0].get(q)

def j_aster(R, r, sol, exp, ids):
    """sol: one solution, or that of each analysis"""
    g = aster.read(r, key=cmp.keyer(R))
    out = list(g.errors)
    g.errors = []
    gen = dyn.Generalised(g.comm)
    n = len(exp)
    sols = list(sol) if isinstance(sol, (list, tuple)) else [sol] * n
    if sol == 111:
        solves = [s for s in g.solves if s[1] == "DYNA_VIBRA"]
    elif 111 in sols:
        # the modes of modal responses are computed where they stand
        solves, k = [], 0
        for s in g.solves:
            if k < n and sols[k] == 111 and s[1] == "CALC_MODES":
                continue
            solves.append(s); k += 1
    else:
        solves = g.solves
    if len(solves) != n:
        return out + ["%d solution commands, expected %d" % (len(solves), n)]
    static = None
    for i, (e, a) in enumerate(zip(exp, R.fem.analyses)):
        what = "analysis %s" % (i + 1)
        sol = sols[i]
        name, cmd, args = solves[i]
        want = {101: "MECA_STATIQUE", 103: "CALC_MODES", 105: "CALC_MODES" if e.get("METHOD") else "MECA_STATIQUE", 106: "STAT_NON_LINE", 108: "DYNA_VIBRA", 111: "DYNA_VIBRA"}[sol]
        if cmd != want:
            out.append("%s: %s instead of %s" % (what, cmd, want)); continue
        if cmd in ("MECA_STATIQUE", "STAT_NON_LINE"):
            ch = [aster.chname(x["CHARGE"]) for x in seq(args.get("EXCIT"))]
            if len(set(ch)) != len(ch):
                out.append("%s: a charge is applied twice: %s" % (what, ch))
            rows = rows_aster(g, ch)
            if cmd == "MECA_STATIQUE":
                out += cmp.load_diff(a.load, load_of(g, [(c, 1.0) for c in ch]), what)
                if sol in (101, 105) and static is None:
                    static = name
            else:
                t = dyn.values(args["INCREMENT"]["LIST_INST"])
                if len(t) - 1 != STEPS[e["NLPARM"]]:
                    out.append("%s: %d increments, expected %d" % (what, len(t) - 1, STEPS[e["NLPARM"]]))
                if not abs(t[0] - i) < 1e-9 or not abs(t[-1] - i - 1) < 1e-9:
                    out.append("%s: times from %g to %g" % (what, t[0], t[-1]))
                prev = R.fem.analyses[i - 1].load if i else Load()
                for s in t:
                    f = []
                    for x in seq(args.get("EXCIT")):
                        f.append((aster.chname(x["CHARGE"]), dyn.func(x.get("FONC_MULT"), s)))
                    u = s - i
                    ex = Load()
                    for l, k in ((prev, 1 - u), (a.load, u)):
                        for q, v in l.nodal.items():
                            ex.add_nodal(q[0], q[1], k * v)
                    out += cmp.load_diff(ex, load_of(g, f), "%s: at time %g" % (what, s))
                st = args.get("ETAT_INIT")
                if (st is None) != (i == 0) or st and aster.chname(seq(st)[0].get("EVOL_NOLI")) != solves[i - 1][0]:
                    out.append("%s: initial state %s" % (what, st))
        elif cmd == "CALC_MODES":
            ch = aster.matrix_charges(g, name, args)
            rows = rows_aster(g, ch)
            if nmodes(args) != MODES[e["METHOD"]]:
                out.append("%s: %s modes, expected %s" % (what, nmodes(args), MODES[e["METHOD"]]))
            if sol == 105:
                kg = args.get("MATR_RIGI_GEOM")
                try:
                    st = aster.chname(kg.args["MATR_ELEM"].args["SIEF_ELGA"].args["RESULTAT"])
                except Exception:
                    st = None
                if st != static:
                    out.append("%s: geometric stiffness of %s, expected %s" % (what, st, static))
        else:
            if sol == 111:
                m = gen.by.get(aster.chname(args.get("MATR_RIGI")))
                base = modes_of(m[0]) if m else None
                if base is None or base.cmd != "CALC_MODES":
                    out.append("%s: no modes" % what); continue
                ch = aster.matrix_charges(g, name, base.args)
                if nmodes(base.args) != MODES[e["METHOD"]]:
                    out.append("%s: %s modes, expected %s" % (what, nmodes(base.args), MODES[e["METHOD"]]))
                ch2 = aster.matrix_charges(g, name, {"MATR_RIGI": m[2], "MATR_MASS": gen.by[aster.chname(args["MATR_MASS"])][2]})
                if ch != ch2:
                    out.append("%s: modes with the constraints %s, matrices with %s" % (what, ch, ch2))
                am = args.get("AMOR_MODAL")
                got = None
                if am:
                    k = seq(am)[0].get("AMOR_REDUIT")
                    k = seq(k)[0] if isinstance(k, (list, tuple)) else k
                    k = getattr(k, "source", k)
                    while getattr(k, "cmd", None) == "CREA_TABLE":
                        k = seq(k.args["FONCTION"])[0]["FONCTION"]
                    got = dyn.func(k, 25.)
                if (got is None) != (CRIT[e["SDAMPING"]] is None) or got is not None and not abs(got - CRIT[e["SDAMPING"]]) < 1e-9:
                    out.append("%s: modal damping %s, expected %s" % (what, got, CRIT[e["SDAMPING"]]))
            else:
                ch = aster.matrix_charges(g, name, args)
            rows = rows_aster(g, ch)
            for x in seq(args.get("EXCIT")):
                v = x.get("VECT_ASSE") or (gen.by.get(aster.chname(x.get("VECT_ASSE_GENE"))) or (0, 0, None))[2]
                if v is None:
                    continue
                nu = sorted(aster.chname(q) for q in seq(v.args["NUME_DDL"].args.get("CHARGE")))
                if nu != ch:
                    out.append("%s: matrices with the constraints %s, excitation with %s" % (what, ch, nu))
            fr = dyn.values(args.get("LIST_FREQ"))
            if len(fr) != len(LISTS[e["FREQ"]]) or any(not abs(x - y) < 1e-6 for x, y in zip(fr, LISTS[e["FREQ"]])):
                out.append("%s: frequencies %s, expected %s" % (what, fr[:8], LISTS[e["FREQ"]]))
            for f in (7., 33.):
                h, x = dyn.harmonic(g, solves[i], f, gen), FORCES[e["DLOAD"]]
                if set(h) != set(x) or any(not abs(h[k] - x[k]) < 1e-6 for k in x):
                    out.append("%s: excitation %s, expected %s" % (what, h, x))
        out += cons.affine(a.rows, rows, what)
    return out + g.errors

def k_aster(R, r, sol, exp, ids, combos):
    """the combinations, the static analyses being judged as usual"""
    g = aster.read(r, key=cmp.keyer(R))
    out = list(g.errors)
    res = [s[0] for s in g.solves]
    if len(res) != len(exp) or any(s[1] != "MECA_STATIQUE" for s in g.solves):
        return out + ["%d solution commands, expected %d" % (len(res), len(exp))]
    for i, (a, (nm, cmd, args)) in enumerate(zip(R.fem.analyses, g.solves)):
        out += cmp.load_diff(a.load, load_of(g, [(aster.chname(x["CHARGE"]), 1.0) for x in seq(args.get("EXCIT"))]), "analysis %d" % (i + 1))
    got = [a for n, c, a in g.comm.calls if c == "CREA_RESU"]
    if len(got) != len(combos):
        return out + ["%d combinations, expected %d" % (len(got), len(combos))]
    order = sorted(range(len(combos)), key=lambda k: (combos[k][0], k))
    for a, k in zip(got, order):
        ch = seq(a["AFFE"])[0]["CHAM_GD"]
        x = {}
        for q in seq(ch.args["ASSE"]):
            f = q["CHAM_GD"]
            if seq(q.get("CUMUL")) != ["OUI"] or f.args.get("NOM_CHAM") != "DEPL":
                out.append("combination %d: %s" % (k + 1, q))
            nm = aster.chname(f.args["RESULTAT"])
            x[nm] = x.get(nm, 0.) + float(q["COEF_R"])
        w = {res[i]: c for i, c in enumerate(combos[k][1]) if c}
        if {i: c for i, c in x.items() if c} != w:
            out.append("combination %d: %s, expected %s" % (k + 1, x, w))
    return out + g.errors

def k_systus(R, r, sol, exp, ids, combos):
    out = [] if "COMBINATION" in r.out + r.err else ["combinations are left out without a message"]
    cs, errs = cons.systus_cases(r)
    if len(cs) < len(exp):
        return out + ["%d load cases, expected %d" % (len(cs), len(exp))]
    for i, (a, (nm, g, k, l)) in enumerate(zip(R.fem.analyses, cs)):
        out += cons.affine(a.rows, cons.systus_all_rows(g, l)[0], "analysis %d" % (i + 1)) + cmp.load_diff(a.load, cons.systus_load(g, l), "analysis %d" % (i + 1))
    return out

def k_nastran(R, r, sol, exp, ids, combos):
    out = j_nastran(R, r, sol, exp, ids)
    got = nas.combinations((r.read("in_vg.nas") or "").split("BEGIN BULK")[0].splitlines())
    order = sorted(range(len(combos)), key=lambda k: (combos[k][0], k))
    want = [(10 + k, list(combos[k][1])) for k in order]
    if got != want:
        out.append("combinations %s, expected %s" % (got, want))
    return out

def load_of(g, charges):
    L = Load()
    for c, k in charges:
        ch = g.charges.get(c)
        if ch is None:
            g.errors.append("unknown charge %s" % c); continue
        for q, v in ch.load.nodal.items():
            L.add_nodal(q[0], q[1], k * v)
    return L

def j_systus(R, r, sol, exp, ids):
    out = []
    if sol == 101:
        cs, errs = cons.systus_cases(r)
        out += errs
        if len(cs) != len(exp):
            return out + ["%d load cases, expected %d" % (len(cs), len(exp))]
        if len(exp) > 1:
            # analyses with the same constraints share a file: the names say which subcase each load case is of
            num = [re.match(r"Analysis_(\d+)_", g.loads[k][0]) for nm, g, k, l in cs]
            if all(m and m.group(1) for m in num):
                cs = [c for _, c in sorted(zip([int(m.group(1)) for m in num], cs), key=lambda x: x[0])]
                if sorted(int(m.group(1)) for m in num) != list(ids[:len(exp)]):
                    out.append("load cases of subcases %s" % [m.group(1) for m in num])
        for i, (a, (nm, g, k, l)) in enumerate(zip(R.fem.analyses, cs)):
            what = "analysis %s" % (i + 1)
            out += cons.affine(a.rows, cons.systus_all_rows(g, l)[0], what)
            out += cmp.load_diff(a.load, cons.systus_load(g, l), what)
        return out
    fs = systus.read_all(r)
    if len(fs) != len(exp):
        return out + ["%d files, expected %d" % (len(fs), len(exp))]
    for i, (e, a, (nm, g)) in enumerate(zip(exp, R.fem.analyses, fs)):
        what = "analysis %s" % (i + 1)
        out += ["%s: %s" % (what, x) for x in g.errors]
        t = r.read(nm.replace("_DATA1.ASC", ".DAT")) or ""
        m = re.search(r"^VECTOR (\d+) ", t, re.M)
        if not m or int(m.group(1)) != MODES[e["METHOD"]]:
            out.append("%s: %s modes, expected %s" % (what, m and m.group(1), MODES[e["METHOD"]]))
        l = next(iter(g.lc.values())) if g.lc else Load()
        out += cons.affine(a.rows, cons.systus_all_rows(g, l)[0], what)
        if sol == 111:
            m = re.search(r"^DAMPING GAMMA (\S+)", t, re.M)
            got = float(m.group(1)) if m else None
            if (got is None) != (CRIT[e["SDAMPING"]] is None) or got is not None and not abs(got - CRIT[e["SDAMPING"]]) < 1e-9:
                out.append("%s: modal damping %s, expected %s" % (what, got, CRIT[e["SDAMPING"]]))
            m = re.search(r"^FREQUENCY INITIAL (\S+)\s+(\S+) STEP (\S+)", t, re.M)
            if not m:
                out.append("%s: no frequencies" % what)
            else:
                a0, b0, s0 = (float(x) for x in m.groups())
                fr = [a0 + s0 * k for k in range(1, int(round((b0 - a0) / s0)) + 1)]
                if len(fr) != len(LISTS[e["FREQ"]]) or any(not abs(x - y) < 1e-6 for x, y in zip(fr, LISTS[e["FREQ"]])):
                    out.append("%s: frequencies %s, expected %s" % (what, fr[:8], LISTS[e["FREQ"]]))
            if len(g.lc) != 1:
                out.append("%s: %d load cases" % (what, len(g.lc)))
            x = {k: v for k, v in l.nodal.items()}
            w = FORCES[e["DLOAD"]]
            if set(x) != set(w) or any(not abs(x[k] - w[k]) < 1e-6 for k in w):
                out.append("%s: excitation %s, expected %s" % (what, x, w))
    return out

def j_nastran(R, r, sol, exp, ids):
    G = nas.read(r)
    if G is None:
        return ["no file"]
    if [a.id for a in G.fem.analyses] != list(ids[:len(exp)]) and len(exp) > 1:
        return ["subcases %s" % [a.id for a in G.fem.analyses]]
    if len(G.fem.analyses) != len(exp):
        return ["%d subcases, expected %d" % (len(G.fem.analyses), len(exp))]
    out = []
    for i, (a, b) in enumerate(zip(R.fem.analyses, G.fem.analyses)):
        what = "analysis %s" % (i + 1)
        out += cons.affine(a.rows, b.rows, what) + cmp.load_diff(a.load, b.load, what)
    return out

if __name__ == "__main__":
    sys.exit(check.main(Case))
