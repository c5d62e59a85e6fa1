"""Values of the lists, functions and excitations of a Code_Aster command file."""
import bisect, cmath, math
from lib import comm as C, aster
from lib.comm import seq

def values(x):
    """numbers of a DEFI_LIST_REEL / DEFI_LIST_INST, in order"""
    if not isinstance(x, C.Concept):
        return [float(v) for v in seq(x)]
    a = x.args
    if x.cmd == "DEFI_LIST_INST":
        return values(a["DEFI_LIST"]["LIST_INST"])
    if x.cmd == "CALC_FONC_INTERP":
        return values(a["VALE_PARA"])
    if "VALE" in a:
        return [float(v) for v in seq(a["VALE"])]
    out = [float(a.get("DEBUT", 0.0))]
    for i in seq(a.get("INTERVALLE")):
        e, b = float(i["JUSQU_A"]), out[-1]
        n = int(i["NOMBRE"]) if "NOMBRE" in i else int(round((e - b) / float(i["PAS"])))
        out += [b + (e - b) * (k + 1) / n for k in range(n)]
    return out

class Undefined(Exception):
    pass

def func(x, t):
    """value at t of a constant, a number or a tabulated function (interpolation and prolongation as Code_Aster does)"""
    if x is None:
        return 1.0
    if not isinstance(x, C.Concept):
        return float(x)
    a = x.args
    if x.cmd == "DEFI_CONSTANTE":
        return float(a["VALE"])
    if x.cmd == "CALC_FONC_INTERP":
        return func(a["FONCTION"], t)
    if x.cmd == "CALC_FONCTION":
        return sum(float(c["COEF"]) * func(c["FONCTION"], t) for c in seq(a["COMB"]))
    if x.cmd == "FORMULE":
        env = {p: t for p in seq(a["NOM_PARA"])}
        env.update(sin=math.sin, cos=math.cos, pi=math.pi, exp=math.exp, sqrt=math.sqrt)
        return float(eval(a["VALE"], {"__builtins__": {}}, env))
    if x.cmd != "DEFI_FONCTION":
        raise Undefined("%s is not a function" % x.name)
    v = [float(q) for q in seq(a["VALE"])]
    X, Y = v[0::2], v[1::2]
    if any(p >= q for p, q in zip(X, X[1:])):
        raise Undefined("%s: abscissae are not increasing" % x.name)
    ip = seq(a.get("INTERPOL")) or ["LIN"]
    ix, iy = ip[0], ip[-1]
    lin = lambda i, s: _interp(X[i], Y[i], X[i + 1], Y[i + 1], s, ix, iy)
    if t < X[0] - 1e-9 or t > X[-1] + 1e-9:
        k = a.get("PROL_GAUCHE" if t < X[0] else "PROL_DROITE", "EXCLU")
        if k == "EXCLU":
            raise Undefined("%s is not defined at %g" % (x.name, t))
        if k == "CONSTANT":
            return Y[0] if t < X[0] else Y[-1]
        return lin(0, t) if t < X[0] else lin(len(X) - 2, t)
    i = min(max(bisect.bisect_right(X, t) - 1, 0), max(len(X) - 2, 0))
    return lin(i, t) if len(X) > 1 else Y[0]

def _interp(x0, y0, x1, y1, t, ix, iy):
    f = (lambda q: math.log(q)) if ix == "LOG" else (lambda q: q)
    g = (lambda q: math.log(q)) if iy == "LOG" else (lambda q: q)
    r = g(y0) + (g(y1) - g(y0)) * (f(t) - f(x0)) / (f(x1) - f(x0))
    return math.exp(r) if iy == "LOG" else r

def vector_charges(f, v):
    """names of the charges that an assembled vector comes from"""
    if not isinstance(v, C.Concept) or v.cmd != "ASSE_VECTEUR":
        f.errors.append("%s is not an assembled vector" % aster.chname(v)); return []
    el = v.args.get("VECT_ELEM")
    return [aster.chname(x) for x in seq(el.args.get("CHARGE"))]

class Generalised:
    """what PROJ_BASE makes: name of the concept -> (base, kind, assembled concept)"""
    def __init__(s, cm):
        s.by = {}
        for n, c, a in cm.calls:
            if c != "PROJ_BASE":
                continue
            for x in seq(a.get("MATR_ASSE_GENE")):
                s.by[x["MATRICE"].name] = (a["BASE"], "M", x["MATR_ASSE"])
            for x in seq(a.get("VECT_ASSE_GENE")):
                s.by[x["VECTEUR"].name] = (a["BASE"], x.get("TYPE_VECT", "FORC"), x["VECT_ASSE"])

def harmonic(f, solve, freq, gen=None):
    """complex nodal forces {(node, dof): value} of a DYNA_VIBRA at a frequency"""
    name, cmd, a = solve
    out = {}
    for x in seq(a.get("EXCIT")):
        v = x.get("VECT_ASSE")
        if v is None:
            g = gen.by.get(aster.chname(x.get("VECT_ASSE_GENE")))
            if g is None:
                f.errors.append("%s: %s was not projected" % (name, aster.chname(x.get("VECT_ASSE_GENE")))); continue
            if g[1] != "FORC":
                f.errors.append("%s: an excitation of kind %s" % (name, g[1]))
            v = g[2]
        k = func(x.get("FONC_MULT"), freq) * cmath.exp(1j * math.radians(float(x.get("PHAS_DEG", 0.0))))
        for c in vector_charges(f, v):
            ch = f.charges.get(c)
            if ch is None:
                f.errors.append("%s uses unknown charge %s" % (name, c)); continue
            for q, w in ch.load.nodal.items():
                out[q] = out.get(q, 0.0) + k * w
            if ch.load.face or ch.load.line or ch.load.other or ch.load.rot or abs(ch.load.grav).max() > 0:
                f.errors.append("%s: other loads than nodal forces" % name)
    return {k: v for k, v in out.items() if abs(v) > 1e-12}
