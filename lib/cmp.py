"""Comparison of an expected model (Ref) with what a translation contains, facet by facet -> list of problem strings."""
import math
import numpy as np
from lib.sem import *
from lib.fem import *
from lib import aster

def keyer(ref, perm=False):
    """coordinates -> node id of the reference"""
    tab = {}
    for k, x in ref.fem.nodes.items():
        tab.setdefault(tuple(round(float(v), 6) + 0.0 for v in x), k)
    ext = list(ref.fem.nodes.items())
    seen = {}
    def key(xyz):
        """points at the same place are told apart by their order (perm: which order)"""
        t = tuple(round(float(v), 6) + 0.0 for v in xyz)
        c = [k for k, x in ext if all(abs(a - b) <= 2e-6 * (1 + abs(a)) for a, b in zip(x, xyz))] if len(ext) > len(tab) or t not in tab else [tab[t]]
        if perm:
            c = c[::-1]
        n = seen[t] = seen.get(t, -1) + 1
        if n < len(c):
            return c[n]
        return ("?",) + t + ((n,) if n else ())
    key.coincident = len(ext) > len(tab)
    return key

def sig(c):
    try:
        s = shape(c.kind, c.nodes)
    except Exception:
        return (c.kind, tuple(map(str, c.nodes)))
    return s

def mesh(ref, got, tgt="", extra_nodes_ok=False):
    out = []
    for k in ref.fem.nodes:
        if k not in got.nodes:
            out.append("node %s at %s missing" % (k, tuple(round(float(v), 6) for v in ref.fem.nodes[k])))
    for k in got.nodes:
        if k not in ref.fem.nodes and not extra_nodes_ok:
            out.append("node %s not in the input" % (k,))
    exp = {}
    for c in ref.fem.cells:
        exp.setdefault((c.kind, frozenset(c.nodes)), []).append(c)
    seen = {}
    for c in got.cells:
        seen.setdefault((c.kind, frozenset(c.nodes)), []).append(c)
    for k, cs in exp.items():
        gs = seen.get(k, [])
        if len(gs) != len(cs):
            out.append("element(s) %s %s: %d in the output, %d in the input" % ([c.id for c in cs], k[0], len(gs), len(cs)))
            continue
        a = sorted((str(sig(c)) for c in cs))
        b = sorted((str(sig(c)) for c in gs))
        if a != b:
            out.append("element(s) %s %s: connectivity %s does not describe the same element as %s" % (
                [c.id for c in cs], k[0], [c.nodes for c in gs], [c.nodes for c in cs]))
    return out

def ids(ref, got, rel=2e-6):
    """targets that keep identifiers keep them attached to the same elements and nodes"""
    out = []
    g = {c.id: c for c in got.cells}
    for c in ref.fem.cells:
        if c.id not in g:
            out.append("element %s: no element of that number" % c.id)
        elif set(g[c.id].nodes) != set(c.nodes):
            out.append("element %s: joins nodes %s, expected %s" % (c.id, g[c.id].nodes, c.nodes))
    for n, x in ref.fem.nodes.items():
        y = got.nodes.get(n)
        if y is not None and not all(close(a, b, rel, 1e-9) for a, b in zip(x, y)):
            out.append("node %s at %s, expected %s" % (n, tuple(y), tuple(x)))
    return out

def extra_cells(ref, got, allowed=("PO1",)):
    exp = {}
    for c in ref.fem.cells:
        exp.setdefault((c.kind, frozenset(c.nodes)), []).append(c)
    return [c for c in got.cells if (c.kind, frozenset(c.nodes)) not in exp and c.kind not in allowed]

def pairs(ref, got):
    """(reference element, output cell); duplicates are paired by every permutation later -> returned as groups"""
    g = {}
    for c in got.cells:
        g.setdefault((c.kind, frozenset(c.nodes)), []).append(c)
    e = {}
    for c in ref.fem.cells:
        e.setdefault((c.kind, frozenset(c.nodes)), []).append(c)
    return [(cs, g.get(k, [])) for k, cs in e.items()]

def groups(ref, got, by="prop"):
    """elements of a property stay together: same partition as GROUP PROP_<pid>"""
    out = []
    for cs, gs in pairs(ref, got):
        e = sorted(sorted("PROP_%s" % g for g in c.groups) for c in cs)
        # CGVEGA_<pid> when the card of the property comes before the elements
        o = sorted(sorted(x.replace("CGVEGA_", "PROP_") for x in c.groups if x.startswith(("PROP_", "CGVEGA_"))) for c in gs)
        if e != o:
            out.append("element(s) %s: property groups %s, expected %s" % ([c.id for c in cs], o, e))
    return out

# ---------------------------------------------------------------- properties
def aster_section(p):
    """geometric constants an Aster POUTRE/BARRE assignment stands for"""
    s = p.get("SECTION")
    pi = math.pi
    if s == "RECTANGLE":
        hy, hz = p.get("HY"), p.get("HZ")
        return dict(A=hy * hz, I1=hz * hy ** 3 / 12, I2=hy * hz ** 3 / 12, kind="rect", dims=(hz, hy))
    if s == "CERCLE":
        R, ep = p.get("R"), p.get("EP", p.get("R"))
        ri = R - ep
        I = pi * (R ** 4 - ri ** 4) / 4
        return dict(A=pi * (R ** 2 - ri ** 2), I1=I, I2=I, J=2 * I, kind="circ")
    d = dict(A=p.get("A"), kind="gen")
    if "IZ" in p:
        d.update(I1=p["IZ"], I2=p["IY"], J=p["JX"], AY=p.get("AY", 0.0), AZ=p.get("AZ", 0.0))
    return d

def num_close(a, b, rel=2e-5):
    return a is not None and b is not None and close(float(a), float(b), rel)

def prop_aster(c, g, large_disp=False):
    """expected element c, output cell g"""
    out = []
    e, p = c.prop, g.prop
    who = "element %s" % c.id
    t = e.get("t")
    if t in ("shell", "comp"):
        if p.get("kw") != "COQUE":
            return ["%s: no shell characteristics (%s)" % (who, p)]
        if not num_close(p.get("EPAIS"), e["T"]):
            out.append("%s: thickness %s, expected %s" % (who, p.get("EPAIS"), e["T"]))
        if t == "shell":
            z = e.get("zoffs", 0.0)
        else:
            z = e["Z0"] + e["T"] / 2 + e.get("zoffs", 0.0)
        if not close(float(p.get("EXCENTREMENT", 0.0)), z, 2e-5, 1e-9):
            out.append("%s: offset %s, expected %s" % (who, p.get("EXCENTREMENT", 0.0), z))
        if t == "comp":
            if p.get("COQUE_NCOU") != len(e["layers"]):
                out.append("%s: %s layers, expected %d" % (who, p.get("COQUE_NCOU"), len(e["layers"])))
    elif t in ("beam", "rod"):
        if p.get("kw") not in ("POUTRE", "BARRE"):
            return ["%s: no beam or bar characteristics (%s)" % (who, p)]
        if (p["kw"] == "BARRE") != (t == "rod" and not large_disp):
            out.append("%s: %s for a %s" % (who, p["kw"], t))
        s = aster_section(p)
        keys = ("A",) if t == "rod" else ("A", "I1", "I2", "J")
        for k in keys:
            if k == "J" and s["kind"] == "rect":
                continue
            x = e.get(k)
            if x is None:
                continue
            if x == 0.0 and k != "A":
                if abs(s.get(k, 0)) > 1e-12:
                    out.append("%s: %s is %s, expected 0" % (who, k, s.get(k)))
                continue
            if not num_close(s.get(k), x):
                out.append("%s: %s is %s, expected %s" % (who, k, s.get(k), x))
        if t == "beam" and s["kind"] == "gen" and "sect" not in e and not e.get("pbeam"):
            for k, a in (("K1", "AY"), ("K2", "AZ")):
                x = e.get(k)
                want = 0.0 if not x else 1.0 / x
                if not close(float(s.get(a, 0.0)), want, 2e-5):
                    out.append("%s: shear %s is %s, expected %s" % (who, a, s.get(a), want))
        if t == "beam":
            out += orient(c, g, who)
    elif t == "solid":
        if g.model and "3D" not in str(g.model):
            out.append("%s: modelled as %s" % (who, g.model))
    return out

def orient(c, g, who):
    if g.orient is None:
        return ["%s: no orientation" % who]
    cara, v = g.orient if g.orient and isinstance(g.orient[0], str) else ("VECT_Y", g.orient)
    if cara != "VECT_Y":
        return ["%s: orientation by %s" % (who, cara)]
    x = unit(vec(g.xyz[-1]) - vec(g.xyz[0])) if hasattr(g, "xyz") else None
    y = vec(v)
    if x is None:
        return []
    y = unit(y - x * (x @ y))
    if np.linalg.norm(y - vec(c.orient)) > 1e-4:
        return ["%s: local y axis %s, expected %s" % (who, tuple(np.round(y, 6)), tuple(np.round(c.orient, 6)))]
    return []

def mat_aster(c, g):
    out = []
    who = "element %s" % c.id
    e, m = c.mat, g.mat
    if e.get("t") == "iso":
        for k, a in (("E", "ELAS.E"), ("nu", "ELAS.NU")):
            if not close(float(m.get(a, float("nan"))), float(e[k]), 2e-5, 1e-12):
                out.append("%s: %s is %s, expected %s" % (who, a, m.get(a), e[k]))
        if not close(float(m.get("ELAS.RHO", 0.0)), float(e["rho"]), 2e-5):
            out.append("%s: RHO is %s, expected %s" % (who, m.get("ELAS.RHO"), e["rho"]))
        if e.get("ge") and not close(float(m.get("ELAS.AMOR_HYST", 0.0)), float(e["ge"]), 2e-5):
            out.append("%s: AMOR_HYST is %s, expected %s" % (who, m.get("ELAS.AMOR_HYST"), e["ge"]))
    if c.prop.get("t") == "comp":
        L = m.get("COUCHE")
        if L is None:
            return ["%s: no composite material (%s)" % (who, m)]
        exp = c.prop["layers"]
        if len(L) != len(exp):
            return ["%s: %d plies, expected %d" % (who, len(L), len(exp))]
        for i, (l, (em, t, a)) in enumerate(zip(L, exp)):
            if not num_close(l["EPAIS"], t):
                out.append("%s ply %d: thickness %s, expected %s" % (who, i + 1, l["EPAIS"], t))
            if not close(float(l["ORIENTATION"]), float(a), 2e-5):
                out.append("%s ply %d: angle %s, expected %s" % (who, i + 1, l["ORIENTATION"], a))
            mm = l["MATER"]
            if em["t"] == "ortho":
                for k, kk in (("E1", "E_L"), ("E2", "E_T"), ("nu12", "NU_LT"), ("G12", "G_LT"), ("G1z", "G_LN"), ("G2z", "G_TN"), ("rho", "RHO")):
                    if not em[k] and k in ("G1z", "G2z"):
                        continue
                    if not num_close(mm.get("ELAS_ORTH." + kk), em[k]):
                        out.append("%s ply %d: %s is %s, expected %s" % (who, i + 1, kk, mm.get("ELAS_ORTH." + kk), em[k]))
            else:
                if not num_close(mm.get("ELAS.E"), em["E"]):
                    out.append("%s ply %d: E is %s, expected %s" % (who, i + 1, mm.get("ELAS.E"), em["E"]))
    return out

def prop_systus(c, g):
    out = []
    e, m = c.prop, g.mat
    who = "element %s" % c.id
    t = e.get("t")
    iso = c.mat
    if iso.get("t") == "iso":
        for k, a in (("E", "E"), ("nu", "NU"), ("rho", "RHO")):
            if not close(float(m.get(a, 0.0)), float(iso[k]), 2e-5, 1e-12):
                out.append("%s: %s is %s, expected %s" % (who, a, m.get(a), iso[k]))
        if not close(float(m.get("ALPHA", 0.0)), 2 * iso["ge"], 2e-5):
            out.append("%s: damping ALPHA is %s, expected %s" % (who, m.get("ALPHA", 0.0), 2 * iso["ge"]))
    if t == "shell":
        if not num_close(m.get("H"), e["T"]):
            out.append("%s: thickness %s, expected %s" % (who, m.get("H"), e["T"]))
    elif t in ("beam", "rod"):
        for k, a in (("A", "S"),) + ((("I1", "IZ"), ("I2", "IY"), ("J", "IX")) if t == "beam" else ()):
            if not close(float(m.get(a, 0.0)), e.get(k, 0.0), 2e-5):
                out.append("%s: %s is %s, expected %s" % (who, a, m.get(a), e.get(k)))
        if t == "beam":
            if g.orient is None:
                out.append("%s: no orientation" % who)
            elif np.linalg.norm(vec(g.orient) - vec(c.orient)) > 1e-4:
                out.append("%s: local y axis %s, expected %s" % (who, np.round(g.orient, 6), np.round(c.orient, 6)))
    return out

def props(ref, got, tgt, large_disp=False):
    out = []
    for cs, gs in pairs(ref, got):
        if len(cs) == 1 and cs[0].prop.get("nsm"):
            out += additional_mass(cs[0], gs, got, tgt, large_disp)
            continue
        if len(cs) != len(gs):
            out.append("element(s) %s: %d in the output" % ([c.id for c in cs], len(gs)))
            continue
        for g in gs:
            if hasattr(type(g), "__slots__"):
                pass
        if len(cs) == 1:
            out += one_prop(cs[0], gs[0], got, tgt, large_disp)
        else:
            import itertools
            best = None
            for perm in itertools.permutations(gs):
                d = [x for c, g in zip(cs, perm) for x in one_prop(c, g, got, tgt, large_disp)]
                if best is None or len(d) < len(best):
                    best = d
                if not d:
                    break
            out += best
    return out

def additional_mass(c, gs, got, tgt, large_disp):
    """a mass by unit of length or area is a denser material, or a second element that has mass and no stiffness"""
    import copy
    e = copy.copy(c)
    extra = c.prop["nsm"] / (c.prop["T"] if c.prop["t"] == "shell" else c.prop["A"])
    e.mat = dict(c.mat)
    if len(gs) == 1:
        e.mat["rho"] = c.mat["rho"] + extra
        return one_prop(e, gs[0], got, tgt, large_disp)
    if len(gs) != 2:
        return ["element %s: %d in the output, with a distributed mass" % (c.id, len(gs))]
    k = "ELAS.E" if tgt == "ASTER" else "E"
    z = [g for g in gs if float(g.mat.get(k, 0.0)) == 0.0]
    o = [g for g in gs if float(g.mat.get(k, 0.0)) != 0.0]
    if len(z) != 1:
        return ["element %s: %d parts without stiffness" % (c.id, len(z))]
    m = copy.copy(c)
    m.mat = dict(c.mat, E=0.0, nu=0.0, rho=extra, ge=0.0)
    return one_prop(c, o[0], got, tgt, large_disp) + ["mass of " + x for x in one_prop(m, z[0], got, tgt, large_disp)]

def one_prop(c, g, got, tgt, large_disp):
    if tgt == "ASTER":
        o = g.orient
        out = [x for x in prop_aster_o(c, g, got, large_disp)]
        return out + mat_aster(c, g)
    return prop_systus(c, g)

def prop_aster_o(c, g, got, large_disp):
    class W:
        pass
    w = W()
    w.prop, w.mat, w.model, w.orient, w.kind = g.prop, g.mat, g.model, g.orient, g.kind
    w.xyz = [got.nodes[n] for n in g.nodes[:CORNERS[g.kind]]]
    return prop_aster(c, w, large_disp)

# ---------------------------------------------------------------- loads and constraints
def faces_diff(exp, got, rel=2e-5):
    """total traction per loaded face"""
    a, b = {}, {}
    for d, l in ((a, exp), (b, got)):
        for f, v in l:
            d[f] = d.get(f, np.zeros(3)) + v
    out = []
    for f in set(a) | set(b):
        x, y = a.get(f, np.zeros(3)), b.get(f, np.zeros(3))
        if not vclose(x, y, rel, 1e-9):
            out.append("face %s: traction %s, expected %s" % (sorted(f, key=str), tuple(np.round(y, 8)), tuple(np.round(x, 8))))
    return sorted(out)

def load_diff(exp, got, what, rel=2e-5, skip_rot=None, scale_abs=1e-9):
    out = []
    e = {k: v for k, v in exp.nodal.items() if not (skip_rot and skip_rot(k))}
    out += dict_diff(e, got.nodal, what + " nodal load", rel, scale_abs)
    out += [what + " " + x for x in faces_diff(exp.face, got.face, rel)]
    if not vclose(exp.grav, got.grav, rel, 1e-9):
        out.append("%s gravity %s, expected %s" % (what, tuple(got.grav), tuple(exp.grav)))
    if len(exp.rot) != len(got.rot):
        out.append("%s: %d rotations, expected %d" % (what, len(got.rot), len(exp.rot)))
    else:
        for (c1, a1, w1), (c2, a2, w2) in zip(exp.rot, got.rot):
            if abs(w1 * (a1 @ a2)) > 0 and not close(abs(w1), abs(w2), rel) or not np.linalg.norm(np.cross(a1, a2)) <= 1e-5:
                out.append("%s: rotation %s about %s, expected %s about %s" % (what, w2, a2, w1, a1))
            elif not np.linalg.norm(np.cross(vec(c1) - vec(c2), a1)) <= 1e-5:
                out.append("%s: rotation axis through %s, expected %s" % (what, c2, c1))
    return out

def restrict(rows, exists):
    """drop the terms on degrees of freedom that do not exist in the target; rows left empty disappear"""
    out = []
    for cf, r in rows:
        c = {k: v for k, v in cf.items() if exists(k)}
        if c:
            out.append((c, r))
    return out

def dedupe_conflict(rows):
    return rows

def aster_solve(got, i):
    """charges of the i-th solution command: (Load total, rows, rbe3)"""
    name, cmd, a = got.solves[i]
    L, rows, rbe3, imposed = Load(), [], [], {}
    L.face = []
    if cmd in ("CALC_MODES", "DYNA_VIBRA"):
        for nm in aster.matrix_charges(got, name, a):
            c = got.charges.get(nm)
            if c is None:
                got.errors.append("%s uses unknown charge %s" % (name, nm)); continue
            rows += c.rows
            rbe3 += c.rbe3
    for x in aster.seq(a.get("EXCIT")):
        ch = x.get("CHARGE")
        nm = aster.chname(ch)
        c = got.charges.get(nm)
        if c is None:
            got.errors.append("%s uses unknown charge %s" % (name, nm)); continue
        for k, v in c.load.nodal.items():
            L.add_nodal(k[0], k[1], v)
        L.face += c.load.face
        L.grav = L.grav + c.load.grav
        L.rot += c.load.rot
        L.line += c.load.line
        L.other += c.load.other
        rows += c.rows
        rbe3 += c.rbe3
    return L, rows, rbe3
