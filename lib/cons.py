"""Constraints of each analysis: what a translation says against what the input says."""
import numpy as np
from lib.sem import *
from lib import aster, systus, cmp

ROT = ("DRX", "DRY", "DRZ")

def live(R):
    """degrees of freedom that the model of the input gives a meaning to"""
    rot = R.has_rot()
    tr = set()
    for c in R.fem.cells:
        tr |= set(c.nodes)
    for m in (R.fem.K, R.fem.M, R.fem.B):
        for k in m:
            for n, d in k:
                tr.add(n)
    return rot, tr

aster_dofs = aster.dofs

def aster_cons(R, g, i, what):
    """(problems, rows, rbe3) of the i-th solution"""
    out = []
    ex = aster_dofs(g)
    L, rows, rbe3 = cmp.aster_solve(g, i)
    for cf, r in rows:
        for k in cf:
            if k not in ex and not isinstance(k[0], aster.Phantom):
                out.append("%s: constraint on %s, which does not exist in the model" % (what, k))
    # one degree of freedom imposed by two charges makes a singular system
    seen = {}
    for x in aster.seq(g.solves[i][2].get("EXCIT")):
        c = g.charges.get(aster.chname(x.get("CHARGE")))
        if c is None:
            continue
        for k in c.imposed:
            if k in seen:
                out.append("%s: %s imposed by %s and by %s" % (what, k, seen[k], c.name))
            seen[k] = c.name
    return out, rows, rbe3

def free_extra(R, g, rows, what):
    """degrees of freedom added by the translation must not be left free"""
    rot, tr = live(R)
    out = []
    fixed = {k for cf, r in rows for k in cf}
    for n, d in sorted(aster_dofs(g), key=str):
        if d in ROT and n not in rot and n in R.fem.nodes and (n, d) not in fixed:
            out.append("%s: %s of node %s has no stiffness and no constraint" % (what, d, n))
    return out

def project(rows, dead):
    """what the equations say about the other unknowns when the dead ones are free (Fourier elimination of equalities)"""
    cols = sorted({c for cf, _ in rows for c in cf}, key=lambda c: (not dead(c), str(c)))
    nd = sum(1 for c in cols if dead(c))
    M = rowspace(rows, cols)
    out = []
    for x in M:
        if not np.any(np.abs(x[:nd]) > 1e-7):
            out.append(({c: v for c, v in zip(cols, x[:-1]) if abs(v) > 1e-9}, x[-1]))
    return out

def affine(exp, got, what, exists=None):
    if exists:
        exp, got = cmp.restrict(exp, exists), cmp.restrict(got, exists)
    e = rows_equal(exp, got)
    return ["%s: %s" % (what, e[:700])] if e else []

def systus_cases(r):
    """[(file, Fem, load case number, Load)] in the order of the analyses"""
    out, errs = [], []
    for n, g in systus.read_all(r):
        errs += ["%s: %s" % (n, e) for e in g.errors]
        out += [(n, g, i, l) for i, l in g.lc.items()]
    return out, errs

def systus_rows(g, l):
    """blocked and imposed degrees of freedom of one load case"""
    rows = []
    for (n, d), fr in g.fixed.items():
        v = l.imposed.get((n, d), 0.0)
        if fr is None:
            rows.append(({(n, d): 1.0}, v))
        else:
            i = DOF.index(d)
            b = 0 if i < 3 else 3
            rows.append(({(n, DOF[b + j]): float(fr[i % 3][j]) for j in range(3) if abs(fr[i % 3][j]) > 1e-12}, v))
    return rows

def systus_load(g, l):
    """the load of one load case, with the components of the nodes that stand for rotations as rotations"""
    alias = {r: m for m, rs in g.rotnode.items() for r in rs[:1]}
    nodal = {}
    for (n, d), v in l.nodal.items():
        k = (alias[n], DOF[DOF.index(d) + 3]) if n in alias and d not in ROT else (n, d)
        nodal[k] = nodal.get(k, 0.0) + v
    l.nodal = nodal
    return l

def systus_all_rows(g, l):
    """(rows, averages) of one load case, with its rigid bodies and relations"""
    # components of the nodes that stand for rotations
    alias = {r: m for m, rs in g.rotnode.items() for r in rs[:1]}
    shared = {}
    for m, rs in g.rotnode.items():
        shared.setdefault(rs[0], []).append(m)
    rows = list(systus_rows(g, l)) + [(cf, 0.0) for e, cf in g.mpc]
    for e, m, s, rot in g.rigid:
        for cf, r in aster.rigid_pair(g.nodes, m, s, DOF[:3] if rot is not None else DOF):
            if rot is not None:
                cf = {((rot, DOF[DOF.index(k[1]) - 3]) if k[1] in ROT else k): v for k, v in cf.items()}
            rows.append((cf, r))
    out = []
    for cf, r in rows:
        c = {}
        for (n, d), v in cf.items():
            k = (alias[n], DOF[DOF.index(d) + 3]) if n in alias and d not in ROT else (n, d)
            c[k] = c.get(k, 0.0) + v
        out.append((c, r))
    # one node may stand for the rotations of several points of a rigid body
    for r, ms in shared.items():
        for m in ms:
            if m != alias[r]:
                out += [({(m, d): 1.0, (alias[r], d): -1.0}, 0.0) for d in ROT]
    avg = {}
    for e, m, s, rot, lag, ds, dd, c in g.avg:
        a = avg.setdefault((m, lag), (m, ds, {}))
        if a[1] != ds:
            out.append(({("average of %s" % (m,), "DX"): 1.0}, 1.0))
        a[2][s] = (dd, c)
    return out, list(avg.values())
