"""Reads what an ASTER translation says: command file + mesh (through libmed) -> Fem.

Semantics of the commands follow the Code_Aster documentation (U4 manuals): AFFE_* overload = last assignment wins,
EXCIT charges add up, PRES positive against the cell normal, ...
"""
import math, re
import numpy as np
from lib import comm as C
from lib.comm import seq
from lib.fem import *
from lib.sem import DOF, TOPO, CORNERS, face_normal, unit, vec

# MED -> Nastran node order.  MED numbers linear solids with inwards base (documented in MED/Nastran guides):
MED2NAS = {
    "SE2": [0, 1], "SE3": [0, 1, 2], "TR3": [0, 1, 2], "TR6": [0, 1, 2, 3, 4, 5], "QU4": [0, 1, 2, 3],
    "QU8": [0, 1, 2, 3, 4, 5, 6, 7], "QU9": [0, 1, 2, 3, 4, 5, 6, 7, 8], "PO1": [0],
    "TE4": [0, 2, 1, 3], "T10": None, "PY5": [0, 3, 2, 1, 4], "P13": None, "PE6": [0, 2, 1, 3, 5, 4], "P15": None,
    "HE8": [0, 3, 2, 1, 4, 7, 6, 5], "H20": None,
}
# documented edge order of MED quadratic cells (local corners of each mid-edge node)
MEDEDGE = {
    "T10": [(0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3)],
    "P13": [(0, 1), (1, 2), (2, 3), (3, 0), (0, 4), (1, 4), (2, 4), (3, 4)],
    "P15": [(0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (5, 3), (0, 3), (1, 4), (2, 5)],
    "H20": [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4), (0, 4), (1, 5), (2, 6), (3, 7)],
}
BASE = {"T10": "TE4", "P13": "PY5", "P15": "PE6", "H20": "HE8"}

def med_to_nas(kind, nodes):
    m = MED2NAS.get(kind)
    if m is not None:
        return [nodes[i] for i in m]
    b = BASE[kind]
    corners = [nodes[i] for i in MED2NAS[b]]
    nc = len(corners)
    mid = {frozenset((nodes[a], nodes[c])): n for (a, c), n in zip(MEDEDGE[kind], nodes[nc:])}
    return corners + [mid.get(frozenset((corners[a], corners[c]))) for a, c in TOPO[b]["edges"]]

class Med:
    def __init__(self, text):
        self.nodes, self.cells, self.fam = [], [], {}
        for line in text.splitlines():
            if not line:
                continue
            t = line[0]
            if t == "N":
                _, name, fam, num, x, y, z = line.split(" ")
                self.nodes.append((name, int(fam), num, (float(x), float(y), float(z))))
            elif t == "C":
                p = line.split(" ")
                self.cells.append((p[1], int(p[2]), p[3], p[4], [int(v) for v in p[5:] if v]))
            elif t == "F":
                p = line.split("\t")
                self.fam[int(p[0].split(" ")[1])] = (p[0].split(" ", 2)[2], [g for g in p[1:] if g])
        self.complete = text.rstrip().endswith("END")

def read(res, base="in", key=None):
    """key: coordinates -> node key"""
    f = Fem()
    text = res.read(base + ".comm")
    mtext = res.read(base + ".med.txt")
    if text is None or mtext is None:
        f.errors.append("missing output file: %s" % (".comm" if text is None else ".med"))
        return f
    med = Med(mtext)
    if not med.complete:
        f.errors.append("mesh file unreadable: %s" % mtext[-200:])
    cm = C.Comm(text)
    f.comm, f.med = cm, med
    f.errors += cm.errors + cm.undefined
    nk = []
    nodename, nodegroup, cellname, cellgroup = {}, {}, {}, {}
    for i, (name, fam, num, xyz) in enumerate(med.nodes):
        k = key(xyz) if key else i + 1
        nk.append(k)
        if k in f.nodes:
            f.errors.append("two mesh nodes at %s" % (xyz,))
        f.nodes[k] = xyz
        nm = name if name != "-" else "N%s" % (num if num not in ("-", "0") else i + 1)
        if nm in nodename:
            f.errors.append("duplicate node name %s" % nm)
        nodename[nm] = k
        if fam and fam not in med.fam:
            f.errors.append("node family %d undefined" % fam)
        for g in med.fam.get(fam, ("", []))[1]:
            nodegroup.setdefault(g, set()).add(k)
    for i, (name, fam, num, kind, nodes) in enumerate(med.cells):
        if any(n < 1 or n > len(nk) for n in nodes):
            f.errors.append("cell %s refers to missing node" % name)
            continue
        if name == "-":
            name = "M%s" % (num if num not in ("-", "0") else i + 1)
        c = Cell(kind, med_to_nas(kind, [nk[n - 1] for n in nodes]), name=name)
        c.idx = i
        f.cells.append(c)
        if name in cellname:
            f.errors.append("duplicate cell name %s" % name)
        cellname[name] = c
        if fam and fam not in med.fam:
            f.errors.append("cell family %d undefined" % fam)
        for g in med.fam.get(fam, ("", []))[1]:
            cellgroup.setdefault(g, []).append(c)
            c.groups.add(g)
    f.nodegroup, f.cellgroup = nodegroup, cellgroup

    def cells_of(a, what, need=True):
        out, sel = [], False
        if a.get("TOUT") == "OUI":
            return list(f.cells)
        for g in seq(a.get("GROUP_MA")):
            sel = True
            if g not in cellgroup:
                f.errors.append("%s: unknown cell group %s" % (what, g))
            out += cellgroup.get(g, [])
        for m in seq(a.get("MAILLE")):
            sel = True
            if m not in cellname:
                f.errors.append("%s: unknown cell %s" % (what, m))
            else:
                out.append(cellname[m])
        return out
    def nodes_of(a, what):
        out = []
        for g in seq(a.get("GROUP_NO")):
            if g not in nodegroup:
                f.errors.append("%s: unknown node group %s" % (what, g))
            out += sorted(nodegroup.get(g, ()), key=str)
        for n in seq(a.get("NOEUD")):
            if n not in nodename:
                f.errors.append("%s: unknown node %s" % (what, n))
            else:
                out.append(nodename[n])
        for c in cells_of(a, what):
            out += c.nodes
        seen, res_ = set(), []
        for n in out:
            if n not in seen:
                seen.add(n); res_.append(n)
        return res_
    f.cells_of, f.nodes_of = cells_of, nodes_of

    # ---- functions
    def func(c):
        if not isinstance(c, C.Concept):
            return c
        if c.cmd == "DEFI_CONSTANTE":
            return ("const", c.args.get("VALE"))
        if c.cmd == "DEFI_FONCTION":
            v = seq(c.args.get("VALE"))
            if any(not v[i] < v[i + 2] for i in range(0, len(v) - 3, 2)):
                f.errors.append("%s: abscissas are not increasing" % c.name)
            return ("table", c.args.get("NOM_PARA"), tuple((v[i], v[i + 1]) for i in range(0, len(v) - 1, 2)),
                    c.args.get("PROL_GAUCHE"), c.args.get("PROL_DROITE"), str(c.args.get("INTERPOL")))
        if c.cmd == "FORMULE":
            return ("formula", c.args.get("VALE"), c.args.get("NOM_PARA"))
        return ("other", c.cmd)
    f.func = func

    # ---- model
    for _, _, a in cm.of("AFFE_MODELE"):
        for x in seq(a.get("AFFE")):
            for c in cells_of(x, "AFFE_MODELE"):
                c.model = x.get("MODELISATION")
    # ---- materials
    def material(mc):
        out = {}
        if not isinstance(mc, C.Concept):
            return {"bad": repr(mc)}
        for k, v in mc.args.items():
            if isinstance(v, dict):
                for p, w in v.items():
                    out["%s.%s" % (k, p)] = func(w) if isinstance(w, C.Concept) else w
            elif mc.cmd == "DEFI_COMPOSITE" and k == "COUCHE":
                out["COUCHE"] = [dict(EPAIS=l.get("EPAIS"), ORIENTATION=l.get("ORIENTATION", 0.0),
                                      MATER=material(l.get("MATER"))) for l in seq(v)]
        out["concept"] = mc.name
        return out
    for _, _, a in cm.of("AFFE_MATERIAU"):
        for x in seq(a.get("AFFE")):
            ms = [material(m) for m in seq(x.get("MATER"))]
            merged = {}
            for m in ms:
                merged.update(m)
            for c in cells_of(x, "AFFE_MATERIAU"):
                c.mat = merged
    # ---- characteristics
    for _, _, a in cm.of("AFFE_CARA_ELEM"):
        for kw in ("POUTRE", "BARRE", "COQUE", "MASSIF"):
            for x in seq(a.get(kw)):
                d = {"kw": kw}
                d.update({k: v for k, v in x.items() if k not in ("GROUP_MA", "MAILLE", "TOUT", "CARA", "VALE")})
                if "CARA" in x:
                    ca, va = seq(x["CARA"]), seq(x["VALE"])
                    if len(ca) != len(va):
                        f.errors.append("%s: %d CARA for %d VALE" % (kw, len(ca), len(va)))
                    d.update(dict(zip(ca, va)))
                for c in cells_of(x, kw):
                    c.prop = d
        for x in seq(a.get("ORIENTATION")):
            for c in cells_of(x, "ORIENTATION"):
                c.orient = (x.get("CARA"), tuple(seq(x.get("VALE"))))
        disc = {}
        for x in seq(a.get("DISCRET")):
            for c in cells_of(x, "DISCRET"):
                disc[(id(c), x["CARA"][0])] = (c, x["CARA"], seq(x.get("VALE")), x.get("SYME", "OUI"), x.get("REPERE", "GLOBAL"))
        f.disc = disc
        for (_, t), (c, cara, vale, syme, rep) in disc.items():
            m = re.match(r"([KMA])_(T|TR)_(D_N|N|D_L|L)$", cara)
            if not m:
                f.errors.append("DISCRET: unknown CARA %s" % cara); continue
            q, tr, md = m.groups()
            nd = 3 if tr == "T" else 6
            nn = 1 if md.endswith("N") else 2
            if len(c.nodes) != nn:
                f.errors.append("DISCRET %s on a cell with %d nodes" % (cara, len(c.nodes))); continue
            dofs = [(n, DOF[i]) for n in c.nodes for i in range(nd)]
            tgt = {"K": f.K, "M": f.M, "A": f.B}[q]
            N = nd * nn
            mat = [[0.0] * N for _ in range(N)]
            try:
                if q == "M" and md == "D_N":
                    if tr == "T":
                        (v,) = vale
                        for i in range(3):
                            mat[i][i] = v
                    else:
                        ms, ixx, iyy, izz, ixy, iyz, ixz, ex, ey, ez = vale
                        f.point_mass.append((c.nodes[0], tuple(vale)))
                        mat = mass_matrix(ms, ixx, iyy, izz, ixy, iyz, ixz, ex, ey, ez)
                elif md == "D_N" :
                    if len(vale) != nd: raise ValueError
                    for i in range(nd):
                        mat[i][i] = vale[i]
                elif md == "D_L":
                    if len(vale) != nd: raise ValueError
                    for i in range(nd):
                        v = vale[i]
                        mat[i][i] += v; mat[nd + i][nd + i] += v
                        mat[i][nd + i] -= v; mat[nd + i][i] -= v
                elif syme == "NON":
                    if len(vale) != N * N: raise ValueError
                    for j in range(N):
                        for i in range(N):
                            mat[i][j] = vale[j * N + i]
                else:
                    if len(vale) != N * (N + 1) // 2: raise ValueError
                    k = 0
                    for j in range(N):
                        for i in range(j + 1):
                            mat[i][j] = mat[j][i] = vale[k]; k += 1
            except ValueError:
                f.errors.append("DISCRET %s: wrong number of values %d" % (cara, len(vale))); continue
            # the values are components in the global system unless said otherwise
            R = frame(c, f) if rep == "LOCAL" else None
            if R is not None:
                mat = rotate(mat, R, N // 3)
            add_sym(tgt, dofs, mat)

    # ---- charges
    charges = {}
    for name, cmd, a in cm.of("AFFE_CHAR_MECA", "AFFE_CHAR_MECA_F"):
        charges[name] = Charge(f, name, a)
        if cmd == "AFFE_CHAR_MECA_F":
            for k, v in a.items():
                if k not in ("MODELE", "VERI_NORM", "FORCE_POUTRE"):
                    f.errors.append("%s: %s in AFFE_CHAR_MECA_F" % (name, k))
                elif k == "FORCE_POUTRE":
                    for x in seq(v):
                        for kk, vv in x.items():
                            if kk in ("FX", "FY", "FZ", "MX", "MY", "MZ") and not isinstance(vv, C.Concept):
                                f.errors.append("%s: constant %s in AFFE_CHAR_MECA_F" % (name, kk))
        else:
            for x in seq(a.get("FORCE_POUTRE")):
                for kk, vv in x.items():
                    if isinstance(vv, C.Concept):
                        f.errors.append("%s: function in AFFE_CHAR_MECA" % name)
    f.charges = charges

    # ---- analyses
    f.solves = []
    for name, cmd, a in cm.calls:
        if cmd in ("MECA_STATIQUE", "STAT_NON_LINE", "CALC_MODES", "DYNA_VIBRA"):
            f.solves.append((name, cmd, a))
    return f

def chname(x):
    return x.name if isinstance(x, C.Concept) else str(x)

def matrix_charges(f, name, a):
    """boundary conditions of the assembled matrices of a solution command"""
    out = None
    for kw, opt in (("MATR_RIGI", "RIGI_MECA"), ("MATR_MASS", "MASS_MECA"), ("MATR_AMOR", "AMOR_MECA")):
        m = a.get(kw)
        if m is None:
            continue
        if not isinstance(m, C.Concept) or m.cmd != "ASSE_MATRICE":
            f.errors.append("%s: %s is not an assembled matrix" % (name, kw)); continue
        el, nu = m.args.get("MATR_ELEM"), m.args.get("NUME_DDL")
        if not isinstance(el, C.Concept) or not isinstance(nu, C.Concept):
            f.errors.append("%s: %s has no elementary matrix or no numbering" % (name, kw)); continue
        if el.args.get("OPTION") != opt:
            f.errors.append("%s: %s is a matrix %s" % (name, kw, el.args.get("OPTION")))
        for q in (el, nu):
            ch = sorted(chname(x) for x in seq(q.args.get("CHARGE")))
            if out is None:
                out = ch
            elif ch != out:
                f.errors.append("%s: matrices and numbering have different boundary conditions %s %s" % (name, out, ch))
    return out or []

class Charge:
    def __init__(s, f, name, a):
        s.name = name
        s.load, s.rows, s.rbe3 = Load(), [], []
        what = name
        imp = {}
        for x in seq(a.get("DDL_IMPO")):
            for n in f.nodes_of(x, what):
                for d in DOF:
                    if d in x:
                        v = x[d]
                        imp[(n, d)] = f.func(v) if isinstance(v, C.Concept) else v
        s.imposed = imp
        s.rows += [({k: 1.0}, v) for k, v in imp.items() if not isinstance(v, tuple)]
        for x in seq(a.get("LIAISON_DDL")):
            nd, dd, co = seq(x.get("NOEUD")), seq(x.get("DDL")), seq(x.get("COEF_MULT"))
            if not (len(nd) == len(dd) == len(co)):
                f.errors.append("%s: LIAISON_DDL lists of different lengths %d %d %d" % (what, len(nd), len(dd), len(co)))
                continue
            cf = {}
            for n, d, v in zip(nd, dd, co):
                ks = f.nodes_of({"NOEUD": n}, what)
                for k in ks:
                    cf[(k, d)] = cf.get((k, d), 0.0) + v
            s.rows.append((cf, float(x.get("COEF_IMPO", 0.0))))
        for x in seq(a.get("LIAISON_SOLIDE")):
            s.rows += rigid_rows(f, f.nodes_of(x, what))
        for x in seq(a.get("LIAISON_RBE3")):
            m = f.nodes_of({"NOEUD": x.get("NOEUD_MAIT")}, what)
            sl = [f.nodes_of({"NOEUD": n}, what)[0] for n in seq(x.get("NOEUD_ESCL"))]
            dd, co = seq(x.get("DDL_ESCL")), seq(x.get("COEF_ESCL"))
            if not (len(sl) == len(dd) and len(co) in (1, len(sl))):
                f.errors.append("%s: LIAISON_RBE3 lists of different lengths" % what); continue
            if len(co) == 1:
                co = co * len(sl)
            s.rbe3.append((m[0], frozenset(seq(x.get("DDL_MAIT"))),
                           {n: (frozenset(d.split("-")), c) for n, d, c in zip(sl, dd, co)}))
        L = s.load
        nod = {}
        for x in seq(a.get("FORCE_NODALE")):
            for n in f.nodes_of(x, what):
                for kw, d in zip(("FX", "FY", "FZ", "MX", "MY", "MZ"), DOF):
                    if kw in x:
                        nod[(n, d)] = x[kw]
        for (n, d), v in nod.items():
            L.add_nodal(n, d, v)
        fp = {}
        for kw in ("PRES_REP", "FORCE_COQUE"):
            for x in seq(a.get(kw)):
                cs = f.cells_of(x, what)
                if not cs:
                    f.errors.append("%s: %s on no cell" % (what, kw))
                for c in cs:
                    shell = any(w.startswith(("DK", "DST", "Q4G", "COQUE")) for w in seq(c.model))
                    if kw == "FORCE_COQUE" and not shell:
                        f.errors.append("%s: FORCE_COQUE on a cell which is not a shell" % what)
                    if "PRES" in x:
                        fp[(kw, c.idx)] = (c, -x["PRES"])
                        if c.kind not in ("TR3", "TR6", "QU4", "QU8", "QU9"):
                            f.errors.append("%s: %s on a %s" % (what, kw, c.kind))
                    elif kw == "FORCE_COQUE" and not set(x) - {"FX", "FY", "FZ", "MAILLE", "GROUP_MA"}:
                        fp[(kw, c.idx)] = (c, vec([x.get(k, 0.0) for k in ("FX", "FY", "FZ")]))
                    else:
                        L.other.append((kw, c.idx, dict(x)))
        for c, p in fp.values():
            f.errors += sides(c.kind, c.nodes, f.nodes)
            n = face_normal([f.nodes[k] for k in c.nodes[:CORNERS[c.kind]]])
            L.face.append((frozenset(c.nodes[:CORNERS[c.kind]]), p if isinstance(p, np.ndarray) else p * unit(n)))
        ff = {}
        for x in seq(a.get("FORCE_FACE")):
            for c in f.cells_of(x, what):
                if any(w.startswith(("DK", "DST", "Q4G", "COQUE")) for w in seq(c.model)):
                    f.errors.append("%s: FORCE_FACE on a shell" % what)
                for i, kw in enumerate(("FX", "FY", "FZ")):
                    if kw in x:
                        ff.setdefault(c.idx, [c, np.zeros(3)])[1][i] = x[kw]
        for c, v in ff.values():
            f.errors += sides(c.kind, c.nodes, f.nodes)
            L.face.append((frozenset(c.nodes[:CORNERS.get(c.kind, 4)]), v))
        lp = {}
        for x in seq(a.get("FORCE_POUTRE")):
            for c in f.cells_of(x, what):
                for kw in ("FX", "FY", "FZ", "MX", "MY", "MZ"):
                    if kw in x:
                        lp[(c.idx, kw)] = (c, kw, f.func(x[kw]) if isinstance(x[kw], C.Concept) else ("const", x[kw]))
        L.line = list(lp.values())
        g = {}
        for x in seq(a.get("PESANTEUR")):
            v = x.get("GRAVITE") * unit(vec(x.get("DIRECTION")))
            grp = tuple(seq(x.get("GROUP_MA"))) + tuple(seq(x.get("MAILLE")))
            L.gravs.append((grp, v))
            L.grav = L.grav + v
        for x in seq(a.get("ROTATION")):
            L.rot.append((tuple(x.get("CENTRE")), unit(vec(x.get("AXE"))), x.get("VITESSE")))
        known = {"MODELE", "VERI_NORM", "DDL_IMPO", "LIAISON_DDL", "LIAISON_SOLIDE", "LIAISON_RBE3", "FORCE_NODALE",
                 "PRES_REP", "FORCE_COQUE", "FORCE_FACE", "FORCE_POUTRE", "PESANTEUR", "ROTATION", "LIAISON_MAIL"}
        for k in a:
            if k not in known:
                L.other.append((k, a[k]))

def dofs(g):
    """degrees of freedom that exist in the Aster model"""
    ex = set()
    for c in g.cells:
        for m in seq(c.model):
            if m in ("3D", "3D_SI", "BARRE", "DIS_T", "C_PLAN", "D_PLAN") or m.startswith("3D"):
                ds = DOF[:3]
            elif m in ("DKT", "DST", "Q4G", "DIS_TR", "COQUE_3D", "DKTG", "POU_D_T", "POU_D_E", "POU_D_TG", "POU_D_T_GD", "Q4GG", "COQUE"):
                ds = DOF
            else:
                continue
            for n in c.nodes[:CORNERS[c.kind]] if m in ("DKT", "DST", "Q4G") else c.nodes:
                ex |= {(n, d) for d in ds}
    return ex

class Phantom(tuple):
    """rotation of a rigid body none of whose nodes rotates: a free unknown"""

def rigid_rows(f, nodes):
    """LIAISON_SOLIDE: the existing components of the nodes follow one rigid motion"""
    ex = dofs(f)
    rot = [n for n in nodes if (n, "DRX") in ex]
    m = rot[0] if rot else nodes[0]
    out = []
    for n in nodes:
        if n == m:
            continue
        for cf, r in rigid_pair(f.nodes, m, n, DOF if n in rot else DOF[:3]):
            out.append((cf, r) if rot else ({(Phantom((k[0], tuple(nodes))) if k[1].startswith("DR") else k[0], k[1]): v for k, v in cf.items()}, r))
    return out

def rigid_pair(xyz, m, n, dofs=DOF):
    """u_n = u_m + theta_m x r"""
    r = vec(xyz[n]) - vec(xyz[m])
    out = []
    T = {"DX": {"DRY": r[2], "DRZ": -r[1]}, "DY": {"DRZ": r[0], "DRX": -r[2]}, "DZ": {"DRX": r[1], "DRY": -r[0]}}
    for d in dofs:
        cf = {(n, d): 1.0, (m, d): -1.0}
        for k, v in T.get(d, {}).items():
            if v:
                cf[(m, k)] = cf.get((m, k), 0.0) - v
        out.append((cf, 0.0))
    return out

def mass_matrix(m, ixx, iyy, izz, ixy, iyz, ixz, ex, ey, ez):
    """Aster M_TR_D_N (R4/U4.42.01): inertia tensor at the centre of mass, eccentricity node -> mass"""
    e = vec((ex, ey, ez))
    S = np.array([[0, ez, -ey], [-ez, 0, ex], [ey, -ex, 0]], dtype=float)   # u_G = u + theta x e = u + S theta
    I = np.array([[ixx, ixy, ixz], [ixy, iyy, iyz], [ixz, iyz, izz]], dtype=float)
    A = np.zeros((6, 6))
    A[:3, :3] = m * np.eye(3)
    A[:3, 3:] = m * S
    A[3:, :3] = m * S.T
    A[3:, 3:] = I + m * S.T @ S
    return A.tolist()

def frame(c, f):
    x = vec(f.nodes[c.nodes[-1]]) - vec(f.nodes[c.nodes[0]]) if len(c.nodes) > 1 else None
    cara, v = c.orient or ("VECT_Y", (0., 0., 1.))
    if cara != "VECT_Y":
        f.errors.append("frame of a discrete element given by %s" % cara)
        return None
    y = vec(v)
    if x is None or np.linalg.norm(x) == 0:
        return None
    x = unit(x)
    y = y - x * (x @ y)
    y = unit(y)
    return np.array([x, y, np.cross(x, y)])

def rotate(mat, R, nb):
    A = np.array(mat, dtype=float)
    T = np.zeros_like(A)
    for b in range(nb):
        T[3 * b:3 * b + 3, 3 * b:3 * b + 3] = R
    return (T.T @ A @ T).tolist()
