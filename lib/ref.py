"""Independent interpretation of a Nastran deck (MSC quick reference guide semantics) -> Fem."""
import math
import numpy as np
from lib.fem import *
from lib.sem import DOF, TOPO, CORNERS, face_normal, unit, vec
from lib import nas

KINDS = {"CTRIA3": "TR3", "CTRIAR": "TR3", "CTRIA6": "TR6", "CQUAD4": "QU4", "CQUADR": "QU4", "CQUAD8": "QU8",
         "CTETRA": ("TE4", "T10"), "CPYRAM": ("PY5", "P13"), "CPYRA": ("PY5", "P13"), "CPENTA": ("PE6", "P15"),
         "CHEXA": ("HE8", "H20"), "CIHEX1": ("HE8", "H20"), "CIHEX2": ("HE8", "H20"), "CBAR": "SE2", "CBEAM": "SE2", "CROD": "SE2", "CONROD": "SE2"}

def nasreal(v):
    if v is None or isinstance(v, (int, float)):
        return v
    r = nas.value(v)
    return r

def intlist(fields):
    """ids with THRU / BY"""
    out = []
    fs = [f for f in fields]
    i = 0
    while i < len(fs):
        v = fs[i]
        if v is None:
            i += 1; continue
        if isinstance(v, str) and v.upper() == "THRU":
            a, b = out[-1], fs[i + 1]
            step, k = 1, i + 2
            if k < len(fs) and isinstance(fs[k], str) and fs[k].upper() == "BY":
                step = fs[k + 1]; k += 2
            out += list(range(a + step, b + 1, step))
            i = k
            continue
        out.append(v)
        i += 1
    return out

def dofs_of(c):
    """component string -> dof names"""
    if c is None:
        return []
    s = str(c)
    return [DOF[int(x) - 1] for x in sorted(set(s)) if x in "123456"]

class Ref:
    def __init__(s, sol, case, cards):
        s.sol, s.cards = sol, cards
        s.by = {}
        for c in cards:
            s.by.setdefault(c[0].rstrip("*"), []).append(list(c[1:]) + [None] * 60)
        s.glob, s.subs, s.sets = nas.parse_case(case)
        s.fem = Fem()
        s.grids()
        s.elements()
        s.discretes()
        s.build_analyses()
    def all(s, *names):
        for n in names:
            for f in s.by.get(n, []):
                yield f

    # ------------------------------------------------------------- geometry
    def grids(s):
        s.cs = {0: ("R", np.zeros(3), np.eye(3))}
        pend = []
        for t in "RCS":
            for f in s.all("CORD2" + t):
                pend.append((f[0], t, 2, f))
            for f in s.all("CORD1" + t):
                pend.append((f[0], t, 1, f[:4]))
                if f[4] is not None:
                    pend.append((f[4], t, 1, f[4:8]))
        g = {}
        gset = next(s.all("GRDSET"), [None] * 60)
        for f in s.all("GRID"):
            g[f[0]] = (f[1] if f[1] is not None else (gset[1] or 0), [float(nasreal(x) or 0.0) for x in f[2:5]],
                       f[5] if f[5] is not None else (gset[5] or 0), f[6] if f[6] is not None else gset[6])
        s.xyz, s.cd, s.ps = {}, {}, {}
        progress = True
        pend_g = dict(g)
        while progress and (pend or pend_g):
            progress = False
            for k in list(pend_g):
                cp, x, cd, ps = pend_g[k]
                if cp in s.cs:
                    s.xyz[k] = s.to_global(cp, x); s.cd[k] = cd; s.ps[k] = ps
                    del pend_g[k]; progress = True
            for e in list(pend):
                cid, t, kind, f = e
                if kind == 2:
                    rid = f[1] or 0
                    if rid not in s.cs:
                        continue
                    a, b, c = [s.to_global(rid, [nasreal(x) or 0.0 for x in f[2 + 3 * i:5 + 3 * i]]) for i in range(3)]
                else:
                    if any(x not in s.xyz for x in f[1:4]):
                        continue
                    a, b, c = [s.xyz[x] for x in f[1:4]]
                z = unit(b - a)
                x = c - a
                x = unit(x - z * (x @ z))
                y = np.cross(z, x)
                s.cs[cid] = (t, a, np.array([x, y, z]))
                pend.remove(e); progress = True
        for k in g:
            if k in s.xyz:
                s.fem.nodes[k] = tuple(s.xyz[k])
        for f in s.all("SPOINT"):
            for k in intlist(f):
                s.fem.nodes[k] = (0.0, 0.0, 0.0); s.cd[k] = 0; s.ps[k] = None; s.xyz[k] = np.zeros(3)
    def to_global(s, cid, x):
        t, o, R = s.cs[cid]
        x = [float(v) for v in x]
        if t == "R":
            l = x
        elif t == "C":
            a = math.radians(x[1]); l = [x[0] * math.cos(a), x[0] * math.sin(a), x[2]]
        else:
            th, ph = math.radians(x[1]), math.radians(x[2])
            l = [x[0] * math.sin(th) * math.cos(ph), x[0] * math.sin(th) * math.sin(ph), x[0] * math.cos(th)]
        return o + R.T @ vec(l)
    def vec_global(s, cid, v, at=None):
        """vector given in a coordinate system (at a point for curvilinear ones)"""
        t, o, R = s.cs[cid or 0]
        v = vec(v)
        if t == "R":
            return R.T @ v
        return s.basis(cid, at).T @ v
    def basis(s, cid, at):
        """rows: local unit vectors at a point"""
        t, o, R = s.cs[cid or 0]
        if t == "R":
            return R
        l = R @ (vec(at) - o)
        r = math.hypot(l[0], l[1])
        c, sn = (l[0] / r, l[1] / r) if r > 1e-12 else (1.0, 0.0)
        if t == "C":
            B = np.array([[c, sn, 0], [-sn, c, 0], [0, 0, 1.0]])
        else:
            rho = np.linalg.norm(l)
            ct, st = (l[2] / rho, r / rho) if rho > 0 else (1.0, 0.0)
            B = np.array([[st * c, st * sn, ct], [ct * c, ct * sn, -st], [-sn, c, 0.0]])
        return B @ R

    # ------------------------------------------------------------- elements
    def material(s, mid):
        for f in s.all("MAT1"):
            if f[0] == mid:
                E, G, nu = f[1], f[2], f[3]
                if E is None and G is not None and nu is not None: E = 2 * (1 + nu) * G
                if nu is None and E is not None and G is not None: nu = E / (2 * G) - 1
                if nu is None and E is not None: nu = 0.0
                return {"t": "iso", "E": E, "nu": nu, "rho": (f[4] or 0.0) * s.wtmass(), "alpha": f[5] or 0.0, "tref": f[6] or 0.0, "ge": f[7] or 0.0}
        for f in s.all("MAT8"):
            if f[0] == mid:
                return {"t": "ortho", "E1": f[1], "E2": f[2], "nu12": f[3], "G12": f[4] or 0.0, "G1z": f[5] or 0.0, "G2z": f[6] or 0.0,
                        "rho": (f[7] or 0.0) * s.wtmass()}
        return None
    def wtmass(s):
        """the factor of every mass"""
        return next((f[1] for f in s.all("PARAM") if f[0] == "WTMASS"), 1.0)
    def prop(s, pid, el=None):
        p = s.prop1(pid)
        if p and p.get("nsm"):
            p["nsm"] *= s.wtmass()
        return p
    def prop1(s, pid):
        for f in s.all("PSHELL"):
            if f[0] == pid:
                return {"t": "shell", "T": f[2], "mid": f[1], "nsm": f[7] or 0.0}
        for f in s.all("PCOMP"):
            if f[0] == pid:
                lam = f[7]
                plies = []
                fl = f[8:]
                pm = pt = None
                k = 0
                while 4 * k + 3 < len(fl):
                    q = fl[4 * k:4 * k + 4]
                    if all(x is None for x in q):
                        break
                    pm = q[0] if q[0] is not None else pm
                    pt = q[1] if q[1] is not None else pt
                    plies.append((pm, pt, q[2] if q[2] is not None else 0.0))
                    k += 1
                if lam == "SYM":
                    plies = plies + plies[::-1]
                tot = sum(p[1] for p in plies)
                return {"t": "comp", "plies": plies, "T": tot, "Z0": f[1] if f[1] is not None else -tot / 2, "mid": plies[0][0]}
        for f in s.all("PBAR"):
            if f[0] == pid:
                return {"t": "beam", "mid": f[1], "A": f[2] or 0.0, "I1": f[3] or 0.0, "I2": f[4] or 0.0, "J": f[5] or 0.0,
                        "nsm": f[6] or 0.0, "K1": f[16], "K2": f[17], "I12": f[18] or 0.0}
        for f in s.all("PBEAM"):
            if f[0] == pid:
                return {"t": "beam", "mid": f[1], "A": f[2] or 0.0, "I1": f[3] or 0.0, "I2": f[4] or 0.0, "J": f[6] or 0.0,
                        "nsm": f[7] or 0.0, "K1": f[16] if f[16] is not None else 1.0, "K2": f[17] if f[17] is not None else 1.0, "I12": f[5] or 0.0, "pbeam": True}
        for nm in ("PBARL", "PBEAML"):
            for f in s.all(nm):
                if f[0] == pid:
                    d = [x for x in f[8:24] if x is not None]
                    nd = {"ROD": 1, "TUBE": 2, "BAR": 2, "I": 6}.get(f[3], len(d))
                    return dict({"t": "beam", "mid": f[1], "sect": f[3], "dims": d[:nd], "nsm": (d[nd:] or [0.0])[0]}, **section(f[3], d[:nd]))
        for f in s.all("PROD"):
            if f[0] == pid:
                return {"t": "rod", "mid": f[1], "A": f[2] or 0.0, "J": f[3] or 0.0, "nsm": f[5] or 0.0}
        for n in ("PSOLID", "PLSOLID", "PIHEX"):
            for f in s.all(n):
                if f[0] == pid:
                    return {"t": "solid", "mid": f[1]}
        return None
    def elements(s):
        F = s.fem
        for c in s.cards:
            n = c[0].rstrip("*")
            if n not in KINDS:
                continue
            f = list(c[1:]) + [None] * 40
            k = KINDS[n]
            eid, pid = f[0], f[1]
            prop = None
            if n in ("CBAR", "CBEAM"):
                nodes = f[2:4]
                prop = s.prop(pid if pid is not None else eid)
            elif n == "CROD":
                nodes = f[2:4]; prop = s.prop(pid if pid is not None else eid)
            elif n == "CONROD":
                nodes = f[1:3]; prop = {"t": "rod", "mid": f[3], "A": f[4] or 0.0, "J": f[5] or 0.0, "nsm": (f[7] or 0.0) * s.wtmass()}
            elif isinstance(k, tuple):
                nc = CORNERS[k[0]]
                tot = {"TE4": 10, "PY5": 13, "PE6": 15, "HE8": 20}[k[0]]
                nodes = f[2:2 + tot]
                if any(x is not None for x in nodes[nc:]):
                    k = k[1]
                else:
                    k = k[0]; nodes = nodes[:nc]
                prop = s.prop(pid if pid is not None else eid)
            else:
                nn = {"TR3": 3, "TR6": 6, "QU4": 4, "QU8": 8}[k]
                nodes = f[2:2 + nn]
                prop = s.prop(pid if pid is not None else eid)
            if isinstance(k, tuple):
                k = k[0]
            cell = Cell(k, nodes, id=eid)
            cell.prop = dict(prop) if prop else {}
            cell.mat = s.material(cell.prop.get("mid")) or {}
            if n in ("CTRIA3", "CQUAD4", "CTRIA6", "CQUAD8", "CQUADR", "CTRIAR") and cell.prop:
                z = {"CTRIA3": f[6], "CTRIAR": f[6], "CQUAD4": f[7], "CQUADR": f[7], "CQUAD8": f[14], "CTRIA6": f[9]}[n]
                cell.prop["zoffs"] = z or 0.0
            if cell.prop.get("t") == "comp":
                cell.prop["layers"] = [(s.material(m), t, a) for m, t, a in cell.prop["plies"]]
                cell.mat = {}
            if n in ("CBAR", "CBEAM"):
                if isinstance(f[4], int) and f[5] is None and f[6] is None:
                    v = s.xyz[f[4]] - s.xyz[nodes[0]]
                else:
                    v = vec([float(x or 0.0) for x in f[4:7]])
                    cd = s.cd.get(nodes[0], 0)
                    if cd:
                        v = s.vec_global(cd, v, s.xyz[nodes[0]])
                ax = unit(s.xyz[nodes[1]] - s.xyz[nodes[0]])
                y = v - ax * (ax @ v)
                cell.orient = tuple(unit(y))
            cell.groups = {pid} if n != "CONROD" else set()
            F.cells.append(cell)
        s.cell = {c.id: c for c in F.cells}

    # ------------------------------------------------------------- discretes
    def discretes(s):
        F = s.fem
        def spring(mat, n1, c1, n2, c2, k):
            a = (n1, DOF[max(c1 or 1, 1) - 1]) if n1 else None
            b = (n2, DOF[max(c2 or 1, 1) - 1]) if n2 else None
            ds = [d for d in (a, b) if d]
            if len(ds) == 2:
                add_sym(mat, ds, [[k, -k], [-k, k]])
            elif ds:
                add_sym(mat, ds, [[k]])
        pel = {}
        for f in s.all("PELAS"):
            pel[f[0]] = f[1]
            if f[4] is not None: pel[f[4]] = f[5]
        pda = {}
        for f in s.all("PDAMP"):
            for i in range(0, 8, 2):
                if f[i] is not None: pda[f[i]] = f[i + 1]
        for f in s.all("CELAS1"):
            spring(F.K, f[2], f[3], f[4], f[5], pel[f[1] if f[1] is not None else f[0]])
        for f in s.all("CELAS2"):
            spring(F.K, f[2], f[3], f[4], f[5], f[1])
        for f in s.all("CELAS4"):
            spring(F.K, f[2], 1, f[3], 1, f[1])
        for f in s.all("CDAMP1"):
            spring(F.B, f[2], f[3], f[4], f[5], pda[f[1] if f[1] is not None else f[0]])
        for f in s.all("CDAMP2"):
            spring(F.B, f[2], f[3], f[4], f[5], f[1])
        for f in s.all("CMASS2"):
            spring(F.M, f[2], f[3], f[4], f[5], f[1] * s.wtmass())
        pb = {}
        for f in s.all("PBUSH"):
            d = {}
            for base in range(1, 24, 8):
                if f[base] in ("K", "B", "GE"):
                    d[f[base]] = [nasreal(x) or 0.0 for x in f[base + 1:base + 7]]
            pb[f[0]] = d
        for f in s.all("CBUSH"):
            d = pb[f[1] if f[1] is not None else f[0]]
            n1, n2 = f[2], f[3]
            R = None
            cid = f[7]
            if cid is not None:
                R = s.basis(cid, s.xyz[n1])
            elif n2 is not None and np.linalg.norm(s.xyz[n2] - s.xyz[n1]) > 0:
                x = unit(s.xyz[n2] - s.xyz[n1])
                if isinstance(f[4], int) and f[5] is None and f[6] is None and not isinstance(f[4], float):
                    v = s.xyz[f[4]] - s.xyz[n1]
                elif any(q is not None for q in f[4:7]):
                    v = vec([float(q or 0) for q in f[4:7]])
                else:
                    v = None
                if v is not None:
                    y = unit(v - x * (x @ v))
                    R = np.array([x, y, np.cross(x, y)])
                else:
                    R = np.eye(3)
            else:
                R = np.eye(3)
            for q, mat in (("K", F.K), ("B", F.B)):
                if q in d:
                    k6 = np.zeros((6, 6))
                    for b in range(2):
                        k6[3 * b:3 * b + 3, 3 * b:3 * b + 3] = R.T @ np.diag(d[q][3 * b:3 * b + 3]) @ R
                    k6[np.abs(k6) < 1e-9 * (np.abs(k6).max() or 1)] = 0
                    if n2 is None:
                        add_sym(mat, [(n1, x) for x in DOF], k6.tolist())
                    else:
                        add_sym(mat, [(n1, x) for x in DOF] + [(n2, x) for x in DOF], np.block([[k6, -k6], [-k6, k6]]).tolist())
        from lib.aster import mass_matrix
        for f in s.all("CONM2"):
            m = f[3] or 0.0
            e = vec([float(x or 0.0) for x in f[4:7]])
            I = [float(x or 0.0) for x in f[8:14]]    # I11 I21 I22 I31 I32 I33
            cid = f[2] or 0
            A = np.array(mass_matrix(m, I[0], I[2], I[5], -I[1], -I[4], -I[3], *e))
            if cid == -1:
                e = e - s.xyz[f[1]]
                A = np.array(mass_matrix(m, I[0], I[2], I[5], -I[1], -I[4], -I[3], *e))
            elif cid:
                R = s.basis(cid, s.xyz[f[1]])
                T = np.zeros((6, 6)); T[:3, :3] = R; T[3:, 3:] = R
                A = T.T @ A @ T
            A = (np.array(A) * s.wtmass()).tolist()
            add_sym(F.M, [(f[1], x) for x in DOF], A)
        for f in s.all("CONM1"):
            low = [float(x or 0.0) * s.wtmass() for x in f[3:24]]
            A = [[0.0] * 6 for _ in range(6)]
            k = 0
            for i in range(6):
                for j in range(i + 1):
                    A[i][j] = A[j][i] = low[k]; k += 1
            add_sym(F.M, [(f[1], x) for x in DOF], A)
        s.dmig()
    def dmig(s):
        mats = {}
        for f in s.all("DMIG"):
            if f[1] == 0:
                mats.setdefault(f[0], {"ifo": f[2], "terms": {}})
                mats[f[0]]["ifo"] = f[2]
                continue
            m = mats.setdefault(f[0], {"ifo": 6, "terms": {}})
            gj, cj = f[1], f[2]
            k = 4
            while k < len(f) - 3 and f[k] is not None:
                m["terms"][((f[k], DOF[max(f[k + 1] or 1, 1) - 1]), (gj, DOF[max(cj or 1, 1) - 1]))] = f[k + 2]
                k += 4
        s.dmigs = mats
        for key, tgt in (("K2GG", s.fem.K), ("M2GG", s.fem.M), ("B2GG", s.fem.B), ("K2PP", s.fem.K), ("M2PP", s.fem.M), ("B2PP", s.fem.B)):
            nm = s.glob.get(key)
            if nm and nm in mats:
                for (a, b), v in mats[nm]["terms"].items():
                    tgt[(a, b)] = tgt.get((a, b), 0.0) + v
                    if a != b and mats[nm]["ifo"] == 6:
                        tgt[(b, a)] = tgt.get((b, a), 0.0) + v

    # ------------------------------------------------------------- constraints
    def has_rot(s):
        """nodes whose rotations are stiffened by an element or mass"""
        r = set()
        for c in s.fem.cells:
            if c.kind in ("TR3", "TR6", "QU4", "QU8") or (c.kind == "SE2" and c.prop.get("t") == "beam"):
                r |= set(c.nodes)
        for m in (s.fem.K, s.fem.M, s.fem.B):
            for (a, b), v in m.items():
                for n, d in (a, b):
                    if d.startswith("DR"):
                        r.add(n)
        return r
    def dof_row(s, n, d):
        """row expressing component d of node n in its displacement coordinate system"""
        cd = s.cd.get(n, 0)
        if not cd:
            return {(n, d): 1.0}
        B = s.basis(cd, s.xyz[n])
        i = DOF.index(d)
        base = 0 if i < 3 else 3
        return {(n, DOF[base + j]): B[i % 3][j] for j in range(3) if abs(B[i % 3][j]) > 1e-12}
    def spc_rows(s, sid):
        ids = {sid}
        for f in s.all("SPCADD"):
            if f[0] == sid:
                ids |= set(x for x in f[1:] if isinstance(x, int))
                ids.discard(sid) if not any(g[0] == sid for g in list(s.all("SPC")) + list(s.all("SPC1"))) else None
        rows = []
        for f in s.all("SPC"):
            if f[0] in ids:
                for i in (1, 4):
                    if f[i] is not None:
                        for d in dofs_of(f[i + 1]) or (["DX"] if f[i + 1] in (0, None) else []):
                            rows.append((Row(s.dof_row(f[i], d), (f[i], d)), float(f[i + 2] or 0.0)))
        for f in s.all("SPC1"):
            if f[0] in ids:
                for n in intlist(f[2:]):
                    for d in dofs_of(f[1]) or ["DX"]:
                        rows.append((Row(s.dof_row(n, d), (n, d)), 0.0))
        return rows
    def mpc_rows(s, sid):
        ids = {sid}
        for f in s.all("MPCADD"):
            if f[0] == sid:
                ids = set(x for x in f[1:] if isinstance(x, int))
        rows = []
        for f in s.all("MPC"):
            if f[0] in ids:
                cf = {}
                k = 1
                while k + 2 < len(f):
                    # G1 C1 A1 G2 C2 A2 _ _ G3 C3 A3 ...
                    if f[k] is None:
                        break
                    for kk, vv in s.dof_row(f[k], DOF[max(int(f[k + 1] or 1), 1) - 1]).items():
                        cf[kk] = cf.get(kk, 0.0) + vv * float(f[k + 2])
                    k += 3
                    if (k - 1) % 8 == 6:
                        k += 2
                rows.append((cf, 0.0))
        return rows
    def common_rows(s):
        from lib.aster import rigid_pair
        rows, rbe3 = [], []
        for n, ps in s.ps.items():
            for d in dofs_of(ps):
                rows.append((Row(s.dof_row(n, d), (n, d)), 0.0))
        for f in s.all("RBE2"):
            sl = [x for x in intlist(f[3:]) if isinstance(x, int)]
            for n in sl:
                rows += rigid_pair(s.xyz, f[1], n, dofs_of(f[2]))
        for f in s.all("RBAR"):
            ga, gb = f[1], f[2]
            cna, cnb, cma, cmb = f[3:7]
            if dofs_of(cna) == list(DOF) and cnb is None:
                rows += rigid_pair(s.xyz, ga, gb, dofs_of(cmb) or DOF)
            elif dofs_of(cnb) == list(DOF) and cna is None:
                rows += rigid_pair(s.xyz, gb, ga, dofs_of(cma) or DOF)
            else:
                rows += rigid_pair(s.xyz, ga, gb, DOF)
        for f in s.all("RBAR1"):
            rows += rigid_pair(s.xyz, f[1], f[2], dofs_of(f[3]) or DOF)
        for f in s.all("CRIGD1"):
            for n in intlist(f[3:]):
                rows += rigid_pair(s.xyz, f[2], n, DOF)
        for f in s.all("RBE3"):
            ref, refc = f[2], f[3]
            sl = {}
            k = 4
            cur = None
            fl = f[4:]
            i = 0
            while i < len(fl):
                v = fl[i]
                if v is None:
                    i += 1; continue
                if isinstance(v, str):
                    break
                if isinstance(v, float):
                    cur = (v, frozenset(dofs_of(fl[i + 1])))
                    i += 2; continue
                sl[v] = (cur[1], cur[0])
                i += 1
            rbe3.append((ref, frozenset(dofs_of(refc)), sl))
        return rows, rbe3

    # ------------------------------------------------------------- loads
    def load(s, sid):
        L = Load()
        combos = [(sid, 1.0)]
        for f in s.all("LOAD"):
            if f[0] == sid:
                combos = []
                k = 2
                while k + 1 < len(f) and f[k] is not None:
                    combos.append((f[k + 1], float(f[1]) * float(f[k])))
                    k += 2
        for lid, fac in combos:
            s.loads_of(lid, fac, L)
        return L
    def loads_of(s, lid, fac, L):
        X = s.xyz
        for nm in ("FORCE", "MOMENT"):
            for f in s.all(nm):
                if f[0] == lid:
                    v = s.vec_global(f[2] or 0, [float(x or 0) for x in f[4:7]], X[f[1]]) * float(f[3]) * fac
                    for i in range(3):
                        L.add_nodal(f[1], DOF[i + (3 if nm == "MOMENT" else 0)], v[i])
        for f in s.all("FORCE1"):
            if f[0] == lid:
                v = unit(X[f[4]] - X[f[3]]) * float(f[2]) * fac
                for i in range(3): L.add_nodal(f[1], DOF[i], v[i])
        for f in s.all("FORCE2"):
            if f[0] == lid:
                v = unit(np.cross(X[f[4]] - X[f[3]], X[f[6]] - X[f[5]])) * float(f[2]) * fac
                for i in range(3): L.add_nodal(f[1], DOF[i], v[i])
        for f in s.all("SLOAD"):
            if f[0] == lid:
                for i in (1, 3, 5):
                    if f[i] is not None:
                        L.add_nodal(f[i], "DX", float(f[i + 1]) * fac)
        for f in s.all("PLOAD"):
            if f[0] == lid:
                g = [x for x in f[2:6] if x is not None]
                # lumped to the corners: thirds of a triangle, a quadrangle is the mean of its two splits
                for w, t in [(1.0, g)] if len(g) == 3 else [(0.5, [g[i] for i in t]) for t in ((0, 1, 2), (0, 2, 3), (0, 1, 3), (1, 2, 3))]:
                    a = np.cross(X[t[1]] - X[t[0]], X[t[2]] - X[t[0]]) / 6 * w * float(f[1]) * fac
                    for k in t:
                        for i in range(3): L.add_nodal(k, DOF[i], a[i])
        for f in s.all("PLOAD2"):
            if f[0] == lid:
                for e in intlist(f[2:]):
                    c = s.cell[e]
                    g = c.nodes[:CORNERS[c.kind]]
                    L.face.append((frozenset(g), unit(face_normal([X[k] for k in g])) * float(f[1]) * fac))
        for f in s.all("PLOAD4"):
            if f[0] == lid:
                eids = [f[1]]
                g1, g2 = f[6], f[7]
                if f[6] == "THRU":
                    eids = list(range(f[1], f[7] + 1)); g1 = g2 = None
                p = float(f[2])
                N = None
                if any(x is not None for x in f[9:12]):
                    N = vec([float(x or 0.0) for x in f[9:12]])
                    N = unit(s.vec_global(f[8] or 0, N, X[s.cell[eids[0]].nodes[0]] if eids[0] in s.cell else None))
                for e in eids:
                    c = s.cell.get(e)
                    if c is None:
                        continue
                    face, inward = s.face_of(c, g1, g2)
                    n = unit(face_normal([X[k] for k in face]))
                    v = N * p if N is not None else (-n * p if inward else n * p)
                    L.face.append((frozenset(face), v * fac))
        for f in s.all("PLOAD1"):
            if f[0] == lid:
                c = s.cell[f[1]]
                L.line.append((c.id, f[2], f[3], float(f[4] or 0.0), float(f[5]) * fac, f[6], None if f[7] is None else float(f[7]) * fac))
        for f in s.all("GRAV"):
            if f[0] == lid:
                v = s.vec_global(f[1] or 0, [float(x or 0) for x in f[3:6]]) * float(f[2]) * fac
                L.grav = L.grav + v
                L.gravs.append(((), v))
        for f in s.all("RFORCE"):
            if f[0] == lid:
                ax = s.vec_global(f[2] or 0, [float(x or 0) for x in f[4:7]])
                w = 2 * math.pi * float(f[3]) * fac * np.linalg.norm(ax)
                ctr = X[f[1]] if f[1] else np.zeros(3)
                L.rot.append((tuple(ctr), unit(ax), w))
        for f in s.all("SPCD"):
            if f[0] == lid:
                for i in (1, 4):
                    if f[i] is not None:
                        for d in dofs_of(f[i + 1]):
                            L.imposed[(f[i], d)] = float(f[i + 2] or 0.0) * fac
        for f in s.all("TEMP"):
            if f[0] == lid:
                for i in (1, 3, 5):
                    if f[i] is not None:
                        L.temp[f[i]] = float(f[i + 1]) * fac
    def face_of(s, c, g1, g2):
        """(corner nodes outward-oriented, inward?)"""
        nc = CORNERS[c.kind]
        corners = c.nodes[:nc]
        if c.kind in ("TR3", "TR6", "QU4", "QU8"):
            return corners, False
        faces = [[corners[i] for i in fc] for fc in TOPO[c.kind]["faces"]]
        if c.kind in ("TE4", "T10"):
            # g2 is the corner NOT on the face
            for fc in faces:
                if g1 in fc and g2 not in fc:
                    return fc, True
        for fc in faces:
            if len(fc) == 4 and g1 in fc and g2 is not None and g2 in fc:
                i, j = fc.index(g1), fc.index(g2)
                if abs(i - j) == 2:
                    return fc, True
        for fc in faces:
            if len(fc) == 3 and g1 in fc and g2 is None:
                return fc, True
        raise ValueError("no such face")

    # ------------------------------------------------------------- analyses
    def build_analyses(s):
        sol = str(s.sol)
        subs = s.subs or [(1, {})]
        com, rbe3 = s.common_rows()
        for sid, sc in subs:
            p = dict(s.glob); p.update(sc)
            a = Analysis(sol, sid)
            a.par = p
            if "LOAD" in p:
                a.load = s.load(int(p["LOAD"]))
            if "SPC" in p:
                a.rows += s.spc_rows(int(p["SPC"]))
            if "MPC" in p:
                a.rows += s.mpc_rows(int(p["MPC"]))
            a.rows += com
            a.rbe3 = list(rbe3)
            # SPCD replaces the value of a constrained component
            if a.load.imposed:
                imp = a.load.imposed
                a.rows = [(cf, imp.get(getattr(cf, "src", None), r)) for cf, r in a.rows]
            s.fem.analyses.append(a)

class Row(dict):
    """coefficients of a blocked component; src = (node, component) in the displacement system of the node"""
    def __init__(s, cf, src):
        dict.__init__(s, cf)
        s.src = src

def section(t, d):
    """A, I1 (bending in plane 1 = about z_elem), I2, J of library sections, from first principles"""
    pi = math.pi
    if t == "ROD":
        r = d[0]
        return dict(A=pi * r * r, I1=pi * r ** 4 / 4, I2=pi * r ** 4 / 4, J=pi * r ** 4 / 2)
    if t in ("TUBE",):
        a, b = d[0], d[1]
        return dict(A=pi * (a * a - b * b), I1=pi * (a ** 4 - b ** 4) / 4, I2=pi * (a ** 4 - b ** 4) / 4, J=pi * (a ** 4 - b ** 4) / 2)
    if t == "BAR":
        w, h = d[0], d[1]   # w along z, h along y
        a, b = max(w, h), min(w, h)
        J = a * b ** 3 * (1.0 / 3 - 0.21 * b / a * (1 - b ** 4 / (12 * a ** 4)))
        return dict(A=w * h, I1=w * h ** 3 / 12, I2=h * w ** 3 / 12, J=J)
    if t == "I":
        h, wb, wt, tw, tb, tt = d
        hw = h - tb - tt
        A = wb * tb + wt * tt + hw * tw
        yc = (wb * tb * tb / 2 + hw * tw * (tb + hw / 2) + wt * tt * (h - tt / 2)) / A
        I1 = (wb * tb ** 3 / 12 + wb * tb * (yc - tb / 2) ** 2 + tw * hw ** 3 / 12 + tw * hw * (yc - tb - hw / 2) ** 2
              + wt * tt ** 3 / 12 + wt * tt * (h - tt / 2 - yc) ** 2)
        I2 = tb * wb ** 3 / 12 + tt * wt ** 3 / 12 + hw * tw ** 3 / 12
        J = (wb * tb ** 3 + wt * tt ** 3 + hw * tw ** 3) / 3
        return dict(A=A, I1=I1, I2=I2, J=J)
    return {}

def interpret(deck):
    return Ref(deck.sol, deck.case, deck.cards)
