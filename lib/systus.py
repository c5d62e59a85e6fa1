"""Reads what a SYSTUS translation says (the .ASC data files and .DAT command files) -> one Fem per subcase file."""
import math, re
import numpy as np
from lib.fem import *
from lib.sem import DOF, TOPO, CORNERS, face_normal, unit, vec

# documented node order of Systus elements -> our (corners, then middles in Nastran edge order)
RING = {
    "TR6": ([0, 2, 4], {(0, 1): 1, (1, 2): 3, (2, 0): 5}),
    "QU8": ([0, 2, 4, 6], {(0, 1): 1, (1, 2): 3, (2, 3): 5, (3, 0): 7}),
    "T10": ([0, 2, 4, 9], {(0, 1): 1, (1, 2): 3, (2, 0): 5, (0, 3): 6, (1, 3): 7, (2, 3): 8}),
    "P15": ([0, 2, 4, 9, 11, 13], {(0, 1): 1, (1, 2): 3, (2, 0): 5, (0, 3): 6, (1, 4): 7, (2, 5): 8, (3, 4): 10, (4, 5): 12, (5, 3): 14}),
    "H20": ([0, 2, 4, 6, 12, 14, 16, 18], {(0, 1): 1, (1, 2): 3, (2, 3): 5, (3, 0): 7, (0, 4): 8, (1, 5): 9, (2, 6): 10, (3, 7): 11,
                                           (4, 5): 13, (5, 6): 15, (6, 7): 17, (7, 4): 19}),
}
KIND = {(1, 2): "SE2", (1, 3): "SE3", (2, 3): "TR3", (2, 4): "QU4", (2, 6): "TR6", (2, 8): "QU8", (3, 4): "TE4", (3, 5): "PY5",
        (3, 6): "PE6", (3, 8): "HE8", (3, 10): "T10", (3, 13): "P13", (3, 15): "P15", (3, 20): "H20", (0, 1): "PO1"}
SMF = ("PSI THETA PHI RHO E NU G LX LY LZ S AY AZ IX IY IZ LOCAL XX YY ZZ H SURF INTEG PRESS TEMP TABLE VARI DIAME DIAH UNIT "
       "KX KY KZ C ALPHA BETA R IG FT SECT VY VPY VZ VPZ PHASE DYNA MODEL CREEP SLOPE YIELD FLEXI NODE VX OMEGA ENTHAL COEF COEG CRIT PLAT TREF "
       "SHAPE PCA PCB PNA PCC PNC FSB FSN CURVE COMP LAYER FCURE OOGC ZC YC MATE AUST MART LAW PERX PERY PERZ SIGX SIGY SIGZ SATU HCX HCY HCZ DUCT "
       "GROUP EMIS TF FLUID INTG PERV EX EY EZ CARACT XCEN YCEN ZCEN XINT YINT ZINT XEXT YEXT ZEXT XCOEF YCOEF ZCOEF TRANSF SURF2 HYPER MRCB DMASS REAC OFFSET PISOTR "
       "DISSIP AUXI EVOL DILA PREC GAMA CYIE CSTR GRAI SELE REDU GAUS DEFO STAT IDENT RHOMF RHOF EZREG EZSUP TECS SHEETS TRIA VSIG VPER VEPS PROPOR VCURV METAL SARGIN PRICE "
       "SATX STAY SATZ TSAT TPIEZO EPSX EPSY EPSZ TEPS TMAGNE PCX PCY PCZ TSIG PENALI PEIX PEIY PEIZ TPER TRAJ EPIX EPIY EPIZ INFOS MATRIX SERI CRES TLIQ TSOL CRACK "
       "PID MID FSOL DEPEND OAHE OAHF OAHG OAHH OAHI SWELL OAIA OAIB OAIC OAID EPSI TOLE LEVEL GAP EXTRAC TYPE").split()
KEY = {str(i + 1): n for i, n in enumerate(SMF)}

def euler(psi, theta, phi):
    """rows = local axes of the intrinsic Z-Y-X frame"""
    cz, sz, cy, sy, cx, sx = math.cos(psi), math.sin(psi), math.cos(theta), math.sin(theta), math.cos(phi), math.sin(phi)
    Rz = np.array([[cz, -sz, 0], [sz, cz, 0], [0, 0, 1]])
    Ry = np.array([[cy, 0, sy], [0, 1, 0], [-sy, 0, cy]])
    Rx = np.array([[1, 0, 0], [0, cx, -sx], [0, sx, cx]])
    return (Rz @ Ry @ Rx).T

def files(res):
    import os
    return sorted(f for f in os.listdir(res.dir) if f.endswith(".ASC") and not re.search(r"_(STI|MAS|DAM)GEN\.ASC$", f))

def matrix_file(text):
    """elementary matrices of a file -> ndof, {number: (nodes, {((node, dof), (node, dof)): value})}"""
    w = text.split()
    nd, i, out = int(w[11]), 21, {}
    while i + 7 <= len(w):
        num, n, n2, size = (int(x) for x in w[i + 1:i + 5])
        i += 7
        if num == 0:
            break
        if n != n2 or size != n * n * nd * nd or [int(x) for x in w[i:i + n]] != list(range(1, n + 1)):
            return nd, out, "matrix %d: %d nodes and %d values" % (num, n, size)
        i += n
        v = [float(x) for x in w[i:i + size]]
        if len(v) != size:
            return nd, out, "matrix %d: %d values of %d" % (num, len(v), size)
        i += size
        if num in out:
            return nd, out, "matrix %d twice" % num
        out[num] = (n, {((k // (nd * nd) % n, k % nd), (k // (nd * nd) // n, k // nd % nd)): x for k, x in enumerate(v) if x})
    else:
        return nd, out, "no end mark"
    if i != len(w):
        return nd, out, "%d words after the end mark" % (len(w) - i)
    return nd, out, None

def matrix_files(res, name):
    """{access number: (ndof, matrices)}, errors: the files that the command file of the subcase opens"""
    out, err = {}, []
    t = res.read(re.sub(r"_DATA1\.ASC$", ".DAT", name)) or ""
    conv = dict(re.findall(r"^!filematrix ASC2BIN (\S+) (\S+)", t, re.M))
    back = {b: a for a, b in conv.items()}
    for num, b in re.findall(r"^ASSIGN (\d+) (\S+) BINARY", t, re.M):
        a = back.get(b)
        m = a and res.read(a)
        if not m:
            err.append("file %s, given the access %s, does not exist" % (a or b, num))
        elif int(num) in out:
            err.append("access %s twice" % num)
        else:
            nd, d, x = matrix_file(m)
            out[int(num)] = (nd, d)
            if x:
                err.append("%s: %s" % (a, x))
    return out, err

def sections(text):
    out, order = {}, []
    cur = None
    for l in text.splitlines():
        m = re.match(r"BEGIN_(\w+)\s*(.*)", l)
        if m:
            cur = m.group(1)
            out[cur] = (m.group(2).split(), [])
            continue
        if l.startswith("END_"):
            if cur != l[4:].strip():
                out.setdefault("errors", ([], []))[1].append("END_%s closes %s" % (l[4:].strip(), cur))
            cur = None
            continue
        if cur:
            out[cur][1].append(l)
    if cur:
        out.setdefault("errors", ([], []))[1].append("section %s not closed" % cur)
    return out

def read_all(res):
    fs = files(res)
    out = []
    for f in fs:
        m, err = matrix_files(res, f)
        g = parse(res.read(f), m)
        g.errors += err
        out.append((f, g))
    return out

def parse(text, matrices={}):
    f = Fem()
    S = sections(text)
    f.sections = S
    f.errors += S.get("errors", ([], []))[1]
    need = ("INFORMATIONS", "NODES", "ELEMENTS", "GROUPS", "MATERIALS", "LOADS", "LISTS", "VECTORS", "TABLES", "MASSES")
    for n in need:
        if n not in S:
            f.errors.append("section %s missing" % n)
    if f.errors:
        return f
    def rows(n):
        return [l for l in S[n][1] if l.strip()]
    f.vectors = {}
    for l in rows("VECTORS"):
        p = l.split()
        f.vectors[int(p[0])] = [float(x) for x in p[1:]]
    f.lists = {}
    for l in rows("LISTS"):
        p = [int(x) for x in l.split()]
        if len(p) % 2 == 0:
            f.errors.append("list %s has an odd number of entries" % p[0])
        f.lists[p[0]] = list(zip(p[1::2], p[2::2]))
    f.tables = {}
    for l in rows("TABLES"):
        p = l.split()
        f.tables[int(p[0])] = (p[1], [float(x) for x in p[2:]])
    f.loads = {}
    for l in rows("LOADS"):
        m = re.match(r'\s*(\d+)\s+"(.*)"\s+(.*)$', l)
        if not m:
            f.errors.append("bad load line %r" % l); continue
        p = m.group(3).split()
        f.loads[int(m.group(1))] = (m.group(2), int(p[1]))
    f.mats = {}
    nkeys = 0
    for l in rows("MATERIALS"):
        p = l.split()
        kv = {}
        for k, v in zip(p[2::2], p[3::2]):
            kv[KEY.get(k, k)] = float(v)
            nkeys += 1
        f.mats[int(p[0])] = kv
    info = [l for l in S["INFORMATIONS"][1]]
    f.option = info[1].split() if len(info) > 1 else []
    f.node = {}
    for l in rows("NODES"):
        p = l.split()
        nid = int(p[0])
        if nid in f.nodes:
            f.errors.append("node %d twice" % nid)
        f.nodes[nid] = tuple(float(x) for x in p[6:9])
        f.node[nid] = dict(const=int(p[1]), angl=int(p[3]), sol=int(p[4]), disp=int(p[5]))
    f.elem = {}
    for l in rows("ELEMENTS"):
        p = l.split()
        eid = int(p[0])
        code = p[1]
        dim, typ, nn = int(code[0]), int(code[1]) if len(code) == 4 else int(code[1:-2]), int(code[-2:])
        if len(code) == 3:       # dimension 0 is written without leading zero? keep generic
            dim, typ, nn = 0, int(code[0]), int(code[1:])
        mat, sol = int(p[2]), int(p[3])
        na = int(p[4])
        ang = [float(x) for x in p[5:5 + na]]
        nodes = [int(x) for x in p[5 + na:]]
        if eid in f.elem:
            f.errors.append("element %d twice" % eid)
        f.elem[eid] = dict(dim=dim, typ=typ, nn=nn, mat=mat, sol=sol, ang=ang, nodes=nodes)
        for n in nodes:
            if n not in f.nodes:
                f.errors.append("element %d refers to missing node %d" % (eid, n))
        kind = KIND.get((dim, nn)) if typ in (0, 4) else None
        if kind is None:
            continue
        if kind == "PY5":
            nodes = nodes[:5] if len(nodes) == 8 and len(set(nodes[4:])) == 1 else nodes
        elif kind in RING:
            cor, mid = RING[kind]
            if len(nodes) == nn:
                nodes = [nodes[i] for i in cor] + [nodes[mid[e] if e in mid else mid[(e[1], e[0])]] for e in TOPO[kind]["edges"]]
        elif kind == "SE3":
            nodes = [nodes[0], nodes[2], nodes[1]]
        c = Cell(kind, nodes, id=eid)
        c.mat = f.mats.get(mat, {})
        c.name = typ
        c.model = f.elem[eid]
        if kind == "SE2" and nodes[0] in f.nodes and nodes[1] in f.nodes:
            x = unit(vec(f.nodes[nodes[1]]) - vec(f.nodes[nodes[0]]))
            if abs(x[0]) < 1e-12 and abs(x[1]) < 1e-12:
                y0 = np.array([0, 1.0, 0])
            else:
                y0 = unit(np.cross([0, 0, 1.0], x))
            z0 = np.cross(x, y0)
            phi = ang[2] if len(ang) == 3 else 0.0
            c.orient = tuple(math.cos(phi) * y0 + math.sin(phi) * z0) if ang else None
        f.cells.append(c)
    f.counts = {n: ([int(x) for x in S[n][0] if re.fullmatch(r"-?\d+", x)], len(rows(n))) for n in S if n != "errors"}
    for n in ("NODES", "ELEMENTS", "GROUPS", "MATERIALS", "LOADS", "LISTS", "VECTORS", "TABLES", "MASSES"):
        if not f.counts[n][0] or f.counts[n][0][0] != f.counts[n][1]:
            f.errors.append("section %s announces %s entries and has %d" % (n, f.counts[n][0], f.counts[n][1]))
    f.group = {}
    for l in rows("GROUPS"):
        m = re.match(r'(\d+) (\S+) (\d+) (\d+) "(.*?)"\s+"(.*?)"\s+"(.*?)"(.*)$', l)
        if not m:
            f.errors.append("bad group line %r" % l); continue
        members = [int(x) for x in m.group(8).split()]
        f.group[m.group(2)] = (int(m.group(3)), members)
        for x in members:
            if int(m.group(3)) == 1 and x not in f.nodes or int(m.group(3)) == 2 and x not in f.elem:
                f.errors.append("group %s refers to missing %s %d" % (m.group(2), "node" if m.group(3) == "1" else "element", x))
    for c in f.cells:
        for g, (t, mem) in f.group.items():
            if t == 2 and c.id in mem:
                c.groups.add(g)
    # ---- structural consistency
    for eid, e in f.elem.items():
        if e["mat"] not in f.mats and e["mat"] != 0:
            f.errors.append("element %d refers to missing material %d" % (eid, e["mat"]))
        if e["sol"] and e["sol"] not in f.lists:
            f.errors.append("element %d refers to missing list %d" % (eid, e["sol"]))
    for n, d in f.node.items():
        for k in ("sol", "disp"):
            if d[k] and d[k] not in f.lists:
                f.errors.append("node %d refers to missing list %d" % (n, d[k]))
        if d["angl"] and d["angl"] not in f.vectors:
            f.errors.append("node %d refers to missing vector %d" % (n, d["angl"]))
    for i, l in f.lists.items():
        for lc, v in l:
            if v not in f.vectors:
                f.errors.append("list %d refers to missing vector %d" % (i, v))
            if lc not in f.loads:
                f.errors.append("list %d refers to missing load case %d" % (i, lc))
    for i, (nm, v) in f.loads.items():
        if v and v not in f.vectors:
            f.errors.append("load %d refers to missing vector %d" % (i, v))
    # ---- load cases
    f.lc = {}
    frame = {n: euler(*f.vectors[d["angl"]][6:9]) if d["angl"] in f.vectors else None for n, d in f.node.items()}
    f.frame = frame
    for i, (nm, v) in f.loads.items():
        L = Load()
        L.name = nm
        if v:
            w = f.vectors[v]
            if w[0] == 6:
                L.grav = np.array([w[6], w[8], w[10]])
            else:
                f.errors.append("load %d: vector type %s" % (i, w[0]))
        for n, d in f.node.items():
            for lc, vv in f.lists.get(d["sol"], ()):
                if lc == i and vv in f.vectors:
                    for k, x in enumerate(f.vectors[vv][6:12]):
                        L.add_nodal(n, DOF[k], x)
            for lc, vv in f.lists.get(d["disp"], ()):
                if lc == i and vv in f.vectors:
                    if f.vectors[vv][0] != 4:
                        f.errors.append("node %d: displacement vector of type %s" % (n, f.vectors[vv][0]))
                    for k, x in enumerate(f.vectors[vv][6:12]):
                        if x:
                            L.imposed[(n, DOF[k])] = x      # "imposed displacement supersedes the generic constraint vector"
        for eid, e in f.elem.items():
            for lc, vv in f.lists.get(e["sol"], ()):
                if lc == i and vv in f.vectors:
                    w = f.vectors[vv]
                    if e["dim"] == 2:
                        c = next((c for c in f.cells if c.id == eid), None)
                        if c is None:
                            continue
                        g = c.nodes[:CORNERS[c.kind]]
                        f.errors += sides(c.kind, c.nodes, f.nodes)
                        if w[2] == 1:
                            n = unit(face_normal([f.nodes[k] for k in g]))
                            L.face.append((frozenset(g), n * w[8]))
                        else:
                            L.face.append((frozenset(g), np.array(w[6:9])))
                    else:
                        L.line.append((eid, w[6:12]))
        f.lc[i] = L
    BIT = {"DX": 1, "DY": 2, "DZ": 4, "DRX": 8, "DRY": 16, "DRZ": 32}
    f.fixed = {}
    for n, d in f.node.items():
        for q, b in BIT.items():
            if d["const"] & b:
                f.fixed[(n, q)] = frame[n]
    # ---- discrete matrices
    for eid, e in f.elem.items():
        kv = f.mats.get(e["mat"], {})
        if e["typ"] == 6:
            k = [kv.get(x, 0.0) for x in ("KX", "KY", "KZ", "IX", "IY", "IZ")]
            A = np.diag(k)
            if len(e["ang"]) == 3:
                R = euler(*e["ang"])
                T = np.zeros((6, 6)); T[:3, :3] = R; T[3:, 3:] = R
                A = T.T @ A @ T
            if len(e["nodes"]) == 1:
                add_sym(f.K, [(e["nodes"][0], d) for d in DOF], A.tolist())
            else:
                add_sym(f.K, [(n, d) for n in e["nodes"] for d in DOF], np.block([[A, -A], [-A, A]]).tolist())
        elif e["typ"] == 9 and "TABLE" in kv and kv.get("SHAPE") is None:
            t = int(kv["TABLE"])
            if t < 0:  # matrix in a file
                for acc, tgt in ((-t % 100, f.K), (-t // 100 % 100, f.M), (-t // 10000, f.B)):
                    if not acc:
                        continue
                    nd, d = matrices.get(acc, (0, {}))
                    num = int(kv.get("E", 0))
                    if num not in d:
                        f.errors.append("element %d refers to missing matrix %d of file %d" % (eid, num, acc))
                        continue
                    n, v = d[num]
                    if n != len(e["nodes"]):
                        f.errors.append("element %d of %d nodes refers to a matrix of %d" % (eid, len(e["nodes"]), n))
                        continue
                    for ((i, a), (j, b)), x in v.items():
                        k2 = ((e["nodes"][i], DOF[a]), (e["nodes"][j], DOF[b]))
                        tgt[k2] = tgt.get(k2, 0.0) + x
                continue
            for tid, tgt in ((t % 100, f.K), (t // 100 % 100, f.M), (t // 10000, f.B)):
                if tid and tid in f.tables:
                    v = f.tables[tid][1]
                    acc = {}
                    for c, x in zip(v[0::2], v[1::2]):
                        c = int(c)
                        a = (e["nodes"][c // 1000 - 1], DOF[c // 10 % 10 - 1])
                        b = (e["nodes"][c // 100 % 10 - 1], DOF[c % 10 - 1])
                        acc[(a, b)] = acc.get((a, b), 0.0) + x
                        if a != b:
                            acc[(b, a)] = acc.get((b, a), 0.0) + x
                    for k2, x in acc.items():
                        tgt[k2] = tgt.get(k2, 0.0) + x
                elif tid:
                    f.errors.append("element %d refers to missing table %d" % (eid, tid))
    f.masses = []
    for l in rows("MASSES"):
        p = l.split()
        n = int(p[1])
        vals = [float(x) for x in p[2:2 + n]]
        for nd in p[2 + n:]:
            if int(nd) not in f.nodes:
                f.errors.append("mass on missing node %s" % nd)
            add_sym(f.M, [(int(nd), DOF[i]) for i in range(n)], np.diag(vals).tolist())
    # ---- rigid bodies, averages, linear relations (special elements)
    # dimension option: 3 shells and beams (6 components a node), 4 solids (3 components a node)
    nd = f.ndof = 3 if f.option and f.option[0] == "4" else 6
    f.mpc, f.rigid, f.avg, f.rotnode, f.lagrange = [], [], [], {}, set()
    for eid, e in f.elem.items():
        kv = f.mats.get(e["mat"], {})
        if e["typ"] != 9 or "LEVEL" not in kv:
            continue
        ns = list(e["nodes"])
        if e["nn"] != len(ns):
            f.errors.append("element %d announces %d nodes and has %d" % (eid, e["nn"], len(ns)))
        lev, lag = int(kv["LEVEL"]), kv.get("SHAPE") == 19
        if kv.get("SHAPE") not in (9, 19):
            f.errors.append("element %d: shape %s of a special element" % (eid, kv.get("SHAPE")))
        if lev != 3 and not kv.get("E"):
            f.errors.append("element %d: no rigidity" % eid)
        if lev == 0:
            if lag:
                if ns[-1] in f.lagrange:
                    f.errors.append("element %d shares Lagrange node %d" % (eid, ns[-1]))
                f.lagrange.add(ns.pop())
            v = f.tables.get(int(kv.get("TABLE", 0)), ("", []))[1]
            if len(v) == 0 or len(v) % (len(ns) * nd):
                f.errors.append("element %d: table of %d coefficients for %d nodes" % (eid, len(v), len(ns)))
                continue
            for r in range(len(v) // (len(ns) * nd)):
                cf = {}
                for j, n in enumerate(ns):
                    for d in range(nd):
                        x = v[(r * len(ns) + j) * nd + d]
                        if x:
                            fr = frame[n]
                            for q, y in ([(DOF[d], 1.0)] if fr is None else [(DOF[d // 3 * 3 + a], fr[d % 3][a]) for a in range(3)]):
                                if y:
                                    cf[(n, q)] = cf.get((n, q), 0.0) + x * y
                f.mpc.append((eid, cf))
        elif lev in (1, 3):
            m, sl, rest = ns[0], ns[1], ns[2:]
            rot = None
            if nd == 3:
                if not rest:
                    f.errors.append("element %d has no node for the rotations of node %d" % (eid, m)); continue
                rot = rest.pop(0)
                f.rotnode.setdefault(m, [])
                if rot not in f.rotnode[m]:
                    f.rotnode[m].append(rot)
            if (len(rest) > 0) != lag:
                f.errors.append("element %d: Lagrange nodes %s" % (eid, rest))
            if lev == 1:
                f.errors += ["element %d shares Lagrange node %d" % (eid, x) for x in rest if x in f.lagrange]
            f.lagrange |= set(rest)
            if lev == 1:
                f.rigid.append((eid, m, sl, rot))
            else:
                ds = frozenset(d for d, k in zip(DOF, ("KX", "KY", "KZ", "IX", "IY", "IZ")) if kv.get(k))
                dep = int(kv.get("DEPEND", 0))
                f.avg.append((eid, m, sl, rot, tuple(rest), ds, frozenset(d for i, d in enumerate(DOF) if dep >> i & 1), kv.get("COEF", 0.0)))
        else:
            f.errors.append("element %d: level %d" % (eid, lev))
    return f
