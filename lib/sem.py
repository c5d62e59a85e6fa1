"""The semantic finite-element model every output is reduced to, and the comparison of two of them."""
import math
import numpy as np

DOF = ("DX", "DY", "DZ", "DRX", "DRY", "DRZ")

# cell kinds: number of nodes, corner count, faces as (corner indices, quadratic extras) in *Nastran* order
KIND = {
    "SE2": 2, "SE3": 3, "TR3": 3, "TR6": 6, "QU4": 4, "QU8": 8, "QU9": 9,
    "TE4": 4, "T10": 10, "PY5": 5, "P13": 13, "PE6": 6, "P15": 15, "HE8": 8, "H20": 20, "PO1": 1,
}
# edges and faces of a cell, as sequences of local corner numbers, faces oriented outwards (Nastran numbering)
_TET = dict(edges=[(0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3)], faces=[(0, 2, 1), (0, 1, 3), (1, 2, 3), (2, 0, 3)])
_PYR = dict(edges=[(0, 1), (1, 2), (2, 3), (3, 0), (0, 4), (1, 4), (2, 4), (3, 4)],
            faces=[(0, 3, 2, 1), (0, 1, 4), (1, 2, 4), (2, 3, 4), (3, 0, 4)])
_PEN = dict(edges=[(0, 1), (1, 2), (2, 0), (0, 3), (1, 4), (2, 5), (3, 4), (4, 5), (5, 3)],
            faces=[(0, 2, 1), (3, 4, 5), (0, 1, 4, 3), (1, 2, 5, 4), (2, 0, 3, 5)])
_HEX = dict(edges=[(0, 1), (1, 2), (2, 3), (3, 0), (0, 4), (1, 5), (2, 6), (3, 7), (4, 5), (5, 6), (6, 7), (7, 4)],
            faces=[(0, 3, 2, 1), (4, 5, 6, 7), (0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (3, 0, 4, 7)])
_TRI = dict(edges=[(0, 1), (1, 2), (2, 0)], faces=[(0, 1, 2)])
_QUA = dict(edges=[(0, 1), (1, 2), (2, 3), (3, 0)], faces=[(0, 1, 2, 3)])
_SEG = dict(edges=[(0, 1)], faces=[])
TOPO = {"TE4": _TET, "T10": _TET, "PY5": _PYR, "P13": _PYR, "PE6": _PEN, "P15": _PEN, "HE8": _HEX, "H20": _HEX,
        "TR3": _TRI, "TR6": _TRI, "QU4": _QUA, "QU8": _QUA, "SE2": _SEG, "SE3": _SEG, "PO1": dict(edges=[], faces=[])}
CORNERS = {"TE4": 4, "T10": 4, "PY5": 5, "P13": 5, "PE6": 6, "P15": 6, "HE8": 8, "H20": 8, "TR3": 3, "TR6": 3,
           "QU4": 4, "QU8": 4, "SE2": 2, "SE3": 2, "PO1": 1}

def rot(face):
    """canonical rotation of an oriented face"""
    i = face.index(min(face))
    return tuple(face[i:] + face[:i])

def shape(kind, nodes, oriented=True):
    """What a connectivity means up to renumbering of the cell's own corners: oriented faces + node of every edge.
    nodes in Nastran order."""
    t = TOPO[kind]
    nc = CORNERS[kind]
    mids = {}
    if len(nodes) > nc:
        for e, n in zip(t["edges"], nodes[nc:]):
            mids[tuple(sorted((nodes[e[0]], nodes[e[1]])))] = n
    if kind in ("SE2", "SE3"):
        return (kind, (nodes[0], nodes[1]), tuple(nodes[2:]))
    faces = frozenset(rot([nodes[i] for i in f]) for f in t["faces"])
    return (kind, faces, frozenset(mids.items()))

def vec(a):
    return np.array(a, dtype=float)

def face_normal(xs):
    """area vector of a planar polygon"""
    xs = [vec(x) for x in xs]
    n = np.zeros(3)
    for i in range(1, len(xs) - 1):
        n += np.cross(xs[i] - xs[0], xs[i + 1] - xs[0]) / 2
    return n

def unit(v):
    n = np.linalg.norm(v)
    return v / n if n > 0 else v

# ---------------------------------------------------------------- row spaces
def rowspace(rows, cols):
    """rows: list of (coeff dict, rhs); -> reduced row echelon matrix over cols + rhs"""
    idx = {c: i for i, c in enumerate(cols)}
    A = np.zeros((len(rows), len(cols) + 1))
    for i, (cf, rhs) in enumerate(rows):
        for c, v in cf.items():
            A[i, idx[c]] += v
        A[i, -1] = rhs
    return rref(A)

def rref(A, tol=1e-7):
    A = A.copy()
    r = 0
    for c in range(A.shape[1]):
        if r >= A.shape[0]:
            break
        p = r + int(np.argmax(np.abs(A[r:, c])))
        if abs(A[p, c]) < tol:
            A[r:, c] = 0
            continue
        A[[r, p]] = A[[p, r]]
        A[r] /= A[r, c]
        for i in range(A.shape[0]):
            if i != r:
                A[i] -= A[i, c] * A[r]
        r += 1
    return A[:r]

def rows_equal(r1, r2, tol=1e-5):
    """same affine constraint space?  returns None or a description"""
    cols = sorted({c for cf, _ in r1 + r2 for c in cf}, key=str)
    a, b = rowspace(r1, cols), rowspace(r2, cols)
    def show(m):
        return "; ".join(" + ".join("%.6g*%s" % (v, c) for v, c in zip(row, cols) if abs(v) > 1e-9) + " = %.6g" % row[-1] for row in m)
    if a.shape != b.shape:
        return "%d independent equations, expected %d: got {%s} expected {%s}" % (b.shape[0], a.shape[0], show(b), show(a))
    if a.size and not np.allclose(a, b, rtol=tol, atol=tol):
        return "different equations: got {%s} expected {%s}" % (show(b), show(a))
    return None

def close(a, b, rel=2e-5, abs_=1e-9):
    return abs(a - b) <= abs_ + rel * max(abs(a), abs(b))

def vclose(a, b, rel=2e-5, abs_=1e-9):
    s = max([abs(x) for x in a] + [abs(x) for x in b] + [0])
    return len(a) == len(b) and all(abs(x - y) <= abs_ + rel * s for x, y in zip(a, b))

def dict_diff(exp, got, what, rel=2e-5, abs_=1e-9):
    """numeric dictionaries, missing = 0"""
    out = []
    for k in sorted(set(exp) | set(got), key=str):
        e, g = exp.get(k, 0.0), got.get(k, 0.0)
        if not close(e, g, rel, abs_):
            out.append("%s %s: got %.8g expected %.8g" % (what, k, g, e))
    return out
