"""The NASTRAN writer: does the deck it writes mean the same as the one it was given?"""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from lib import check, run, ref, cmp, nas, cons, features
from checks import c_loads, c_spc, c_rigid, c_discrete, c_mesh, c_props

def num(a, b):
    """equal up to the digits of an eight-character field"""
    return abs(a - b) <= 5e-4 * max(abs(a), abs(b)) + 1e-9

def same(a, b):
    if isinstance(a, (int, float, np.floating)) and isinstance(b, (int, float, np.floating)) and not isinstance(a, bool):
        return num(float(a), float(b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return a is not None and b is not None and len(a) == len(b) and all(same(float(x), float(y)) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b

def items(d, e, what, out):
    for k in sorted(set(d) | set(e), key=str):
        x, y = d.get(k), e.get(k)
        if not same(0.0 if x is None else x, 0.0 if y is None else y):
            out.append("%s %s: %s in the output, %s in the input" % (what, k, y, x))

def multi(a, b, what, out):
    b = list(b)
    for x in a:
        for i, y in enumerate(b):
            if same(x, y):
                del b[i]; break
        else:
            out.append("%s %s is missing" % (what, x))
    for y in b:
        out.append("%s %s is not in the input" % (what, y))

def ground(A, B):
    """the nodes added by the translation stand for the ground: they have to be fixed where something is attached to them"""
    extra = set(B.fem.nodes) - set(A.fem.nodes)
    out = []
    M = {}
    for m in "KMB":
        M[m] = {k: v for k, v in getattr(B.fem, m).items() if not any(x[0] in extra for x in k)}
        used = {x for k, v in getattr(B.fem, m).items() if abs(v) > 1e-12 for x in k if x[0] in extra}
        for i, a in enumerate(B.fem.analyses):
            fixed = {list(cf)[0] for cf, r in a.rows if len(cf) == 1 and r == 0}
            out += ["analysis %d: %s of the added node %s is free" % (i + 1, d, n) for n, d in sorted(used - fixed)]
    rows = [[(cf, r) for cf, r in a.rows if not (len(cf) == 1 and list(cf)[0][0] in extra)] for a in B.fem.analyses]
    return M, rows, out

def compare(A, B, said=""):
    """A: the input, B: the output"""
    out = cmp.mesh(A, B.fem, extra_nodes_ok=True) + cmp.ids(A, B.fem, 1e-4)
    bc = {c.id: c for c in B.fem.cells}
    for c in A.fem.cells:
        g = bc.get(c.id)
        if g is None:
            continue
        w = "element %s: " % c.id
        lib = "sect" in c.prop # a section of a library is written by its characteristics
        for k in sorted((set(c.prop) | set(g.prop)) - {"pbeam", "mid"} - ({"sect", "dims", "K1", "K2", "t"} if lib else set()) - ({"K1", "K2"} if c.prop.get("pbeam") else set())):
            if lib and k not in g.prop:
                out.append(w + "property %s is not in the output" % k)
            elif k in ("K1", "K2", "nsm", "I12"):
                if not same(c.prop.get(k) or 0.0, g.prop.get(k) or 0.0):
                    out.append(w + "property %s is %s in the output, %s in the input" % (k, g.prop.get(k), c.prop.get(k)))
            elif not same(c.prop.get(k), g.prop.get(k)):
                out.append(w + "property %s is %s in the output, %s in the input" % (k, g.prop.get(k), c.prop.get(k)))
        for k in sorted(set(c.mat) | set(g.mat)):
            if not same(c.mat.get(k), g.mat.get(k)):
                out.append(w + "material %s is %s in the output, %s in the input" % (k, g.mat.get(k), c.mat.get(k)))
        if not same(c.orient, g.orient):
            out.append(w + "orientation %s in the output, %s in the input" % (g.orient, c.orient))
    M, rows, more = ground(A, B)
    out += more
    for m, name in (("K", "STIFFNESS"), ("M", "MASS"), ("B", "DAMPING")):
        if name + "_MATRIX" not in said: # NASTRAN matrices are not written, which is said
            items(getattr(A.fem, m), M[m], "matrix " + m, out)
    a, b = A.fem.analyses, B.fem.analyses
    if [x.kind for x in a] != [x.kind for x in b]:
        out.append("analyses %s in the output, %s in the input" % ([x.kind for x in b], [x.kind for x in a]))
        return out
    for i, (x, y) in enumerate(zip(a, b)):
        w = "analysis %d: " % (i + 1)
        for k in ("nodal", "imposed", "temp"):
            items(getattr(x.load, k), getattr(y.load, k), w + k, out)
        for k in ("face", "press", "line", "rot", "gravs", "other"):
            multi(getattr(x.load, k), getattr(y.load, k), w + k, out)
        if not same(x.load.grav, y.load.grav):
            out.append(w + "gravity %s in the output, %s in the input" % (y.load.grav, x.load.grav))
        out += cons.affine(x.rows, rows[i], w)
        multi(x.rbe3, y.rbe3, w + "mean motion", out)
    return out

def classes():
    for n, mod in (("mesh", c_mesh), ("props", c_props), ("loads", c_loads), ("spc", c_spc), ("rigid", c_rigid), ("discrete", c_discrete)):
        for v in vars(mod).values():
            if isinstance(v, type) and issubclass(v, check.Check) and v is not check.Check:
                yield n, v()

class Nastran(check.Check):
    pid = "C11"
    rule = "every model of the menus of C03 and C05-C09 up to the depth, translated to each dialect of NASTRAN and read again"
    def cases(self):
        out, seen = [], set()
        for n, c in classes():
            c.tier = "quick"
            for lab, p in c.cases():
                if not re.match(r"\w+ ", lab) or "SYSTUS" in lab:
                    continue
                if self.tier == "quick" and lab.count("+") > 1:
                    continue
                l = re.sub(r"^(ASTER|NASTRAN) | (ASTER|NASTRAN)$", "", lab)
                if (n, l) in seen:
                    continue
                seen.add((n, l))
                for dial in ("modern", "cosmic95"):
                    if self.tier == "quick" and "+" in l and (dial == "cosmic95" or re.search(r"\b(gap|rev)\b", l)):
                        continue
                    out.append(("%s %s %s" % (dial, n, l), (dial, c, p)))
            self.space.states += c.space.states; self.space.transitions += c.space.transitions
        return out
    def deck(self, p):
        return p[1].deck(p[2])
    def describe(self, p):
        return self.deck(p).render()
    def judge(self, p):
        d = self.deck(p)
        t = d.render("free")
        A = ref.interpret(d)
        if any(c_spc.conflict(a.rows) for a in A.fem.analyses):
            return [], 0
        r = run.translate(t, "NASTRAN", ("--nastran.OutputDialect", p[0]) if p[0] == "modern" else ())
        if not r.ok:
            return ["translation ended with %s" % (r.status,)], 1
        if "$ WARN analysis" in (r.read("in_vg.nas") or ""): # a kind of analysis without an equivalent, which is said in the deck
            return [], 1
        B = nas.read(r)
        if B is None:
            return ["no output"], 1
        return compare(A, B, r.out + r.err), 1

if __name__ == "__main__":
    sys.exit(check.main(Nastran))
