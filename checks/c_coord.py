"""Coordinate systems: is everything given in one placed and directed where the chain of definitions puts it?"""
import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import check, run, ref, aster, systus, cmp, nas, cons
from checks import c_spc

# points of the definitions; their numbers are read in the reference system, whatever its kind
PTS = {"R": [(1., 0., 0.), (1., 0.5, 1.), (2., 0.5, 0.)], "C": [(1., 30., 0.5), (1.5, 50., 2.), (3., 100., 0.5)], "S": [(1.5, 60., 30.), (3., 40., 75.), (2.5, 100., -20.)]}
# corners of a brick in each kind of system
HEX = {
    "R": [(.5 + 2 * x + .25 * y, 1.5 * y + .125 * z, z) for x, y, z in [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]],
    "C": [(2. + x, 20. + 40 * y, z) for x, y, z in [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1.), (1, 0, 1.), (1, 1, 1.), (0, 1, 1.)]],
    "S": [(2. + x, 40. + 30 * y, 20. + 40 * z) for x, y, z in [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]],
}
# a system: (kind of card, index of the reference system in the chain or None); CORD1R names three nodes, which are placed in the reference system
KINDS = ("2R", "2C", "2S", "1R")
CS = [11, 12, 13]
# uses of the last system: (system, kind) -> cards; e = the model
USES = {}
def use(f):
    USES[f.__name__.strip("_")] = f
    return f
@use
def brick(m):
    ids = [m.node(m.last, *p) for p in HEX[m.kind]]
    m.brick(ids)
@use
def corner(m):
    p = [x * 1.0625 for x in HEX[m.kind][5]]
    ids = [m.node(None, -8. + 2 * x, 1.5 * y, z) for x, y, z in [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1)]] + [m.node(m.last, *p)]
    m.brick(ids)
@use
def axis(m):
    m.bar(m.node(m.last, *((1.75, 0., 0.) if m.kind == "S" else (0., 0., 1.75))), m.node(m.last, *[x * 1.125 for x in HEX[m.kind][2]]))
@use
def turn(m):        # large and negative angles
    if m.kind == "R":
        m.bar(m.node(m.last, -3., -4., -5.), m.node(m.last, 3., -4., 5.))
    elif m.kind == "C":
        m.bar(m.node(m.last, 3., -130., -2.), m.node(m.last, 2., 275., 1.))
    else:
        m.bar(m.node(m.last, 3., 130., -100.), m.node(m.last, 2., 80., 200.))
@use
def blocked(m):
    m.add("SPC1", 10, 13, m.plain[2], m.moved(m.last))
@use
def rotation(m):
    m.add("SPC1", 10, 5, m.moved(m.last))
@use
def enforced(m):
    n = m.moved(m.last)
    m.add("SPC1", 10, 2, n); m.add("SPCD", 5, n, 2, 0.25)
@use
def force(m):
    m.add("FORCE", 5, m.plain[6], m.last, 2., 1., -2., 3.)
@use
def moment(m):
    m.add("MOMENT", 5, m.quad[2], m.last, 4., 0.5, 1., -1.)
@use
def both(m):        # a node placed and moved in the system, with a force given in it
    n = m.moved(m.last, True)
    m.add("SPC1", 10, 12, n); m.add("FORCE", 5, n, m.last, 2., 1., 0., 3.)
@use
def bydefault(m):
    m.cards.append(("GRDSET", None, m.last, None, None, None, None, None))
    m.bar(m.node(None, *[x * 1.1875 for x in HEX[m.kind][1]]), m.node(None, *[x * 1.1875 for x in HEX[m.kind][7]]))
    m.zero = True
@use
def bydefaultcd(m):
    m.cards.append(("GRDSET", None, None, None, None, None, m.last, 3))
    m.zero2 = True

# places in its planes, on its axes, in the global planes and on the global axes (with odd distances: no two are the same)
PLANES = {
    "R": [(3.25, 0., 0.), (0., 3.5, 0.), (0., 0., 3.75), (3.25, 3.5, 0.), (0., 3.5, 3.75)],
    "C": [(3.25, 0., 0.), (3.5, 90., 0.), (3.75, 180., 2.), (3.25, 270., 0.), (3.5, 45., 0.)],
    "S": [(3.25, 90., 0.), (3.5, 90., 90.), (3.75, 90., 180.), (3.25, 45., 0.), (3.5, 135., -90.)],
}
GPLANES = [(-3.25, 0., 0.), (0., -3.5, 0.), (0., 0., -3.75), (-3.25, 3.5, 0.), (0., -3.5, -3.75), (3.25, 0., -3.5)]
def places(m, cd=None):
    ns = [m.node(m.last, *p, cd) for p in PLANES[m.kind]] + [m.node(None, *p, cd) for p in GPLANES]
    for p, q in zip(ns, ns[1:]):
        m.bar(p, q)
    return ns
@use
def forces(m):
    for i, n in enumerate(places(m)):
        m.add("FORCE", 5, n, m.last, 1. + i, 3., (-1.) ** i, .5)
@use
def moves(m):
    ns = places(m, m.last)
    m.add("SPC1", 10, 13, *ns[::2][:6])
    for i, n in enumerate(ns[1::2]):
        m.add("SPC", 10, n, 2, .25 + i)

ORDERS = ("first", "last", "backwards", "elements")

class Model:
    def __init__(s, chain, ids):
        s.chain, s.grids, s.cards, s.cs, s.elems = chain, [], [], [], []
        s.n = s.e = 0
        s.ids = list(CS) if ids == "up" else [23, 22, 5]
        s.zero = s.zero2 = False
        kind = []
        for i, (k, par) in enumerate(chain):
            pk, pid = ("R", None) if par is None else (kind[par], s.ids[par])
            if k == "1R":
                s.cs.append(("CORD1R", s.ids[i]) + tuple(s.node(pid, *p) for p in PTS[pk]))
                kind.append("R")
            else:
                s.cs.append(("CORD" + k, s.ids[i], pid) + tuple(x for p in PTS[pk] for x in p))
                kind.append(k[1])
        s.kind, s.last = kind[-1], s.ids[len(chain) - 1]
        s.plain = [s.node(None, 20. + 2 * x, 1.5 * y, z) for x, y, z in [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]]
        s.quad = [s.node(None, 26. + 2 * x, 1.5 * y, .5) for x, y in [(0, 0), (1, 0), (1, 1), (0, 1)]]
        s.brick(s.plain)
        s.e += 1; s.elems.append(("CQUAD4", s.e, 2) + tuple(s.quad))
        s.add("SPC1", 10, 123456, s.quad[0])
        s.add("FORCE", 5, s.plain[0], 0, 1., 0., 5., 0.)
    def add(s, *c):
        s.cards.append(c)
    def node(s, cp, x, y, z, cd=None):
        s.n += 1
        s.grids.append(("GRID", s.n, cp, x, y, z, cd))
        return s.n
    def brick(s, ids):
        s.e += 1; s.elems.append(("CHEXA", s.e, 1) + tuple(ids))
    def bar(s, p, q):
        s.e += 1; s.elems.append(("CBAR", s.e, 3, p, q, 0.25, 0.5, 1.))
    def moved(s, cd, cp=False):
        n = s.node(cd, *[x * 1.25 for x in HEX[s.kind][6]], cd) if cp else s.node(None, 9., 4., 2. + s.e, cd)
        s.bar(n, s.node(None, 10., 5., 2.5 + s.e))
        return n
    def deck(s, order):
        g = s.grids
        if s.zero:      # the default system would also place what defines it
            g = [c if c[2] is not None or i >= s.n - 2 else c[:2] + (0,) + c[3:] for i, c in enumerate(g)]
        if s.zero2:     # the default displacement system only for some nodes
            g = [c if c[1] in s.plain[3:6] else c[:6] + (0, 0) for c in g]
        props = [("PSOLID", 1, 1), ("PSHELL", 2, 1, .125, 1), ("PBAR", 3, 1, .5, .25, .125, .0625), ("MAT1", 1, 2e11, None, .3, 7800.)]
        l = {"first": s.cs + g + s.elems + s.cards, "last": g + s.elems + s.cards + s.cs, "backwards": s.cards + s.elems + g[::-1] + s.cs[::-1], "elements": s.elems + s.cs[::-1] + s.cards + g}[order]
        return nas.Deck(101, ["SPC = 10", "LOAD = 5"], l + props)

class Coord(check.Check):
    pid = "C04"
    rule = "every chain of coordinate systems up to the length, with every pair of uses of its last one, in four orders of the cards"
    def chains(self, n):
        for ks in itertools.product(KINDS, repeat=n):
            for ps in itertools.product(*[[None] + list(range(i)) for i in range(n)]):
                # every system is used by the next ones
                if n > 1 and set(range(n - 1)) - {p for p in ps if p is not None}:
                    continue
                yield tuple(zip(ks, ps))
    def cases(self):
        quick = self.tier == "quick"
        out = []
        for n in (1, 2, 3):
            for ch in self.chains(n):
                self.space.states += 1; self.space.transitions += n
                depth = (2 if n < (2 if quick else 3) else 1)
                for us in self.space.subsets(list(USES), depth):
                    if not us or {"bydefault", "bydefaultcd"} <= set(us) or {"forces", "moves"} <= set(us):
                        continue
                    for o in ORDERS if n < 3 or not quick else ("backwards",):
                        for ids in ("up", "down") if len(us) == 1 and (n < 3 or not quick) else ("up",):
                            for t in ("ASTER", "SYSTUS", "NASTRAN"):
                                if t == "NASTRAN" and (set(us) - {"brick", "corner", "axis", "turn", "bydefault"} or ids == "down"):
                                    continue    # only places: it has no displacement systems, which it announces
                                lab = ">".join(k + ("" if p is None else "(%d)" % (p + 1)) for k, p in ch)
                                out.append(("%s %s %s %s %s" % (t, lab, "+".join(us), o, ids), (t, ch, us, o, ids)))
        return out
    def deck(self, p):
        t, ch, us, o, ids = p
        m = Model(ch, ids)
        for u in us:
            if u != "bydefault":
                USES[u](m)
        if "bydefault" in us:
            USES["bydefault"](m)
        return m.deck(o)
    def describe(self, p):
        return self.deck(p).render()
    def judge(self, p):
        t = p[0]
        d = self.deck(p)
        R = ref.interpret(d)
        if any(c_spc.conflict(a.rows) for a in R.fem.analyses):
            return [], 0
        r = run.translate(d.render("free"), t)
        msg = r.out + r.err
        if not r.ok:
            return ["translation ended with %s" % (r.status,)], 1
        if t == "NASTRAN":
            g = nas.read(r)
            return (["no output"] if g is None else cmp.mesh(R, g.fem, extra_nodes_ok=True)), 1
        out = []
        if t == "ASTER":
            out += cmp.mesh(R, aster.read(r, key=cmp.keyer(R)))
        else:
            for n, g in systus.read_all(r):
                out += cmp.mesh(R, g)
        return out + c_spc.judge(R, r, t), 1

if __name__ == "__main__":
    sys.exit(check.main(Coord))
