"""Mesh fidelity."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import check, run, ref, aster, systus, cmp, menu, nas

KINDS = ["TE4", "T10", "PY5", "P13", "PE6", "P15", "HE8", "H20", "TR3", "TR6", "QU4", "QU8", "BAR", "ROD", "IH8", "QUR", "TRR", "PYA", "BEM", "CON"]
CARDS = {"IH8": ("HE8", "CIHEX1"), "QUR": ("QU4", "CQUADR"), "TRR": ("TR3", "CTRIAR"), "PYA": ("PY5", "CPYRA")}   # other spellings

# kinds a target announces as unsupported
SKIP = {"SYSTUS": {"P13"}, "COSMIC": {"H20"}}   # COSMIC: other numbering of the twenty-node brick
ARGS = {"ASTER": ("ASTER", ()), "SYSTUS": ("SYSTUS", ()), "COSMIC": ("NASTRAN", ()),
        "NASTRAN": ("NASTRAN", ("--nastran.OutputDialect", "modern"))}

def deck(kinds, scheme):
    b = menu.Builder(scheme)
    pids = set()
    for i, k in enumerate(kinds):
        ox = 10.0 * i
        if k in CARDS:
            p = {"IH8": 5, "PYA": 1}.get(k, 2)
            b.element(CARDS[k][0], p, ox, card=CARDS[k][1]); pids.add(p)
        elif k in menu.SOLID:
            b.element(k, 1, ox); pids.add(1)
        elif k in menu.SHELL:
            b.element(k, 2, ox); pids.add(2)
        else:
            p, q = b.node(ox, 0., 0.), b.node(ox + 2, 1., 0.)
            if k == "BAR":
                b.add("CBAR", b.eid(), 3, p, q, 0., 0., 1.)
            elif k == "BEM":
                b.add("CBEAM", b.eid(), 6, p, q, 0., 0., 1.)
            elif k == "CON":
                b.add("CONROD", b.eid(), p, q, 1, 0.375)
                continue
            else:
                b.add("CROD", b.eid(), 4, p, q)
            pids.add({"BAR": 3, "BEM": 6}.get(k, 4))
    if 1 in pids: b.add("PSOLID", 1, 1)
    if 2 in pids: b.add("PSHELL", 2, 1, 0.125)
    if 3 in pids: b.add("PBAR", 3, 1, 0.5, 0.25, 0.125, 0.0625)
    if 5 in pids: b.add("PIHEX", 5, 1)
    if 6 in pids: b.add("PBEAM", 6, 1, 0.5, 0.25, 0.125, None, 0.0625)
    if 4 in pids: b.add("PROD", 4, 1, 0.5)
    b.add("MAT1", 1, 2e11, None, 0.3, 7800.)
    b.add("SPC1", 1, 123456, b.nodes[0][1])
    return b.deck(101, ["SPC=1"])

class Mesh(check.Check):
    pid = "C03"
    def cases(self):
        depth = 2 if self.tier == "quick" else 3
        sets = [s for s in self.space.subsets(KINDS, depth) if s]
        out = []
        for s in sets:
            for sch in ("seq", "gap", "rev"):
                for t in ARGS:
                    if t in SKIP and set(s) & SKIP[t]:
                        continue
                    out.append(("%s %s %s" % ("+".join(s), sch, t), (s, sch, t)))
        return out
    def deck(self, p):
        return deck(p[0], p[1])
    def describe(self, p):
        return deck(p[0], p[1]).render()
    def judge(self, p):
        s, sch, tgt = p
        d = deck(s, sch)
        R = ref.interpret(d)
        r = run.translate(d.render("free"), *ARGS[tgt])
        if not r.ok:
            return ["translation ended with %s" % (r.status,)], 1
        if tgt == "ASTER":
            g = aster.read(r, key=cmp.keyer(R))
            return list(g.errors) + cmp.mesh(R, g) + cmp.groups(R, g), 1
        if ARGS[tgt][0] == "NASTRAN":
            g = nas.read(r)
            return (["no output"] if g is None else cmp.mesh(R, g.fem) + cmp.ids(R, g.fem, 1e-4)), 1
        out = []
        fs = systus.read_all(r)
        for n, g in fs:
            out += g.errors + cmp.mesh(R, g) + cmp.ids(R, g) + cmp.groups(R, g)
        return out or ([] if fs else ["no output"]), 1

if __name__ == "__main__":
    sys.exit(check.main(Mesh))
