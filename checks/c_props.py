"""Properties, materials and sections of every element."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import check, run, ref, aster, systus, cmp, menu, nas

# atoms: one element with its own property each
def shell(b, x, mid):
    b.element("QU4", b.p(), x); b.add("PSHELL", b.pid, mid, 0.125, mid)
def shell_off(b, x, mid):
    b.element("TR3", b.p(), x, tail=(None, 0.0625)); b.add("PSHELL", b.pid, mid, 0.25, mid)
def shell_off2(b, x, mid):
    b.element("QU4", b.p(), x, tail=(None, -0.5)); b.add("PSHELL", b.pid, mid, 0.375, mid)
def shell_bend(b, x, mid):
    b.element("QU4", b.p(), x); b.add("PSHELL", b.pid, mid, 0.0625, mid, None, mid)
def shared(b, x, mid):
    """two elements of one property"""
    p = b.p()
    b.element("QU4", p, x); b.element("TR3", p, x + 4); b.add("PSHELL", p, mid, 0.75, mid)
def mixed_off(b, x, mid):
    """one property, two offsets"""
    p = b.p()
    b.element("QU4", p, x, tail=(None, 0.25)); b.element("QU4", p, x + 4, tail=(None, 0.5)); b.add("PSHELL", p, mid, 0.875, mid)
def seg(b, x, d=(2., 1., .5)):
    return b.node(x, 0., 0.), b.node(x + d[0], d[1], d[2])
def bar(b, x, mid):
    n = seg(b, x); b.add("CBAR", b.eid(), b.p(), n[0], n[1], 0., 0., 1.); b.add("PBAR", b.pid, mid, .5, .25, .125, .0625)
def bar_k(b, x, mid):
    n = seg(b, x); b.add("CBAR", b.eid(), b.p(), n[0], n[1], 0., 1., 0.)
    b.add("PBAR", b.pid, mid, .5, .25, .125, .0625, None, None, 0., 0., 0., 0., 0., 0., 0., 0., .8, .5)
def bar_g0(b, x, mid):
    n = seg(b, x); g = b.node(x + 1, 3., 1.)
    b.add("CBAR", b.eid(), b.p(), n[0], n[1], g); b.add("PBAR", b.pid, mid, .75, .375, .125, .0625)
def bar_z(b, x, mid):
    n = seg(b, x, (0., 0., 2.)); b.add("CBAR", b.eid(), b.p(), n[0], n[1], 1., 1., 0.); b.add("PBAR", b.pid, mid, .25, .5, .75, .375)
def barl_bar(b, x, mid):
    n = seg(b, x); b.add("CBAR", b.eid(), b.p(), n[0], n[1], 0., 0., 1.)
    b.add("PBARL", b.pid, mid, None, "BAR", None, None, None, None, .25, .5)
def barl_rod(b, x, mid):
    n = seg(b, x); b.add("CBAR", b.eid(), b.p(), n[0], n[1], 0., 0., 1.)
    b.add("PBARL", b.pid, mid, None, "ROD", None, None, None, None, .25)
def barl_tube(b, x, mid):
    n = seg(b, x); b.add("CBAR", b.eid(), b.p(), n[0], n[1], 0., 0., 1.)
    b.add("PBARL", b.pid, mid, None, "TUBE", None, None, None, None, .5, .375)
def barl_i(b, x, mid):
    n = seg(b, x); b.add("CBAR", b.eid(), b.p(), n[0], n[1], 0., 0., 1.)
    b.add("PBARL", b.pid, mid, None, "I", None, None, None, None, 1., .5, .5, .0625, .125, .125)
def beam(b, x, mid):
    n = seg(b, x); b.add("CBEAM", b.eid(), b.p(), n[0], n[1], 0., 0., 1.)
    b.add("PBEAM", b.pid, mid, .5, .25, .125, None, .0625)
def beaml_bar(b, x, mid):
    n = seg(b, x); b.add("CBEAM", b.eid(), b.p(), n[0], n[1], 0., 0., 1.)
    b.add("PBEAML", b.pid, mid, None, "BAR", None, None, None, None, .25, .5)
def rod(b, x, mid):
    n = seg(b, x); b.add("CROD", b.eid(), b.p(), n[0], n[1]); b.add("PROD", b.pid, mid, .375, .125)
def conrod(b, x, mid):
    n = seg(b, x); b.add("CONROD", b.eid(), n[0], n[1], mid, .625)
def solid(b, x, mid):
    b.element("HE8", b.p(), x); b.add("PSOLID", b.pid, mid)
def pcomp(b, x, mid):
    b.element("QU4", b.p(), x)
    b.add("PCOMP", b.pid, None, None, None, None, None, None, None, 8, .125, 0., None, 8, .25, 90., None, 8, .125, 45.)
def pcomp_sym(b, x, mid):
    b.element("QU4", b.p(), x)
    b.add("PCOMP", b.pid, None, None, None, None, None, None, "SYM", 8, .125, 30., None, 8, .25, 60.)
def pcomp_def(b, x, mid):
    """defaults of a ply come from the last one that gives them"""
    b.element("QU4", b.p(), x)
    b.add("PCOMP", b.pid, None, None, None, None, None, None, None, 8, .125, 0., None, None, .25, 90., None, 9, None, 45., None,
          None, None, -30., None, 8, .0625, None, None)
def pcomp_z0(b, x, mid):
    b.element("TR3", b.p(), x)
    b.add("PCOMP", b.pid, -.5, None, None, None, None, None, None, 9, .125, 15., None, None, None, 90.)
def pcomp_off(b, x, mid):
    """offset of the laminate and of the elements"""
    p = b.p()
    b.element("QU4", p, x, tail=(None, 0.25)); b.element("QU4", p, x + 4, tail=(None, -0.25)); b.element("TR3", p, x + 8)
    b.add("PCOMP", p, -1., None, None, None, None, None, None, 9, .125, 15., None, None, .5, 90.)
def shell_nsm(b, x, mid):
    b.element("QU4", b.p(), x); b.add("PSHELL", b.pid, mid, 0.125, mid, None, None, None, 5.)
def bar_nsm(b, x, mid):
    n = seg(b, x); b.add("CBAR", b.eid(), b.p(), n[0], n[1], 0., 0., 1.); b.add("PBAR", b.pid, mid, .5, .25, .125, .0625, 3.)
def beam_nsm(b, x, mid):
    n = seg(b, x); b.add("CBEAM", b.eid(), b.p(), n[0], n[1], 0., 0., 1.)
    b.add("PBEAM", b.pid, mid, .75, .25, .125, None, .0625, 4.)
def barl_nsm(b, x, mid):
    n = seg(b, x); b.add("CBAR", b.eid(), b.p(), n[0], n[1], 0., 0., 1.)
    b.add("PBARL", b.pid, mid, None, "BAR", None, None, None, None, .25, .5, 2.)
def tube_nsm(b, x, mid):
    n = seg(b, x); b.add("CBAR", b.eid(), b.p(), n[0], n[1], 0., 0., 1.)
    b.add("PBARL", b.pid, mid, None, "TUBE", None, None, None, None, .5, .375, 2.5)
def rod_nsm(b, x, mid):
    n = seg(b, x); b.add("CROD", b.eid(), b.p(), n[0], n[1]); b.add("PROD", b.pid, mid, .375, .125, None, 6.)
def conrod_nsm(b, x, mid):
    n = seg(b, x); b.add("CONROD", b.eid(), n[0], n[1], mid, .625, None, None, 7.)
def off_nsm(b, x, mid):
    p = b.p()
    b.element("QU4", p, x, tail=(None, 0.25)); b.element("QU4", p, x + 4); b.add("PSHELL", p, mid, 0.875, mid, None, None, None, 8.)

def ihex(b, x, mid):
    p = b.p(); b.element("HE8", p, x, card="CIHEX1"); b.add("PIHEX", p, mid)
def ihex_full(b, x, mid):
    p = b.p(); b.element("HE8", p, x, card="CIHEX1"); b.add("PIHEX", p, mid, None, 3, 5., 30., 60.)
def quadr(b, x, mid):
    p = b.p(); b.element("QU4", p, x, card="CQUADR"); b.add("PSHELL", p, mid, 0.15625, mid)
def triar(b, x, mid):
    p = b.p(); b.element("TR3", p, x, card="CTRIAR"); b.add("PSHELL", p, mid, 0.21875, mid)
def bar_rec(b, x, mid):
    n = seg(b, x); b.add("CBAR", b.eid(), b.p(), n[0], n[1], 0., 1., 0.)
    b.add("PBAR", b.pid, mid, .5, .25, .125, .0625, None, None, .1, .2, .3, .4, -.1, -.2, -.3, -.4, .75, .5)
def beam_rec(b, x, mid):
    n = seg(b, x); b.add("CBEAM", b.eid(), b.p(), n[0], n[1], 0., 0., 1.)
    b.add("PBEAM", b.pid, mid, .5, .25, .125, None, .0625, 3., .1, .2, .3, .4, -.1, -.2, -.3, -.4)
def beam_sta(b, x, mid):
    n = seg(b, x); b.add("CBEAM", b.eid(), b.p(), n[0], n[1], 0., 0., 1.)
    b.add("PBEAM", b.pid, mid, .5, .25, .125, None, .0625, 3., .1, .2, .3, .4, -.1, -.2, -.3, -.4,
          "YES", 1., .5, .25, .125, None, .0625, 3., .1, .2, .3, .4, -.1, -.2, -.3, -.4)
def beam_sta2(b, x, mid):
    n = seg(b, x); b.add("CBEAM", b.eid(), b.p(), n[0], n[1], 0., 0., 1.)
    b.add("PBEAM", b.pid, mid, .5, .25, .125, None, .0625, None, *[None] * 8, "NO", .5, *[None] * 14, "YES", 1., *[None] * 14, 1., 1.)
def lib_(name, *dims):
    def f(b, x, mid):
        n = seg(b, x); c, _, k = name.partition(" ")
        b.add("CBEAM" if "PBEAML" in c else "CBAR", b.eid(), b.p(), n[0], n[1], 0., 0., 1.)
        b.add(c, b.pid, mid, None, k, None, None, None, None, *dims)
    f.__name__ = name.replace("PBEAML ", "beaml_").replace("PBARL ", "barl_").lower() + ("_nsm" if dims and dims[-1] == 9. else "")
    return f
def barl_group(b, x, mid):
    n = seg(b, x); b.add("CBAR", b.eid(), b.p(), n[0], n[1], 0., 0., 1.)
    b.add("PBARL", b.pid, mid, "MSCBML0", "BAR", None, None, None, None, .5, .125)
def rod_c(b, x, mid):
    n = seg(b, x); b.add("CROD", b.eid(), b.p(), n[0], n[1]); b.add("PROD", b.pid, mid, .375, .125, .5, 6.)
def conrod_j(b, x, mid):
    n = seg(b, x); b.add("CONROD", b.eid(), n[0], n[1], mid, .625, .25, .5, 7.)
def solid_opt(b, x, mid):
    b.element("HE8", b.p(), x); b.add("PSOLID", b.pid, mid, 0, "THREE", "GRID", "FULL", "SMECH")
def solid_two(b, x, mid):
    b.element("TE4", b.p(), x); b.add("PSOLID", b.pid, mid, None, 2, None, 1)
def solid_bub(b, x, mid):
    b.element("PE6", b.p(), x); b.add("PSOLID", b.pid, mid, 0, "BUBBLE", "GAUSS", "REDUCED")
def shell_full(b, x, mid):
    b.element("TR3", b.p(), x); b.add("PSHELL", b.pid, mid, .1875, mid, 1., mid, .833333, 2., -.1, .1)
def shell_mid4(b, x, mid):
    b.element("QU4", b.p(), x, tail=(None, .125)); b.add("PSHELL", b.pid, mid, .1875, mid, None, mid, None, None, None, None, mid)
def pcomp_full(b, x, mid):
    b.element("QU4", b.p(), x)
    b.add("PCOMP", b.pid, None, None, 1.e6, "HILL", None, None, None, 8, .125, 0., "YES", 8, .25, 90., "NO", 9, .125, 45., "YES")
def pcomp_one(b, x, mid):
    b.element("TR3", b.p(), x)
    b.add("PCOMP", b.pid, None, None, None, None, None, None, "SYM", 9, .125, 15.)
LATER = (bar_rec, beam_rec, beam_sta, beam_sta2, lib_("PBEAML ROD", .25), lib_("PBEAML TUBE", .5, .375), lib_("PBEAML I", 1., .5, .5, .0625, .125, .125), lib_("PBEAML BAR", .25, .5, 9.),
         lib_("PBEAML ROD", .25, 9.), lib_("PBEAML TUBE", .5, .375, 9.), lib_("PBEAML I", 1., .5, .5, .0625, .125, .125, 9.), lib_("PBARL ROD", .25, 9.), lib_("PBARL I", 1., .5, .5, .0625, .125, .125, 9.),
         barl_group, rod_c, conrod_j, solid_opt, solid_two, solid_bub, shell_full, shell_mid4, pcomp_full, pcomp_one)   # by themselves in the quick tier
ATOMS = {f.__name__: f for f in LATER + (shell, shell_off, shell_off2, shell_bend, shared, mixed_off, bar, bar_k, bar_g0, bar_z, barl_bar, barl_rod,
                                 barl_tube, barl_i, beam, beaml_bar, rod, conrod, solid, pcomp, pcomp_sym, pcomp_def, pcomp_z0,
                                 shell_nsm, bar_nsm, beam_nsm, barl_nsm, tube_nsm, rod_nsm, conrod_nsm, off_nsm, pcomp_off, ihex, ihex_full, quadr, triar)}
ASTER = list(ATOMS)
SYSTUS = [a for a in ATOMS if a not in ("pcomp", "pcomp_full", "pcomp_one", "shell_mid4", "pcomp_sym", "pcomp_def", "pcomp_z0", "shell_off", "shell_off2", "mixed_off", "off_nsm", "pcomp_off")]

def deck(atoms, scheme="seq", mats="one"):
    b = menu.Builder(scheme)
    b.pid = 0
    def p():
        b.pid = {"seq": lambda i: i, "gap": lambda i: 7 * i + 3, "rev": lambda i: 90 - i}[scheme](len([c for c in b.cards if c[0].startswith("P")]) + 1)
        return b.pid
    b.p = p
    used = []
    for i, a in enumerate(atoms):
        mid = 1 if mats in ("one", "weight") else i + 1
        ATOMS[a](b, 14. * i, mid)
        used.append(mid)
    for m in sorted(set(used), reverse=(mats == "rev")):
        e, nu = 2e11 + m * 1e9, .25 + m / 64
        form = (e, None, None) if mats == "bare" else [(e, None, nu), (e, e / 2.5, None), (None, 8e10, nu)][m % 3 if mats == "forms" else 0]
        b.add("MAT1", m, *form, 7800. + m, None, None, .03125 * (m % 3))
    if any(a.startswith("pcomp") for a in atoms):
        b.add("MAT8", 8, 1.5e11, 1.e10, .3, 5.e9, 4.e9, 3.e9, 1600.)
        b.add("MAT8", 9, 1.25e11, 2.e10, .25, 6.e9, 5.e9, 4.e9, 1700.)
    b.add("SPC1", 99, 123456, b.nodes[0][1])
    if mats == "weight":
        b.add("PARAM", "WTMASS", .0025)
    return b.deck(101, ["SPC=99"])

class Props(check.Check):
    pid = "C05"
    def cases(self):
        out = []
        depth = 2 if self.tier == "quick" else 3
        for tgt, menu_ in (("ASTER", ASTER), ("SYSTUS", SYSTUS)):
            for s in self.space.subsets(menu_, depth):
                if not s or self.tier == "quick" and len(s) > 1 and {f.__name__ for f in LATER} & set(s):
                    continue
                for sch in ("seq", "gap", "rev"):
                    for m in ("one", "many", "forms", "bare", "weight"):
                        if m in ("forms", "bare", "weight") and sch != "seq":
                            continue
                        if m in ("bare", "weight") and len(s) > 1 and self.tier == "quick":
                            continue
                        if m == "many" and len(s) == 1:
                            continue
                        out.append(("%s %s %s %s" % (tgt, "+".join(s), sch, m), (s, sch, m, tgt)))
        return out
    def deck(self, p):
        return deck(p[0], p[1], p[2])
    def describe(self, p):
        return deck(p[0], p[1], p[2]).render()
    def judge(self, p):
        s, sch, m, tgt = p
        d = deck(s, sch, m)
        R = ref.interpret(d)
        r = run.translate(d.render("free"), tgt)
        if not r.ok:
            return ["translation ended with %s" % (r.status,)], 1
        if tgt == "ASTER":
            g = aster.read(r, key=cmp.keyer(R))
            return list(g.errors) + cmp.props(R, g, tgt), 1
        out = []
        fs = systus.read_all(r)
        for n, g in fs:
            out += g.errors + cmp.props(R, g, tgt)
        return out or ([] if fs else ["no output"]), 1

if __name__ == "__main__":
    sys.exit(check.main(Props))
