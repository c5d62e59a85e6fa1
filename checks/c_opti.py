"""Does an OptiStruct deck mean what its cards say?"""
import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import check, run, nas, ref, cmp, aster, systus, corpus, fmt, menu
from lib.comm import seq
from checks import c_format, c_case

def translate(text, target, dialect="OPTISTRUCT", extra_files=None):
    files = {"in.dat": text}
    files.update(extra_files or {})
    return run.run(files, ["in.dat", dialect, target])

# ---- kinds of analysis of subcases
LABEL = {101: ("STATICS", "STATIC"), 103: ("MODES",), 105: ("BUCK", "BUCKL"), 108: ("DFREQ", "SEDFREQ"), 111: ("MFREQ", "SEMFREQ")}
# what needs no label: (solution, selections it has in any case, those it must not have)
def deduced(sol, sel):
    return sol == 101 and "METHOD" not in sel or sol == 103 or sol == 111 and "SDAMPING" in sel

# ---- cards which say nothing about the analysis
IGNORED = {
    "DESVAR": [("DESVAR", 1, "t1", 0.5, 0.1, 1.0, 0.5), ("DESVAR", 2, "SPC1", 1., 0., 10.)],
    "DCOMP": [("DCOMP", 5, "PLY", 1, None, None, None, None, None, "MANUF", 3), ("DCOMP", 6, "STACK", 1, 2, 3, 4, 5, 6, 7, 8, 9, 10)],
    "DTPL": [("DTPL", 1, "PSHELL", 2, None, None, None, None, None, "MEMBSIZ", 0.5), ("DTPL", 3, "PSOLID", 1)],
    "DTPG": [("DTPG", 1, "PSHELL", 2, None, None, None, None, None, 20., 60., "YES", 5., "NORM", None, None, "NONE")],
    "DSIZE": [("DSIZE", 1, "PSHELL", 2, None, None, None, None, None, "THICK", 0.1, 5.)],
    "DSHAPE": [("DSHAPE", 1, None, None, None, None, None, None, None, "GRID", 1, 2, 3)],
    "DSHUFFLE": [("DSHUFFLE", 1, "STACK", 2)],
    "DVGRID": [("DVGRID", 1, 1, 0, 1., 0., 0., 1.)],
    "DREPORT": [("DREPORT", 1)], "DREPADD": [("DREPADD", 1, 2, 3)],
    "ELEMQUAL": [("ELEMQUAL", 1, "CQUAD4", None, None, None, None, None, None, "ASPECT", 5., 10.)],
    "XHIST": [("XHIST", 1, "NODE", 2)],
    "PARAM": [("PARAM", "CHECKEL", "NO"), ("PARAM", "EFFMAS", "YES")],
}

# ---- sets of the bulk section
N8 = (None,) * 5
def grid_sets(b):
    n = sorted(x[1] for x in b.nodes)
    return {
        "two": (n[1], n[4]), "nine": tuple(n[:9]), "eight": tuple(n[:8]), "back": tuple(reversed(n[2:7])), "one": (n[3],),
        "thru": ("t", n[2], n[6]), "thru+": ("t", n[0], n[3], n[7]), "+thru": ("t2", n[9], n[2], n[5]), "thru,thru": ("tt", n[0], n[2], n[5], n[7]), "seventeen": tuple(n[:17]),
    }
def spelled(s):
    """fields of the list, and what they mean"""
    if s[0] == "t":
        return [s[1], "THRU", s[2]] + list(s[3:]), lambda x: s[1] <= x <= s[2] or x in s[3:]
    if s[0] == "t2":
        return [s[1], s[2], "THRU", s[3]], lambda x: s[2] <= x <= s[3] or x == s[1]
    if s[0] == "tt":
        return [s[1], "THRU", s[2], s[3], "THRU", s[4]], lambda x: s[1] <= x <= s[2] or s[3] <= x <= s[4]
    return list(s), lambda x: x in s

# ---- surfaces: (element, face) -> fields
SURF_KINDS = ("HE8", "PE6", "TE4", "PY5", "QU4", "TR3", "H20", "P15", "T10", "QU8", "TR6")
def faces(kind):
    """ways to give each face: local corners of the face, fields (local numbers)"""
    from lib.sem import TOPO
    base = menu.QUAD.get(kind, kind)
    out = []
    if base in ("QU4", "TR3"):
        return [(TOPO[base]["faces"][0], (None, None))]
    nc = len(menu.UNIT[base])
    for f in TOPO[base]["faces"]:
        if len(f) == 4:
            out += [(f, (f[0], f[2])), (f, (f[3], f[1])), (f, (f[2], f[0]))]
        elif base == "TE4":
            o = [i for i in range(4) if i not in f][0]
            out += [(f, (i, o)) for i in f]
        elif base == "PE6":
            out += [(f, (i, None)) for i in f]
    return out

class Opti(check.Check):
    pid = "C20"
    rule = ("every deck of the corpus read in both dialects; every sequence of kinds of analyses up to three subcases, given by ANALYSIS or by the selections; every ignored card in every layout and place; every way to write a set, and every pair; every face of every kind of element, in every way to tell it, as master and as slave of a contact")
    assumptions = ["the cards common to both dialects are judged by C03-C13 with the Nastran dialect"]
    def cases(self):
        out = []
        quick = self.tier == "quick"
        # the same deck
        decks = [("x:" + n, d) for n, d in corpus.extra()] + corpus.selected()
        for i, (n, d) in enumerate(decks):
            for tg in ("ASTER", "SYSTUS", "NASTRAN"):
                self.space.product([0])
                out.append(("same %s %s#%d" % (tg, n, i), ("same", tg, d)))
        # kinds of analyses
        kinds = [(s, l) for s in LABEL for l in (None,) + LABEL[s]]
        for n in (1, 2) if quick else (1, 2, 3):
            for ks in itertools.product(kinds, repeat=n):
                if quick and n == 2 and any(l == LABEL[s][1:] for s, l in ks):
                    continue
                if any(k[0] == 105 and not any(q[0] == 101 for q in ks[:i]) for i, k in enumerate(ks)):
                    continue
                for damp in ((0, 1) if any(s == 111 for s, l in ks) else (0,)):
                    if any(l is None and not deduced(s, ("SDAMPING",) * damp) for s, l in ks):
                        continue
                    for where in ("in", "above"):
                        if where == "above" and (n == 1 or any(k[0] != ks[0][0] for k in ks)) :
                            continue
                        for dia in ("OPTISTRUCT", "SOL 200") if n < 3 else ("OPTISTRUCT",):
                            if dia == "SOL 200" and any(l is None for s, l in ks):
                                continue
                            for ids in ((1, 2, 3), (10, 25, 30)) if n > 1 else ((1,), (7,)):
                                self.space.product([0])
                                out.append(("kind %s %s%s %s %s" % (dia, "+".join("%d%s" % (s, "" if l is None else "=" + l) for s, l in ks), " damped" if damp else "", where, ids[0]), ("kind", "ASTER", ks, damp, where, dia, ids[:n])))
        # sets
        b = self.solids()
        for tg in ("ASTER", "SYSTUS"):
            for typ in ("GRID", "ELEM") if tg == "ASTER" else ("GRID",):
                for nm in grid_sets(b):
                    for st in ("free", "small", "large", "small-0"):
                        for pos in ("first", "last"):
                            self.space.product([0])
                            out.append(("set %s %s %s %s %s" % (tg, typ, nm, st, pos), ("set", tg, [(typ, nm)], st, pos)))
                for x, y in itertools.product(grid_sets(b), repeat=2):
                    for ty in ("GRID", "ELEM") if tg == "ASTER" else ("GRID",):
                        self.space.product([0])
                        out.append(("set %s %s %s, %s %s" % (tg, typ, x, ty, y), ("set", tg, [(typ, x), (ty, y)], "free", "first")))
        # contacts of surfaces
        ways = [(k, i) for k in SURF_KINDS for i in range(len(faces(k)))]
        one = [w for w in ways if w[1] == 0]
        for tg in ("ASTER", "SYSTUS"):
            pairs = [((a,), (b,)) for a in ways for b in one if a[0] != b[0]] + [((a,), (b,)) for a in one for b in ways if b[1] and a[0] != b[0]]
            if not quick:
                pairs = [((a,), (b,)) for a in ways for b in ways if a[0] != b[0]]
            pairs += [((a, b), (c,)) for a in one for b in one for c in one if a[0] < b[0] and c[0] not in (a[0], b[0])] + [((c,), (a, b)) for a in one for b in one for c in one if a[0] < b[0] and c[0] not in (a[0], b[0])]
            for i, (ma, sl) in enumerate(pairs):
                if quick and len(ma) + len(sl) > 2 and i % 4:
                    continue
                if tg == "SYSTUS" and any(k in menu.QUAD for k, i in ma + sl):
                    continue
                for st, order in ((("free", 0), ("small", 1)) if not quick else ((("free", 0), ("small", 1))[(i // 4) % 2],)):
                    self.space.product([0])
                    out.append(("surf %s %s on %s %s %d" % (tg, "+".join("%s.%d" % x for x in sl), "+".join("%s.%d" % x for x in ma), st, order), ("surf", tg, ma, sl, st, order)))
        # ignored cards
        for nm in IGNORED:
            for j, c in enumerate(IGNORED[nm]):
                for st in fmt.STYLES:
                    if not c_format.fits(c, st):
                        continue
                    for pos in ("first", "middle", "last") if not quick else (("first", "middle", "last")[(j + len(st)) % 3],):
                        self.space.product([0])
                        out.append(("ignored %s%d %s %s" % (nm, j, st, pos), ("ign", "ASTER", c, st, pos)))
        return out
    def describe(self, p):
        return "\n---\n".join(self.texts(p))
    def texts(self, p):
        if p[0] == "same":
            return [p[2].render()]
        if p[0] == "kind":
            return [self.kind_text(p)]
        if p[0] == "ign":
            return list(self.ign_text(p))
        return [getattr(self, p[0] + "_text")(p)[0]]
    def judge(self, p):
        return getattr(self, "j_" + p[0])(p)
    # ---- the two dialects
    def j_same(self, p):
        k, tg, d = p
        t = d.render()
        a, b = translate(t, tg, "NASTRAN"), translate(t, tg)
        if a.status != b.status:
            return ["ended with %s, in the Nastran dialect with %s" % (b.status, a.status)], 2
        if not a.ok:
            return [], 2
        a.files = b.files = {"in.dat"}
        return c_format.diff(c_format.outputs(a), c_format.outputs(b)), 2
    # ---- kinds of analyses
    def kind_text(self, p):
        k, tg, ks, damp, where, dia, ids = p
        case = []
        if where == "above":
            s, l = ks[0]
            case += (["ANALYSIS = " + l] if l else []) + self.select(s, damp, 0)
        for i, (s, l) in enumerate(ks):
            case.append("SUBCASE %d" % ids[i])
            if where == "in":
                case += (["ANALYSIS = " + l] if l else []) + self.select(s, damp, i) + (["STATSUB = %d" % ids[[k[0] for k in ks].index(101)]] if s == 105 else [])
            elif i:
                case.append("SPC = 20")
        cards = list(c_case.CARDS)
        for b in c_case.BULK.values():
            for c in b:
                cards += c
        t = nas.Deck(200, case, cards + c_case.TABLED).render()
        return t if dia == "SOL 200" else "\n".join(l for l in t.splitlines() if l not in ("SOL 200", "CEND")) + "\n"
    def select(self, s, damp, i):
        j = i % 2
        return ["%s = %d" % (k, c_case.IDS[k][j]) for k in c_case.KEYS[s] if k != "MPC" and not (s == 105 and k == "LOAD") and (k != "SDAMPING" or damp)]
    def j_kind(self, p):
        k, tg, ks, damp, where, dia, ids = p
        t = self.kind_text(p)
        case = []
        exp = []
        for i, (s, l) in enumerate(ks):
            e = {k: None for k in c_case.IDS}
            for x in self.select(s, damp, i if where == "in" else 0):
                a, b = x.split(" = ")
                e[a] = int(b)
            if where == "above" and i:
                e["SPC"] = 20
            exp.append(e)
            case += ["SUBCASE %d" % ids[i]] + ["%s = %d" % (a, b) for a, b in e.items() if b is not None]
        R = ref.interpret(nas.Deck(101, case, nas_cards(t)))
        r = translate(t, tg, "NASTRAN" if dia == "SOL 200" else dia)
        if not r.ok:
            return ["translation ended with %s" % (r.status,)], 1
        return sorted(set(c_case.j_aster(R, r, [s for s, l in ks], exp, ids))), 1
    # ---- ignored cards
    def ign_text(self, p):
        k, tg, c, st, pos = p
        d = corpus.extra()[0][1]
        n = len(d.cards)
        at = {"first": 0, "middle": n // 2, "last": n}[pos]
        L = [fmt.free(x, pad=True) for x in d.cards]
        full = L[:at] + [fmt.lines(c, st)] + L[at:]
        return [c_format.text(d, [l for x in full for l in x]), c_format.text(d, [l for x in L for l in x])]
    def j_ign(self, p):
        a, b = self.ign_text(p)
        x, y = translate(a, p[1]), translate(b, p[1])
        if not y.ok or x.status != y.status:
            return ["ended with %s, without the card with %s" % (x.status, y.status)], 2
        x.files = y.files = {"in.dat"}
        return c_format.diff(c_format.outputs(y), c_format.outputs(x)), 2

    # ---- sets
    def solids(self):
        b = menu.Builder("seq")
        for i, k in enumerate(("HE8", "TE4", "QU4", "TR3", "PE6", "HE8", "HE8", "PE6", "TE4", "QU4", "QU4", "QU4", "TR3", "TR3", "HE8", "HE8", "TE4", "QU4")):
            b.element(k, 2 if k in ("QU4", "TR3") else 1, 4. * i)
        b.add("PSOLID", 1, 1); b.add("PSHELL", 2, 1, 0.1, 1, None, 1)
        b.add("MAT1", 1, 2e11, None, 0.3, 7800.)
        return b
    def set_text(self, p):
        k, tg, sets, st, pos = p
        b = self.solids()
        els = sorted(c[1] for c in b.cards if c[0].startswith("C"))
        cards, want = [], {}
        for i, (typ, nm) in enumerate(sets):
            s = grid_sets(b)[nm]
            if typ == "ELEM":
                n = sorted(x[1] for x in b.nodes)
                s = tuple(x if isinstance(x, str) else els[n.index(x)] for x in s)
            f, has = spelled(s)
            cards.append(("SET", 7 + i, typ, "LIST") + N8 + tuple(f))
            want["SET_%d" % (7 + i)] = (typ, {x for x in (els if typ == "ELEM" else [q[1] for q in b.nodes]) if has(x)})
        d = b.deck(101, ["SPC = 1", "LOAD = 2"], [("SPC1", 1, 123456, b.nodes[0][1]), ("FORCE", 2, b.nodes[5][1], 0, 1., 0., 0., 1.)])
        L = [l for x in d.cards for l in fmt.free(x, pad=True)]
        S = [l for x in cards for l in (fmt.free(x, pad=True) if st == "free" else fmt.lines(x, st))]
        return c_format.text(d, S + L if pos == "first" else L + S), d, want
    def j_set(self, p):
        t, d, want = self.set_text(p)
        R = ref.interpret(d)
        r = translate(t, p[1])
        if not r.ok:
            return ["translation ended with %s" % (r.status,)], 1
        if p[1] == "ASTER":
            gs = [aster.read(r, key=cmp.keyer(R))]
        else:
            gs = [g for n, g in systus.read_all(r)]
        out = [] if gs else ["no output"]
        for g in gs:
            out += list(g.errors) + cmp.mesh(R, g)
            for nm, (typ, ids) in want.items():
                if p[1] == "ASTER":
                    got = g.nodegroup.get(nm) if typ == "GRID" else {frozenset(c.nodes) for c in g.cellgroup.get(nm, ())}
                    exp = ids if typ == "GRID" else {frozenset(c.nodes) for c in R.fem.cells if c.id in ids}
                else:
                    q = g.group.get(nm)
                    got = None if q is None else set(q[1]) if q[0] == (1 if typ == "GRID" else 2) else "of another type"
                    exp = ids
                if got != exp:
                    out.append("%s: %s, expected %s" % (nm, got, exp))
        return sorted(set(out)), 1
    # ---- surfaces
    def surf_text(self, p):
        k, tg, ma, sl, st, order = p
        b = menu.Builder("gap")
        at = {}
        for i, q in enumerate(SURF_KINDS):
            if any(q == x[0] for x in ma + sl) or q == "HE8":
                at[q] = b.element(q, 2 if menu.QUAD.get(q, q) in ("QU4", "TR3") else 1, 4. * i)
        b.add("PSOLID", 1, 1); b.add("PSHELL", 2, 1, 0.1, 1, None, 1)
        b.add("MAT1", 1, 2e11, None, 0.3, 7800.)
        h = at["HE8"][1]
        d = b.deck(101, ["SPC = 1", "LOAD = 2"], [("SPC1", 1, 123, *h[:4]), ("FORCE", 2, h[5], 0, 1., 0., 0., 1.)])
        cards, exp = [], []
        for sid, w in ((3, ma), (4, sl)):
            c = ["SURF", sid, "ELFACE"] + [None] * 6
            x = []
            for q, i in w:
                f, (g1, g2) = faces(q)[i]
                e, n = at[q]
                c += [e, None if g1 is None else n[g1], None if g2 is None else n[g2], None, None, None, None, None]
                x.append((e, frozenset(n[j] for j in f)))
            while c[-1] is None:
                c.pop()
            cards.append(tuple(c)); exp.append(x)
        cards.append(("CONTACT", 9, "SLIDE", 4, 3))
        if order:
            cards.reverse()
        L = [l for x in d.cards for l in fmt.free(x, pad=True)]
        S = [l for x in cards for l in (fmt.free(x, pad=True) if st == "free" else fmt.lines(x, st))]
        return c_format.text(d, S + L if order else L + S), d, exp[0], exp[1], b
    def j_surf(self, p):
        t, d, ma, sl, b = self.surf_text(p)
        R = ref.interpret(d)
        r = translate(t, p[1])
        if not r.ok:
            return ["translation ended with %s" % (r.status,)], 1
        return sorted(set((self.surf_aster if p[1] == "ASTER" else self.surf_systus)(R, r, ma, sl))), 1
    def surf_aster(self, R, r, ma, sl):
        from lib.fem import sides
        g = aster.read(r, key=cmp.keyer(R))
        out = list(g.errors)
        lm = [(n, x) for n, c, a in g.comm.calls if c == "AFFE_CHAR_MECA" for x in seq(a.get("LIAISON_MAIL"))]
        if len(lm) != 1:
            return out + ["%d contacts, expected 1" % len(lm)]
        nm, x = lm[0]
        by = {c.id: frozenset(c.nodes) for c in R.fem.cells}
        got = sorted(sorted(c.nodes) for q in seq(x["GROUP_MA_MAIT"]) for c in g.cellgroup.get(q, ()))
        want = sorted(sorted(by[e]) for e, f in ma)
        if got != want:
            out.append("master elements %s, expected %s" % (got, want))
        cs = [c for q in seq(x["GROUP_MA_ESCL"]) for c in g.cellgroup.get(q, ())]
        # the side of a shell is a skin on it, of no stiffness
        shells = {by[e] for e, f in ma + sl}
        g.cells = [c for c in g.cells if "3D" not in seq(c.model or ()) or menu.QUAD.get(c.kind, c.kind) not in ("QU4", "TR3") or frozenset(c.nodes) not in shells]
        out += cmp.mesh(R, g)
        corner = lambda c: sorted(c.nodes[:3 if c.kind in ("TR3", "TR6") else 4])
        got, want = sorted(corner(c) for c in cs), sorted(sorted(f) for e, f in sl)
        if got != want:
            out.append("slave faces %s, expected %s" % (got, want))
        for c in cs:
            out += sides(c.kind, c.nodes, g.nodes)
            if any(not set(c.nodes) <= by[e] for e, f in sl if f == frozenset(corner(c))):
                out.append("slave face of the nodes %s" % c.nodes)
        for n, c, a in g.solves:
            if nm not in [aster.chname(q["CHARGE"]) for q in seq(a.get("EXCIT"))]:
                out.append("the contact %s is not in force" % nm)
        if x.get("TYPE_RACCORD") != "MASSIF":
            out.append("kind of contact %s" % x.get("TYPE_RACCORD"))
        return out
    def surf_systus(self, R, r, ma, sl):
        fs = systus.read_all(r)
        out = [] if fs else ["no output"]
        import numpy as np
        known = {frozenset(c.nodes) for c in R.fem.cells}
        X = {n: np.array(v) for n, v in R.fem.nodes.items()}
        for n, g in fs:
            out += list(g.errors)
            got = sorted((tuple(sorted(c.nodes[:-1])), c.nodes[-1]) for c in g.cells if frozenset(c.nodes) not in known and c.kind in ("PY5", "TE4"))
            want = set()
            dist = lambda f, s: float(np.linalg.norm(np.maximum(0, np.maximum(np.min([X[i] for i in f], 0) - X[s], X[s] - np.max([X[i] for i in f], 0)))))
            for e, f in sl:
                for s in f:
                    m = min((dist(q, s), tuple(sorted(q))) for _, q in ma)
                    want.add((m[1], s))
            if sorted(set(got)) != sorted(want) or len(set(got)) != len(got) and len(sl) == 1:
                out.append("contact elements %s, expected %s" % (got, sorted(want)))
        return out

def nas_cards(t):
    cards = list(c_case.CARDS)
    for b in c_case.BULK.values():
        for c in b:
            cards += c
    return cards + c_case.TABLED

if __name__ == "__main__":
    sys.exit(check.main(Opti))
