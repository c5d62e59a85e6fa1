"""The same deck with its bulk cards in every order of the kinds."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import check, run, nas
from checks import c_loads, c_spc, c_rigid, c_discrete, c_mesh, c_props, c_coord, c_case, c_freq

MODS = (("mesh", c_mesh), ("props", c_props), ("coord", c_coord), ("loads", c_loads), ("spc", c_spc), ("rigid", c_rigid), ("discrete", c_discrete), ("case", c_case), ("freq", c_freq))
_order = None
_render = nas.Deck.render

def kind(c):
    return str(c[0]).rstrip("*")

def arrange(cards, order):
    """cards: list of cards; order: ("rev",) | ("sort",) | ("first", kind) | ("last", kind) | ("swap", kind, kind)"""
    if order[0] == "rev":
        return cards[::-1]
    if order[0] == "sort":
        return sorted(cards, key=kind)
    if order[0] == "tros":
        return sorted(cards, key=kind, reverse=True)
    if order[0] == "deal": # interleaved: one of each kind in turn
        ks, out = [], []
        for c in cards:
            if kind(c) not in ks:
                ks.append(kind(c))
        by = {k: [c for c in cards if kind(c) == k] for k in ks}
        while any(by.values()):
            out += [by[k].pop(0) for k in ks if by[k]]
        return out
    k = order[1]
    a, b = [c for c in cards if kind(c) == k], [c for c in cards if kind(c) != k]
    if order[0] == "pair": # k right before l, both first
        c1, rest = [c for c in b if kind(c) == order[2]], [c for c in b if kind(c) != order[2]]
        return a + c1 + rest
    return a + b if order[0] == "first" else b + a

def render(self, *a, **kw):
    if _order is None:
        return _render(self, *a, **kw)
    old = self.cards
    self.cards = arrange(list(old), _order)
    try:
        return _render(self, *a, **kw)
    finally:
        self.cards = old
nas.Deck.render = render

def classes():
    for n, mod in MODS:
        for v in vars(mod).values():
            if isinstance(v, type) and issubclass(v, check.Check) and v is not check.Check and v.__module__ == mod.__name__:
                yield n, v()

def simple(n, lab, quick):
    """states of depth at most one of the menu (quick), two otherwise"""
    if n == "case":
        return lab.count(":") and len(re.search(r"SPC:(\S*)", lab).group(1)) == 2 if "SPC:" in lab else "numbers" in lab
    if n == "freq" and re.search("freq=(freq.freq1|two_|freq1.freq)", lab):
        return False # only the first is used, which is announced
    if n == "freq":
        return lab.count("=") <= (1 if quick else 2)
    if n == "coord":
        return lab.count(">") <= (1 if quick else 2) and "+" not in lab and "backwards" in lab
    return lab.count("+") <= (0 if quick else 1)

class Order(check.Check):
    pid = "C15"
    rule = ("every model of depth one of the menus of C03-C09, C12 and C13, with its bulk cards reversed, sorted by name upwards and downwards, dealt one kind at a time, and with every kind of card first and last"
            " (quick: the latter once for every set of kinds of cards; thorough: also every ordered pair of kinds first, once for every set of kinds, and depth two reversed and, once for every set of kinds, in every order)")
    def cases(self):
        quick = self.tier == "quick"
        out, seen, shapes = [], set(), set()
        for n, c in classes():
            c.tier = "quick"
            for lab, p in c.cases():
                if lab.startswith("NASTRAN") or " NASTRAN" in lab or (n, lab) in seen or not simple(n, lab, quick):
                    continue
                seen.add((n, lab))
                ks = []
                d = self.deck(c, p)
                for x in d.cards:
                    if kind(x) not in ks:
                        ks.append(kind(x))
                orders = [("rev",), ("sort",), ("tros",), ("deal",)]
                shape = (n, type(c).__name__, re.match(r"\S*", lab).group(0), tuple(sorted(ks)))
                new = shape not in shapes
                shapes.add(shape)
                ends = [(w, k) for k in ks for w in ("first", "last")]
                if simple(n, lab, True): # depth one
                    if new or not quick:
                        orders += ends
                    elif n in ("case", "discrete", "coord", "freq"):
                        orders = orders[:1]
                    if new and not quick:
                        orders += [("pair", k, l) for k in ks for l in ks if k != l]
                elif new:
                    orders += ends
                else:
                    orders = orders[:1]
                done = {repr(list(d.cards))}
                self.space.states += 1
                for o in orders:
                    t = repr(arrange(list(d.cards), o))
                    self.space.transitions += 1
                    if t in done:
                        continue
                    done.add(t)
                    self.space.states += 1
                    out.append(("%s %s order %s" % (n, lab, " ".join(o)), (c, p, o, lab)))
        return out
    def deck(self, c, p):
        if hasattr(c, "deck"):
            return c.deck(p)
        return sys.modules[type(c).__module__].deck(*p[:-1])
    def describe(self, p):
        global _order
        _order = p[2]
        try:
            return p[0].describe(p[1])
        finally:
            _order = None
    def judge(self, p):
        global _order
        _order = p[2]
        try:
            r = p[0].judge(p[1])
            # what is known to fail in the ordinary order fails in every other
            if r[0] and type(p[0]).pid:
                kn = check.known_findings(p[0].pid)
                r = ([x for x in r[0] if not any(cr.search(p[3]) and dr.search(x) for cr, dr, _ in kn)],) + tuple(r[1:])
        finally:
            _order = None
        return r

if __name__ == "__main__":
    sys.exit(check.main(Order))
