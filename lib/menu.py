"""Deck construction: nodes, elements, properties under a numbering scheme."""
from lib.nas import Deck

class Num:
    """numbering schemes of nodes and elements"""
    def __init__(self, scheme="seq"):
        self.s = scheme
    def __call__(self, i):
        return {"seq": i, "gap": 10 * i + 7, "rev": 500 - i, "big": 90000000 + 37 * i}[self.s]

UNIT = {
    "TE4": [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)],
    "PY5": [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (.5, .5, 1)],
    "PE6": [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (0, 1, 1)],
    "HE8": [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)],
    "TR3": [(0, 0, 0), (1, 0, 0), (0, 1, 0)],
    "QU4": [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0)],
    "SE2": [(0, 0, 0), (1, 0, 0)],
}
QUAD = {"T10": "TE4", "P13": "PY5", "P15": "PE6", "H20": "HE8", "TR6": "TR3", "QU8": "QU4"}
# order of the mid-side nodes of Nastran quadratic elements
MID = {
    "T10": [(0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3)],
    "P13": [(0, 1), (1, 2), (2, 3), (3, 0), (0, 4), (1, 4), (2, 4), (3, 4)],
    "P15": [(0, 1), (1, 2), (2, 0), (0, 3), (1, 4), (2, 5), (3, 4), (4, 5), (5, 3)],
    "H20": [(0, 1), (1, 2), (2, 3), (3, 0), (0, 4), (1, 5), (2, 6), (3, 7), (4, 5), (5, 6), (6, 7), (7, 4)],
    "TR6": [(0, 1), (1, 2), (2, 0)],
    "QU8": [(0, 1), (1, 2), (2, 3), (3, 0)],
}
CARD = {"TE4": "CTETRA", "T10": "CTETRA", "PY5": "CPYRAM", "P13": "CPYRAM", "PE6": "CPENTA", "P15": "CPENTA",
        "HE8": "CHEXA", "H20": "CHEXA", "TR3": "CTRIA3", "TR6": "CTRIA6", "QU4": "CQUAD4", "QU8": "CQUAD8"}
SOLID = ("TE4", "T10", "PY5", "P13", "PE6", "P15", "HE8", "H20")
SHELL = ("TR3", "TR6", "QU4", "QU8")

class Builder:
    def __init__(self, scheme="seq", escheme=None):
        self.nn, self.en = Num(scheme), Num(escheme or scheme)
        self.ni = self.ei = 0
        self.nodes, self.cards = [], []
        self.block = 0
        self.at = {}
    def node(self, x, y, z, cp=None, cd=None, ps=None):
        k = (round(x, 6), round(y, 6), round(z, 6), cp)
        if k in self.at:
            return self.at[k]
        self.ni += 1
        i = self.nn(self.ni)
        self.nodes.append(("GRID", i, cp, float(x), float(y), float(z), cd, ps))
        self.at[k] = i
        return i
    def eid(self):
        self.ei += 1
        return self.en(self.ei)
    def add(self, *card):
        self.cards.append(tuple(card))
    def place(self, kind, ox, oy=0.0, oz=0.0, skew=True):
        """coordinates of an element of a kind in its own place; slightly irregular so that nothing is symmetric"""
        base = UNIT[QUAD.get(kind, kind)]
        pts = [(ox + 2 * x + (0.25 * y if skew else 0), oy + 1.5 * y + (0.125 * z if skew else 0), oz + z) for x, y, z in base]
        if kind in QUAD:
            pts += [tuple((a + b) / 2 for a, b in zip(pts[i], pts[j])) for i, j in MID[kind]]
        return pts
    def element(self, kind, pid, ox, oy=0.0, oz=0.0, card=None, tail=(), skew=True):
        ids = [self.node(*p) for p in self.place(kind, ox, oy, oz, skew)]
        e = self.eid()
        self.add(card or CARD[kind], e, pid, *ids, *tail)
        return e, ids
    def deck(self, sol=101, case=(), extra=()):
        return Deck(sol, case, self.nodes + self.cards + list(extra))
