"""Values of fields: spellings of numbers, lists of identifiers, blank fields."""
import itertools, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import check, run, corpus, fmt, nas, spell
from c_format import outputs, diff, text, plain


# a property of material written as zero or not at all is the same
ZERO = re.compile(r"^\s*(AMOR_HYST|ALPHA|ALPHA_[LTN]|TEMP_DEF_ALPHA)=0,$")
def same(o):
    return {n: "\n".join(l for l in t.splitlines() if not ZERO.match(l)) for n, t in o.items()}

# what a blank field means, from the quick reference guide (position in the card -> value or function of the card)
Z = lambda *p: {i: 0.0 for i in p}
DEFAULT = {
    "GRID": {2: 0, 6: 0}, "CORD2R": {2: 0}, "CORD2C": {2: 0}, "CORD2S": {2: 0},
    "CBAR": {8: "GGG", **Z(11, 12, 13, 14, 15, 16)}, "CBEAM": Z(11, 12, 13, 14, 15, 16),
    "CQUAD4": Z(7, 8), "CTRIA3": Z(6, 7), "CONROD": Z(6, 7, 8), "CONM2": {3: 0, **Z(5, 6, 7, 9, 10, 11, 12, 13, 14)},
    "CELAS2": Z(8, 9), "PELAS": Z(3, 4), "PSHELL": {5: 1.0, 7: 0.833333, 8: 0.0, 9: lambda c: -c[3] / 2, 10: lambda c: c[3] / 2}, "PSOLID": {3: 0, 7: "SMECH"},
    "PBAR": Z(7, 9, 10, 11, 12, 13, 14, 15, 16, 19), "PBARL": {3: "MBSCBML0"}, "PBEAM": Z(6, 7, 8), "PROD": Z(4, 5, 6),
    "PCOMP": {3: 0.0, 6: 0.0, 7: 0.0, 11: 0.0, 12: "NO", 15: 0.0, 16: "NO"}, "PVISC": Z(2, 3), "MAT1": Z(5, 6, 7, 8), "MAT8": Z(8, 9, 10, 11),
    "FORCE": {3: 0, **Z(5, 6, 7)}, "MOMENT": {3: 0, **Z(5, 6, 7)}, "GRAV": {2: 0, **Z(4, 5, 6), 7: 0}, "RFORCE": {3: 0, 8: 1, 9: 0.0, 10: 0},
    "PLOAD4": {4: lambda c: c[3], 5: lambda c: c[3], 6: lambda c: c[3], 9: 0, **Z(10, 11, 12), 13: "SURF", 14: "NORM"}, "SPC": {4: 0.0},
    "EIGRL": {5: 0, 8: "MASS"}, "EIGR": {9: "MASS"}, "EIGB": {9: "MASS"}, "EIGC": {2: "ARNO", 3: "MAX"}, "RLOAD1": {3: 0, 4: 0, 6: 0, 7: "LOAD"}, "RLOAD2": {3: 0, 4: 0, 6: 0, 7: "LOAD"},
    "NLPARM": {2: 10}, "TABLED1": {2: "LINEAR", 3: "LINEAR"}, "FREQ1": {4: 1}, "FREQ4": {2: 0.0, 3: 1e20, 4: 0.1, 5: 3}, "PGAP": {2: 0.0, 3: 0.0}, "MATS1": {5: 1, 6: 1},
    "MATHP": {2: 0.0, 3: 0.0, 4: lambda c: 1000. * (c[2] + c[3]), 5: 0.0, 6: 0.0, 7: 0.0, 8: 0.0, 9: 1, 10: 1}, "BCBODY": {2: "3D", 3: "DEFORM"}, "BCONP": {5: 1.0, 7: 1},
}
# cards where another field decides whether a default exists
def admissible(c, i, full):
    n = c[0]
    if n == "GRID" and i in (2, 6) and any(x[0] == "GRDSET" for x in full):
        return False
    if n in ("CBAR", "CBEAM") and i == 8:
        return n == "CBAR"
    if n == "PLOAD4" and (i in (9, 10, 11, 12) or "THRU" in c):
        # continuation: a direction or none at all
        if i in (9, 10, 11, 12):
            return len(c) > 10 and any(x not in (None, 0.0) for x in c[10:13])
    if n == "PCOMP" and i >= 9:
        return len(c) > 10 and i < len(c) + 3 and (i < 13 or len(c) > 14)
    return True

def blanks(c, full):
    """[(position, explicit value)]"""
    out = []
    for i, v in DEFAULT.get(c[0], {}).items():
        if (i >= len(c) or c[i] is None) and admissible(c, i, full):
            out.append((i, v(c) if callable(v) else v))
    return out

def put(c, i, v):
    c = list(c) + [None] * (i + 1 - len(c))
    c[i] = v
    return tuple(c)

# lists of identifiers: card -> (deck builder taking the list fields)
def list_deck(kind, fields):
    b = corpus.base()
    ids = []
    for k in range(6):
        # six quads in a row
        q = [b.node(10. + 2 * k + x, y, 0.) for x, y in ((0, 0), (2, 0), (2, 1.5), (0, 1.5))]
        e = b.eid(); b.add("CQUAD4", e, 2, *q); ids.append(e)
    first = ids[0] if kind in ("PLOAD2", "BSURF", "SET3E") else b.hn[0]
    fs = [first + f if isinstance(f, int) else f for f in fields]
    # the number after BY is not an identifier
    for i in range(1, len(fs)):
        if fields[i - 1] == "BY":
            fs[i] = fields[i]
    sp1 = ("SPC1", 1, 123456, b.hn[0], b.hn[3])
    F = ("FORCE", 5, b.hn[6], 0, 1., 0., 5., 0.)
    case = ["SPC=1", "LOAD=5"]
    cards = {"SPC1": [("SPC1", 1, 3, *fs), F], "PLOAD2": [sp1, ("PLOAD2", 5, 3., *fs)], "SET1": [sp1, F, ("SET1", 77, *fs)], "SET3": [sp1, F, ("SET3", 78, "GRID", *fs)],
             "SET3E": [sp1, F, ("SET3", 79, "ELEM", *fs)], "BSURF": [sp1, F, ("BSURF", 41, *fs), ("BSURF", 42, b.h), ("BCBODY", 51, "3D", "DEFORM", 41), ("BCBODY", 52, "3D", "DEFORM", 42), ("BCTABLE", 3, None, None, 1, None, None, None, None, None, "SLAVE", 51, None, None, None, None, None, None, None, "MASTERS", 52)]}[kind]
    if kind == "BSURF":
        case = case + ["BCONTACT=3"]
    return b.deck(101, case, cards)

def runs(s):
    out = []
    for x in s:
        if out and out[-1][1] == x - 1:
            out[-1][1] = x
        else:
            out.append([x, x])
    return out

def spellings(s, kind):
    """other ways to write the set s"""
    out = []
    r = runs(s)
    if len(r) == 1 and len(s) > 1:
        out.append(("thru", [s[0], "THRU", s[-1]]))
        out.append(("thrulow", [s[0], "thru", s[-1]]))
    mixed = kind in ("SET1", "SET3", "SET3E", "BSURF")
    if mixed and len(r) > 1 and any(a != b for a, b in r):
        out.append(("mixed", [x for a, b in r for x in ([a] if a == b else [a, "THRU", b])]))
    if mixed and len(s) > 2:
        d = s[1] - s[0]
        if all(y - x == d for x, y in zip(s, s[1:])):
            out.append(("by", [s[0], "THRU", s[-1], "BY", d]))
    if len(s) > 1:
        out.append(("back", list(reversed(s))))
    out.append(("plus", ["+%d" % 0] if False else s))
    return [o for o in out if o[0] != "plus"]

class Number(check.Check):
    pid = "C02"
    rule = ("every real field of every form of every card in every spelling, every integer field with a sign, every blank field that has a documented default with this default written, "
            "alone and all together; every set of six consecutive identifiers in every way of writing the list")
    assumptions = ["defaults transcribed from the MSC Nastran quick reference guide", "the plain spelling is itself judged by C03-C09 against an independent reading"]
    def cases(self):
        out, seen = [], set()
        decks = [("x:" + n, d) for n, d in corpus.extra()] + corpus.selected()
        for n, d in decks:
            tgs = [t for t in ("ASTER", "SYSTUS", "NASTRAN") if self.tier != "quick" or t == ("SYSTUS" if "SYSTUS" in n else "ASTER")]
            for tg in tgs:
                for k in spell.KINDS:
                    out.append(("%s %s all %s" % (tg, n, k), (tg, d, "r", None, k)))
                out.append(("%s %s all +int" % (tg, n), (tg, d, "i", None, None)))
                out.append(("%s %s all default" % (tg, n), (tg, d, "d", None, None)))
            for j, c in enumerate(d.cards):
                s = corpus.sig(c)
                new = s not in seen or self.tier != "quick"
                seen.add(s)
                for tg in tgs:
                    if new:
                        for i in range(1, len(c)):
                            if isinstance(c[i], float):
                                out += [("%s %s card %d field %d %s" % (tg, n, j, i, k), (tg, d, "r", (j, i), k)) for k in (spell.KINDS if self.tier != "quick" else spell.KINDS[(j + i) % 5::5])]
                            elif isinstance(c[i], int) and c[i] >= 0:
                                out.append(("%s %s card %d field %d +int" % (tg, n, j, i), (tg, d, "i", (j, i), None)))
                        for i, v in blanks(c, d.cards):
                            out.append(("%s %s card %d field %d default" % (tg, n, j, i), (tg, d, "d", (j, i), v)))
        for kind in ("SPC1", "PLOAD2", "SET1", "SET3", "SET3E", "BSURF"):
            for m in range(1, 7):
                for s in itertools.combinations(range(6), m):
                    for how, f in spellings(list(s), kind):
                        for tg in ("ASTER", "SYSTUS"):
                            if kind == "BSURF" and tg == "SYSTUS":
                                continue
                            out.append(("%s list %s %s %s" % (tg, kind, "".join(map(str, s)), how), (tg, (kind, list(s)), "l", f, how)))
        self.space.states += len(out); self.space.transitions += len(out)
        return out
    def decks(self, p):
        tg, d, what, at, k = p
        if what == "l":
            return list_deck(*d), list_deck(d[0], at), "free"
        cs = list(d.cards)
        for j, c in enumerate(cs):
            for i in range(1, len(c)):
                if at is None or at == (j, i):
                    if what == "r" and isinstance(c[i], float):
                        c = put(c, i, spell.sp(c[i], k))
                    elif what == "i" and isinstance(c[i], int) and c[i] >= 0:
                        c = put(c, i, "+%d" % c[i])
            if what == "d":
                for i, v in blanks(d.cards[j], d.cards):
                    if at is None or at == (j, i):
                        c = put(c, i, v)
            cs[j] = c
        return d, nas.Deck(d.sol, d.case, cs, d.exec_lines), "free"
    def describe(self, p):
        a, b, f = self.decks(p)
        return text(b, [l for c in b.cards for l in plain(c)])
    memo = {}
    def judge(self, p):
        a, b, f = self.decks(p)
        tg = p[0]
        t = text(a, [l for c in a.cards for l in plain(c)])
        if (tg, t) not in self.memo:
            if len(self.memo) > 50:
                self.memo.clear()
            r = run.translate(t, tg)
            r.files = {"in.dat"}
            self.memo[(tg, t)] = (r.status, same(outputs(r)))
        st, ref = self.memo[(tg, t)]
        r = run.translate(self.describe(p), tg)
        r.files = {"in.dat"}
        out = [] if r.status == st else ["ended with %s instead of %s" % (r.status, st)]
        return (out + diff(ref, same(outputs(r))))[:4], 2

if __name__ == "__main__":
    sys.exit(check.main(Number))
