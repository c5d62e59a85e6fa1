"""The same deck in every admissible layout."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import check, run, corpus, fmt, nas

def outputs(r):
    """what a translation leaves, without comments"""
    out = {}
    for root, dirs, files in os.walk(r.dir):
        for n in files:
            p = os.path.relpath(os.path.join(root, n), r.dir)
            if n in ("stdout.log", "stderr.log") or n.endswith(".med") or p in r.files:
                continue
            t = r.read(p)
            out[p] = "\n".join(l for l in t.splitlines() if not l.lstrip().startswith("#"))
    return out

def diff(a, b):
    out = []
    for n in sorted(set(a) | set(b)):
        if n not in a or n not in b:
            out.append("file %s only %s" % (n, "in the reference layout" if n in a else "in this layout"))
        elif a[n] != b[n]:
            x, y = a[n].splitlines(), b[n].splitlines()
            i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            out.append("%s line %d: %r instead of %r" % (n, i + 1, (y[i] if i < len(y) else "end")[:100], (x[i] if i < len(x) else "end")[:100]))
    return out

HEAD = lambda d: list(d.exec_lines) + ["SOL %s" % d.sol, "CEND"]
def text(d, bulk, case=None, eol="\n"):
    return eol.join(HEAD(d) + (d.case if case is None else case) + ["BEGIN BULK"] + bulk + ["ENDDATA"]) + eol

def flat(cards, style):
    return [l for c in cards for l in fmt.lines(c, style)]

def fits(c, style):
    try:
        fmt.lines(c, style)
        return True
    except ValueError:
        return False

BASE = "free-pad"
def plain(c):
    return fmt.free(c)

# ---- whole-deck layouts
def sub(fn):
    return lambda d: fn(d)
def every(style):
    def f(d):
        return text(d, [l for c in d.cards for l in (fmt.lines(c, style) if fits(c, style) else plain(c))]), {}
    return f
def alternate(styles, off):
    def f(d):
        out = []
        for i, c in enumerate(d.cards):
            s = styles[(i + off) % len(styles)]
            out += fmt.lines(c, s) if fits(c, s) else plain(c)
        return text(d, out), {}
    return f
def between(line, style="free-pad"):
    def f(d):
        out = [line]
        for c in d.cards:
            out += (fmt.lines(c, style) if fits(c, style) else plain(c)) + [line]
        return text(d, out), {}
    return f
def eol(style):
    def f(d):
        return text(d, [l for c in d.cards for l in (fmt.lines(c, style) if fits(c, style) else plain(c))], eol="\r\n"), {}
    return f
def crlf_blank(d):
    out = []
    for c in d.cards:
        out += plain(c) + [""]
    return text(d, out, eol="\r\n"), {}
def include(at, quote, deep=False):
    def f(d):
        ls = [plain(c) for c in d.cards]
        k = {"first": 1, "half": len(ls) // 2, "last": len(ls) - 1}[at]
        a, b = sum(ls[:k], []), sum(ls[k:], [])
        q = {"'": "INCLUDE 'part.inc'", "0": "INCLUDE part.inc", "low": "include 'part.inc'"}[quote]
        if deep:
            h = len(b) // 2
            b2 = [plain(c) for c in d.cards[k:]]
            h = len(b2) // 2
            return text(d, a + [q]), {"part.inc": "\n".join(sum(b2[:h], []) + ["INCLUDE 'part2.inc'"]) + "\n", "part2.inc": "\n".join(sum(b2[h:], [])) + "\n"}
        return text(d, a + [q]), {"part.inc": "\n".join(b) + "\n"}
    return f
def include_mid(d):
    ls = [plain(c) for c in d.cards]
    k, m = len(ls) // 3, 2 * len(ls) // 3
    return text(d, sum(ls[:k], []) + ["INCLUDE 'part.inc'"] + sum(ls[m:], [])), {"part.inc": "\n".join(sum(ls[k:m], [])) + "\n"}
def include_noeol(d):
    ls = [plain(c) for c in d.cards]
    k, m = len(ls) // 3, 2 * len(ls) // 3
    return text(d, sum(ls[:k], []) + ["INCLUDE 'part.inc'"] + sum(ls[m:], [])), {"part.inc": "\n".join(sum(ls[k:m], []))}
def after_end(d):
    return text(d, [l for c in d.cards for l in plain(c)]) + "GRID,999999,,1.,2.,3.\nCROD,999999,7,1,2\n", {}
def head_comment(d):
    return "$ comment\n\n$ SOL 103\n" + text(d, [l for c in d.cards for l in plain(c)]), {}
def case(fn):
    def f(d):
        return text(d, [l for c in d.cards for l in plain(c)], [fn(l) for l in d.case]), {}
    return f
def spaced(l):
    return " = ".join(x.strip() for x in l.split("=", 1)) if "=" in l else l
def case_comment(d):
    return text(d, [l for c in d.cards for l in plain(c)], [x for l in d.case for x in ("$ LOAD=999", l)]), {}
def low_head(d):
    t = text(d, [l for c in d.cards for l in plain(c)])
    for w in ("SOL", "CEND", "BEGIN BULK", "ENDDATA"):
        t = t.replace(w, w.lower())
    return t, {}
def titled(s):
    return lambda l: l if l.split("=")[0].strip() in ("TITLE", "SUBTITLE", "LABEL") else s(l)

WHOLE = {"all:" + s: every(s) for s in fmt.STYLES}
WHOLE.update({
    "alt:small,large": alternate(["small", "large"], 0), "alt:large,small": alternate(["small", "large"], 1),
    "alt:free,small": alternate(["free-pad", "small-0"], 0), "alt:small,free": alternate(["free-pad", "small-0"], 1),
    "alt:free,large": alternate(["free-pad", "large-0"], 0), "alt:large,free": alternate(["free-pad", "large-0"], 1),
    "alt:3": alternate(["free-n", "small-n", "large-n"], 0), "alt:3b": alternate(["free-n", "small-n", "large-n"], 1), "alt:3c": alternate(["free-n", "small-n", "large-n"], 2),
    "$between": between("$ comment, with = signs"), "$between-small": between("$ comment", "small"), "$between-large": between("$ comment", "large"), "$between-0": between("$ comment", "small-0"),
    "$indent": between("   $ comment"), "$indent-small": between("        $ comment", "small"), "$hm": between("$HMNAME LOADSTEP 99 \"x\"", "small"),
    "blank": between(""), "blank-small": between("", "small"), "blank-large": between("", "large"), "spaces": between("    "), "spaces-small": between("        ", "small"),
    "crlf": eol("free-pad"), "crlf-small": eol("small"), "crlf-80": eol("small-80"), "crlf-large": eol("large"), "crlf-0": eol("small-0"), "crlf-blank": crlf_blank,
    "include-first": include("first", "'"), "include-half": include("half", "'"), "include-last": include("last", "'"), "include-0": include("half", "0"), "include-low": include("half", "low"),
    "include-deep": include("first", "'", True), "include-mid": include_mid, "include-noeol": include_noeol,
    "enddata": after_end, "head-comment": head_comment, "low-head": low_head,
    "case-low": case(titled(str.lower)), "case-spaced": case(spaced), "case-indent": case(lambda l: "   " + l), "case-trail": case(lambda l: l + "   "), "case-dollar": case(titled(lambda l: l + " $ x")),
    "case-comment": case_comment, "case-indent-spaced": case(lambda l: "  " + spaced(l)),
})

class Format(check.Check):
    pid = "C01"
    rule = ("every base deck in every whole-deck layout (quick: the hand-written decks in every, each of the others in every fourth); every form of every card (name, kinds of its fields) alone in every layout; "
            "in thorough also every card of every deck, and every ordered pair of layouts on consecutive cards")
    assumptions = ["the reference layout (free fields, all written) is itself judged by C03-C09 against an independent reading"]
    def cases(self):
        out, seen = [], set()
        decks = [("x:" + n, d) for n, d in corpus.extra()] + corpus.selected()
        targets = {}
        for i, (n, d) in enumerate(decks):
            tg = "SYSTUS" if "SYSTUS" in n else "ASTER"
            tgs = [tg] if self.tier == "quick" else ["ASTER", "SYSTUS", "NASTRAN"]
            for tg in tgs:
                ws = [w for k, w in enumerate(WHOLE) if self.tier != "quick" or n.startswith("x:") or (k + i) % 4 == 0]
                self.space.product(ws)
                out += [("%s %s %s" % (tg, n, w), (tg, d, w, None)) for w in ws]
            tg = tgs[0]
            for j, c in enumerate(d.cards):
                for s in fmt.STYLES:
                    k = (corpus.sig(c), s)
                    if (k in seen and self.tier == "quick") or fmt.STYLES[s][1] and len(fmt.body(c)[1]) <= 8 and not (s.startswith("mixed") or s.startswith("large")) or fmt.STYLES[s][1] and len(fmt.body(c)[1]) <= 4 or not fits(c, s):
                        continue
                    seen.add(k)
                    self.space.states += 1; self.space.transitions += 1
                    out.append(("%s %s card %d %s" % (tg, n, j, s), (tg, d, s, j)))
        return out
    def render(self, p):
        tg, d, w, j = p
        if j is None:
            return WHOLE[w](d)
        return text(d, [l for i, c in enumerate(d.cards) for l in (fmt.lines(c, w) if i == j else plain(c))]), {}
    def describe(self, p):
        t, inc = self.render(p)
        return t + "".join("\n--- %s\n%s" % kv for kv in inc.items())
    memo = {}
    def reference(self, tg, d):
        t = text(d, [l for c in d.cards for l in fmt.free(c, pad=True)])
        if (tg, t) not in self.memo:
            if len(self.memo) > 50:
                self.memo.clear()
            r = run.translate(t, tg)
            r.files = {"in.dat"}
            self.memo[(tg, t)] = (r.status, outputs(r))
        return self.memo[(tg, t)]
    def judge(self, p):
        tg, d, w, j = p
        st, ref = self.reference(tg, d)
        t, inc = self.render(p)
        r = run.translate(t, tg, extra_files=inc)
        r.files = {"in.dat"} | set(inc)
        out = []
        if r.status != st:
            out.append("ended with %s instead of %s" % (r.status, st))
        return (out + diff(ref, outputs(r)))[:4], 2

if __name__ == "__main__":
    sys.exit(check.main(Format))
