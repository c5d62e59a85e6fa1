"""Nastran decks: abstract form, rendering, and an independent reader (used on vega's own Nastran output)."""
import re

def num(v, width=8):
    """shortest exact-enough text of a field value"""
    if v is None:
        return ""
    if isinstance(v, str):
        return v
    if isinstance(v, bool):
        raise ValueError
    if isinstance(v, int):
        return str(v)
    for p in range(1, 17):
        for s in (("%." + str(p) + "g") % v,):
            if "e" in s:
                m, e = s.split("e")
                if "." not in m:
                    m += "."
                s = m + "E" + str(int(e))
            elif "." not in s:
                s += "."
            if len(s) <= width and float(s.replace("E", "e")) == v:
                return s
            # alternative without leading zero
            if s.startswith("0.") and len(s) - 1 <= width and float(s) == v:
                return s[1:]
            if s.startswith("-0.") and len(s) - 1 <= width and float(s) == v:
                return "-" + s[2:]
    raise ValueError("value %r does not fit %d characters" % (v, width))

class Deck:
    def __init__(self, sol=101, case=(), cards=(), exec_lines=()):
        self.sol, self.case, self.cards = sol, list(case), [tuple(c) for c in cards]
        self.exec_lines = list(exec_lines)
    def copy(self):
        return Deck(self.sol, self.case, self.cards, self.exec_lines)
    def render(self, fmt="free", cards_text=None):
        out = list(self.exec_lines)
        out.append("SOL %s" % self.sol)
        out.append("CEND")
        out += self.case
        out.append("BEGIN BULK")
        for c in self.cards:
            out += render_card(c, fmt)
        out.append("ENDDATA")
        return "\n".join(out) + "\n"

def render_card(card, fmt="free"):
    name, fields = card[0], list(card[1:])
    while fields and fields[-1] is None:
        fields.pop()
    if fmt == "free":
        lines = []
        fs = [num(f, 14) for f in fields]
        first = True
        while first or fs:
            part, fs = fs[:8], fs[8:]
            lines.append(",".join([name if first else ""] + part + ([""] if fs and False else [])))
            first = False
        return lines
    if fmt == "small":
        fs = [num(f, 8) for f in fields]
        lines, first = [], True
        while first or fs:
            part, fs = fs[:8], fs[8:]
            s = (name if first else "").ljust(8) + "".join(p.ljust(8) for p in part)
            lines.append(s.rstrip() if not fs else s.ljust(72) + "+")
            if not first:
                lines[-1] = "+" + lines[-1][1:]
            first = False
        return lines
    if fmt == "large":
        fs = [num(f, 16) for f in fields]
        lines, first = [], True
        while first or fs:
            part, fs = fs[:4], fs[4:]
            part2, fs = fs[:4], fs[4:]
            l1 = (name + "*" if first else "*").ljust(8) + "".join(p.ljust(16) for p in part)
            lines.append(l1.ljust(72) + "*")
            l2 = "*".ljust(8) + "".join(p.ljust(16) for p in part2)
            lines.append(l2.ljust(72) + "*" if fs else l2.rstrip())
            first = False
        return lines
    raise ValueError(fmt)

# ------------------------------------------------------------------ reading
def value(s):
    s = s.strip()
    if not s:
        return None
    if re.fullmatch(r"[+-]?\d+", s):
        return int(s)
    if re.fullmatch(r"[+-]?(\d+\.\d*|\.\d+)([eEdD]?[+-]?\d+)?|[+-]?\d+[eEdD][+-]?\d+", s):
        m = re.fullmatch(r"([+-]?[\d.]+?)([eEdD]?)([+-]?\d+)?", s)
        t = re.sub(r"[dD]", "e", s)
        if "e" not in t.lower():
            t = re.sub(r"(?<=[\d.])([+-]\d+)$", r"e\1", t)
        return float(t)
    return s

def parse_bulk(text):
    """cards of a Nastran file, all formats; returns exec lines, case lines, cards"""
    lines = text.splitlines()
    ex, case, cards = [], [], []
    sec = 0
    i = 0
    bulk = []
    for l in lines:
        u = l.split("$")[0].rstrip()
        if not u.strip():
            continue
        up = u.upper().strip()
        if sec == 0:
            if up == "CEND":
                sec = 1; continue
            if up.startswith("BEGIN"):
                sec = 2; continue
            ex.append(u.strip())
        elif sec == 1:
            if up.startswith("BEGIN"):
                sec = 2; continue
            case.append(u.strip())
        else:
            if up.startswith("ENDDATA"):
                break
            bulk.append(u)
    for l in bulk:
        l = l.expandtabs(8)
        if "," in l:
            p = [x.strip() for x in l.split(",")]
            head, fs = p[0], p[1:9]
            fs += [""] * (8 - len(fs))
            large = head.endswith("*")
        else:
            head = l[:8].strip()
            large = "*" in head
            if large:
                fs = [l[8 + 16 * k:24 + 16 * k] for k in range(4)]
            else:
                fs = [l[8 + 8 * k:16 + 8 * k] for k in range(8)]
        fs = [value(x) for x in fs]
        h = head.rstrip("*").strip()
        if h in ("", "+") or h.startswith("+") or head.startswith("*"):
            if cards:
                cards[-1].extend(fs)
        else:
            cards.append([h.upper()] + fs)
    out = []
    for c in cards:
        while len(c) > 1 and c[-1] is None:
            c.pop()
        out.append(tuple(c))
    return ex, case, out

def parse_case(lines):
    """case control -> (global dict, [(subcase id, dict)])  — key without options, value text"""
    glob, subs, sets = {}, [], {}
    cur = glob
    for l in lines:
        if re.match(r"\s*SUBCOM\s", l, re.I):
            cur = {}; continue # see combinations()
        m = re.match(r"\s*SUBCASE\s+(\d+)", l, re.I)
        if m:
            cur = {}
            subs.append((int(m.group(1)), cur)); continue
        m = re.match(r"\s*SET\s+(\d+)\s*=\s*(.*)", l, re.I)
        if m:
            sets[int(m.group(1))] = m.group(2); continue
        m = re.match(r"\s*([KMB]2[GP]G)\s*=\s*(.*?)\s*$", l, re.I) or re.match(r"\s*([A-Z]+)[^=]*?(?:\([^)]*\))?\s*=\s*(.*?)\s*$", l, re.I)
        if m:
            cur[m.group(1).upper()[:4]] = m.group(2)
    return glob, subs, sets

def combinations(lines):
    """[(subcom id, [coefficients])]"""
    out, text, n = [], None, 0
    for l in list(lines) + ["END"]:
        if text is not None and text.endswith(","):
            text += l.strip(); continue
        if text is not None:
            out.append((n, [float(x) for x in text.replace(",", " ").split()])); text = None
        m = re.match(r"\s*SUBCOM\s+(\d+)", l, re.I)
        if m:
            n = int(m.group(1))
        m = re.match(r"\s*SUBSEQ[ =]\s*(.*?)\s*$", l, re.I)
        if m:
            text = m.group(1)
    return out

def read(res, name="in_vg.nas"):
    """a translation to Nastran, interpreted like any other deck"""
    from lib import ref
    t = res.read(name)
    if t is None:
        return None
    ex, case, cards = parse_bulk(t)
    sol = next((l.split(None, 1)[1] for l in ex if l.upper().startswith("SOL")), "")
    # the rigid formats of COSMIC NASTRAN
    rigid = {"1,1": "101", "1,3": "103", "1,6": "106"}
    if sol.strip() in rigid:
        sol = rigid[sol.strip()]
        # its tetrahedra name a material
        free = max([int(c[1]) for c in cards if c[0].startswith("P") and str(c[1]).isdigit()] + [0]) + 1000
        mats = sorted({int(c[2]) for c in cards if c[0] == "CTETRA"})
        cards = [("PSOLID", free + m, m) for m in mats] + [tuple(c[:2]) + (free + int(c[2]),) + tuple(c[3:]) if c[0] == "CTETRA" else c for c in cards]
    return ref.Ref(sol, case, cards)
