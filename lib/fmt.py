"""Admissible layouts of the same card."""
from lib.nas import num

def body(card):
    f = list(card[1:])
    while f and f[-1] is None:
        f.pop()
    return card[0], f

def chunks(f, n):
    out = [f[i:i + n] for i in range(0, len(f), n)] or [[]]
    return out

# ---- fixed fields
ALIGN = {"l": lambda s, w: s.ljust(w), "r": lambda s, w: s.rjust(w), "c": lambda s, w: s.center(w)}

def small(card, align="l", mark="+", lead=None, full=False, lower=False, tabs=False, head="l"):
    """mark: field 10 of a continued line ('' = none, 'n' = numbered markers); lead: field 1 of the continuation (None = same as mark)"""
    name, f = body(card)
    t = [num(x, 8) for x in f]
    if lower:
        name, t = name.lower(), [x.lower() for x in t]
    ls = chunks(t, 8)
    out, m = [], 0
    for i, p in enumerate(ls):
        last = i == len(ls) - 1
        first = name if i == 0 else None
        if first is None:
            first = ("+C%d" % m if mark == "n" else mark) if lead is None else lead
        if tabs:
            if any(len(x) > 7 for x in p) or len(first) > 7:
                raise ValueError("tab")
            s = "\t".join([first] + p)
        else:
            s = (first.ljust(8) if i == 0 and head == "l" else first.ljust(8)) + "".join(ALIGN[align](x, 8) for x in p)
        if not last:
            m += 1
            tail = "+C%d" % m if mark == "n" else mark
            if tabs:
                s = s + "\t" * (8 - len(p) + 1) + tail if tail else s
            else:
                s = s.ljust(72) + tail
        if i and not s.strip():
            raise ValueError("blank line")  # ignored by Nastran
        out.append(s.ljust(80) if full else s if tabs else s.rstrip())
    return out

def large(card, align="l", mark="*", lead=None, short=False, lower=False, tabs=False, even=False):
    name, f = body(card)
    t = [num(x, 16) for x in f]
    if lower:
        name, t = name.lower(), [x.lower() for x in t]
    ls = chunks(t, 4)
    if even and len(ls) % 2:
        ls.append([])
    out, m = [], 0
    for i, p in enumerate(ls):
        last = i == len(ls) - 1
        first = name + "*" if i == 0 else ("*C%d" % m if mark == "n" else "*" if lead is None else lead)
        if tabs:
            if any(len(x) > 15 for x in p) or len(first) > 7:
                raise ValueError("tab")
            s = "\t".join([first] + p)
        else:
            s = first.ljust(8) + "".join(ALIGN[align](x, 16) for x in p)
        if not last:
            m += 1
            tail = "*C%d" % m if mark == "n" else mark
            if tabs:
                s = s + "\t" * (4 - len(p) + 1) + tail if tail else s
            else:
                s = s.ljust(72) + tail
        out.append(s if tabs else s.rstrip())
    return out

def mixed(card, order):
    """lines of alternating width; order 'sl' = small first"""
    name, f = body(card)
    out, i, k = [], 0, 0
    while True:
        lg = order[k % len(order)] == "l"
        n, w = (4, 16) if lg else (8, 8)
        p = [num(x, w) for x in f[i:i + n]]
        i += n
        first = (name + ("*" if lg else "")) if k == 0 else ("*" if lg else "+" if order[(k - 1) % len(order)] == "s" else "")
        s = first.ljust(8) + "".join(x.ljust(w) for x in p)
        last = i >= len(f)
        if not last:
            nl = order[(k + 1) % len(order)] == "l"
            s = s.ljust(72) + ("*" if nl else "" if lg else "+")
        out.append(s.rstrip())
        k += 1
        if last:
            return out

def free(card, sep=",", mark=None, lead="", pad=False, lower=False, after=""):
    """mark: marker written as field 10 of a continued line ('n' = numbered); lead: field 1 of the continuation"""
    name, f = body(card)
    t = [num(x, 16) for x in f]
    if lower:
        name, t = name.lower(), [x.lower() for x in t]
    ls = chunks(t, 8)
    out, m = [], 0
    for i, p in enumerate(ls):
        last = i == len(ls) - 1
        first = name if i == 0 else ("+C%d" % m if mark == "n" else lead)
        if pad:
            p = p + [""] * (8 - len(p))
        elif not last:
            pass
        fs = [first] + p
        if not last:
            m += 1
            if mark:
                fs += [""] * (9 - len(fs)) + ["+C%d" % m if mark == "n" else mark]
        out.append(sep.join(fs) + after)
    return out

def trimmed(card):
    """free format whose continued lines stop at their last non-blank field"""
    name, f = body(card)
    ls = chunks([num(x, 16) for x in f], 8)
    out = []
    for i, p in enumerate(ls):
        p = list(p)
        while p and p[-1] == "":
            p.pop()
        out.append(",".join([name if i == 0 else "+"] + p) + ("," if i == 0 and not p else ""))
    return out

def inside(lines, text):
    """a line between the lines of a card"""
    out = []
    for i, l in enumerate(lines):
        if i:
            out.append(text)
        out.append(l)
    return out

STYLES = {
    # name: (lines of a card, can show only on a continued card)
    "small": (lambda c: small(c), False),
    "small-r": (lambda c: small(c, "r"), False),
    "small-c": (lambda c: small(c, "c"), False),
    "small-80": (lambda c: small(c, full=True), False),
    "small-low": (lambda c: small(c, lower=True), False),
    "small-tab": (lambda c: small(c, tabs=True), False),
    "small-tab0": (lambda c: small(c, tabs=True, mark="", lead=""), True),
    "small-n": (lambda c: small(c, mark="n"), True),
    "small-0": (lambda c: small(c, mark="", lead=""), True),
    "small-0+": (lambda c: small(c, mark="", lead="+"), True),
    "small-+0": (lambda c: small(c, mark="+", lead=""), True),
    "small-$in": (lambda c: inside(small(c), "$ a comment, inside"), True),
    "small-n$in": (lambda c: inside(small(c, mark="n"), "$ a comment, inside"), True),
    "small-0$in": (lambda c: inside(small(c, mark="", lead=""), "$ a comment, inside"), True),
    "small-$end": (lambda c: [l + " $ x, y" for l in small(c, mark="", lead="+")], False),
    "large": (lambda c: large(c), False),
    "large-r": (lambda c: large(c, "r"), False),
    "large-c": (lambda c: large(c, "c"), False),
    "large-low": (lambda c: large(c, lower=True), False),
    "large-even": (lambda c: large(c, even=True), False),
    "large-n": (lambda c: large(c, mark="n"), True),
    "large-0": (lambda c: large(c, mark=""), True),
    "large-tab": (lambda c: large(c, tabs=True), False),
    "large-$in": (lambda c: inside(large(c), "$ a comment, inside"), True),
    "large-$end": (lambda c: [l + " $ x, y" for l in large(c, mark="")], False),
    "mixed-sl": (lambda c: mixed(c, "sl"), True),
    "mixed-ls": (lambda c: mixed(c, "ls"), True),
    "mixed-ssl": (lambda c: mixed(c, "ssl"), True),
    "mixed-lls": (lambda c: mixed(c, "lls"), True),
    "free-sp": (lambda c: free(c, ", "), False),
    "free-sp2": (lambda c: free(c, " , "), False),
    "free-pad": (lambda c: free(c, pad=True), False),
    "free-low": (lambda c: free(c, lower=True), False),
    "free-+": (lambda c: free(c, mark="+", lead="+"), True),
    "free-+0": (lambda c: free(c, lead="+"), True),
    "free-n": (lambda c: free(c, mark="n"), True),
    "free-n-sp": (lambda c: free(c, ", ", mark="n"), True),
    "free-blank": (lambda c: free(c, lead=" "), True),
    "free-trim": (lambda c: trimmed(c), True),
    "free-$in": (lambda c: inside(free(c, lead="+"), "$ a comment, inside"), True),
    "free-,$in": (lambda c: inside(free(c), "$ a comment, inside"), True),
    "free-n$in": (lambda c: inside(free(c, mark="n"), "$ a comment, inside"), True),
    "free-$end": (lambda c: [l + " $ x, y" for l in free(c)], False),
    "free-tab": (lambda c: free(c, ",\t"), False),
    "free-end": (lambda c: free(c, after="   "), False),
}

def lines(card, style):
    return STYLES[style][0](card)
