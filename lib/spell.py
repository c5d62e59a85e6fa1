"""Admissible spellings of a number."""
from decimal import Decimal

def digits(v):
    """v = 0.d1d2... * 10^e"""
    s, d, e = Decimal(repr(abs(v))).normalize().as_tuple()
    t = "".join(map(str, d))
    return t, e + len(t)

def sp(v, k):
    """k-th spelling of a real number"""
    n = "-" if v < 0 else ""
    if v == 0:
        return {"plain": "0.", "0": "0.0", "+": "+0.", "E": "0.E0", "e": "0.0e+0", "nE": "0.+0", "n-": "0.-3", "D": "0.D0", "d": "0.d+1", ".E": ".0E1", ".n": ".0+1", "EE": "0.0E+00", "z": "0.000", "lead": "00.", "low": "0.e-5"}[k]
    t, e = digits(v)
    def at(p):
        """digits with the point after p of them"""
        if p <= 0:
            return "0." + "0" * -p + t
        if p >= len(t):
            return t + "0" * (p - len(t)) + "."
        return t[:p] + "." + t[p:]
    one = t[0] + "." + t[1:]
    x = e - 1
    fixed = at(e) if -4 < e < 12 else None
    m = {"plain": fixed or one + "E%d" % x, "0": (fixed or one) + "0" + ("" if fixed else "E%d" % x), "+": fixed or one + "E%d" % x,
         "E": one + "E%d" % x, "e": one + "e%+d" % x, "nE": one + "%+d" % x, "n-": t + ".%+d" % (e - len(t)), "D": one + "D%d" % x, "d": one + "d%+d" % x,
         ".E": "." + t + "E%d" % e, ".n": "." + t + "%+d" % e, "EE": one + "E%+03d" % x, "z": at(e) + "00" if fixed else one + "00E%d" % x,
         "lead": "0" + (fixed or one + "E%d" % x), "low": at(e + 2) + "e%d" % -2 if fixed else one + "e%d" % x}[k]
    s = ("+" if k == "+" and v > 0 else n) + m
    return s
KINDS = ("plain", "0", "+", "E", "e", "nE", "n-", "D", "d", ".E", ".n", "EE", "z", "lead", "low")
