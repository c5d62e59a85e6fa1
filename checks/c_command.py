"""Is every translation complete and consistent in itself?"""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import check, run, features, corpus, lint

OPTIONS = {
    "ASTER": [()],
    "SYSTUS": [(), ("--systus.RBE2TranslationMode", "lagrangian"), ("--systus.OutputMatrix", "file"), ("--systus.OutputProduct", "topaze"), ("--systus.Subcase", "single")],
    "NASTRAN": [(), ("--nastran.OutputDialect", "modern")],
}
# analyses the target announces that it does not write
SOLS = {"ASTER": (101, 103, 105, 106, 108, 111), "SYSTUS": (101, 103, 105, 106, 108, 111), "NASTRAN": (101, 103)}

class Command(check.Check):
    pid = "C10"
    rule = "every set of features up to the depth in each kind of analysis, and every deck of the corpus, in each target with each option"
    assumptions = ["the catalogue of Code_Aster commands and keywords of lib/lint.py (from the U4 manuals) is what the solver accepts"]
    def cases(self):
        out = []
        depth = 2 if self.tier == "quick" else 3
        for tgt in SOLS:
            for sol in SOLS[tgt]:
                names = features.names(sol)
                # depth 3 in statics and modal response only
                for fs in self.space.subsets(names, depth if depth < 3 or sol in (101, 111) and tgt != "NASTRAN" else 2):
                    for i, o in enumerate(OPTIONS[tgt]):
                        if i and len(fs) > depth - 1:
                            continue
                        out.append(("%s%s SOL %d %s" % (tgt, "".join(" " + x for x in o), sol, " ".join(fs) or "-"), (tgt, o, ("f", sol, fs))))
            for j, (l, d) in enumerate(corpus.extra() + corpus.selected()):
                if tgt == "NASTRAN" and str(d.sol) not in ("101", "103", "1", "3"):
                    continue
                self.space.states += 1
                for o in OPTIONS[tgt]:
                    out.append(("%s%s deck %s#%d" % (tgt, "".join(" " + x for x in o), l, j), (tgt, o, ("d", d))))
        return out
    def text(self, p):
        return (features.deck(p[1], p[2]) if p[0] == "f" else p[1]).render()
    def judge(self, payload):
        tgt, o, p = payload
        r = run.translate(self.text(p), tgt, o)
        if r.status[0] != "exit":
            return ["translation ended with %s" % (r.status,)], 1
        if r.status[1] != 0:
            # a translation that is refused is not judged here, but a set of features never is
            return (["translation ended with %s" % (r.status,)] if p[0] == "f" else []), 1, r.status
        e = (lint.systus_lint(r, "topaze" in o) if tgt == "SYSTUS" else getattr(lint, tgt.lower() + "_lint")(r))[0]
        return sorted(set(e)), 1
    def describe(self, payload):
        tgt, o, p = payload
        return "%s %s\n%s" % (tgt, " ".join(o), self.text(p))

if __name__ == "__main__":
    sys.exit(check.main(Command))
