import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import engine, prop, scale
from engine import *
class P(EngineProp):
    stepsets = [ALL, ALL, PATH, STRICT, IDX, FIL, FILX, FILD]
    quota = {"quick": 11200, "thorough": 160000}
    rule = ("random document, path and training documents (the same file, an altered copy, an unrelated document, an empty file, none); parallelRunOpt with random worker counts, some with several loads, compared with the reference; "
            "non-trivial = at least one result, at least two chunks, and constraints were collected")
    def gen(self, R, tier):
        cfg, d, q = self.make(R, tier)
        t = self.text(R, cfg, d)
        docs = [t]; ops = []
        for _ in range(R.int(1, 3)):
            k = R.int(0, 9)
            if k < 2: src = 0
            elif k < 5: docs.append(cases.render(R, mutate(R, cfg, d))); src = len(docs) - 1
            elif k < 8:
                c2 = dict(cfg); docs.append(cases.render(R, cases.gen_doc(R, c2, ["small", "records", "med", "deep"]))); src = len(docs) - 1
            elif k < 9 and R.chance(30):
                w = R.int(900, 1300); x = cases.render(R, mutate(R, cfg, d)) if R.chance(70) else "1"; z = R.int(0, 2)         # the table runs full
                docs.append('{%s%s"z":%s}' % ('"p":%s,' % x if z == 0 else "", "".join('"%s%d":%s,' % (R.pick(["k", "w" * 98]), i, R.pick(["1", "[1]", '{"%s":2}' % R.pick(cfg["keys"])])) for i in range(w)), x if z == 1 else "1")); src = len(docs) - 1
            elif k == 8: docs.append(R.pick(["{}", "[]", "", "1", "{\"zz\":[[1]]}"])); src = len(docs) - 1
            else: src = None
            if src is not None: ops.append("train %d" % src)
            ops.append("use 0")
            for _ in range(R.int(1, 3)):
                ops.append("opt %d %d %d" % (cores(R), fps(R, t) if R.chance(15) else 0, seeds(R)))
            if src is None: break
            ops.append("freect")
        return dict(docs=docs, queries=[q], ops=ops, v="fast" if R.chance(50) else "asan")
    def scaled(self, R):
        if R.chance(2): return scale.build(scale.recipe(R, ["chain"]))
        return EngineProp.scaled(self, R)
    def nontrivial(self, case, wants):
        return any(wants) and any(o.startswith("train") for o in case["ops"]) and \
            any(o.startswith("opt") and chunk_count(case["docs"][0], int(o.split()[1])) > 1 for o in case["ops"])
if __name__ == "__main__": prop.main(P(), "C05")
