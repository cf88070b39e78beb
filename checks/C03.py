import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import engine, prop, model
from engine import *
class P(EngineProp):
    must = "index"
    stepsets = [IDX, IDX, ["key", "idx", "slice"], ["idx", "slice", "star", "any"], ["key", "idx", "slice", "desc"], ["key", "slice", "filter", "idx"]]
    quota = {"quick": 14400, "thorough": 200000}
    shapes = ["records", "records", "small", "med", "wide", "wide", "deep", "nested", "nested"]
    rule = ("random documents rich in arrays (also arrays in arrays) and paths with at least one index or slice step; serialRun and parallelRun (several worker counts, thread orders) compared with the reference; "
            "non-trivial = results exist and an index step excludes some element")
    def make(self, R, tier):
        for _ in range(5):
            cfg, d, q = EngineProp.make(self, R, tier)
            if any(s[0] in ("idx", "slice") for s in q): break
        return cfg, d, q
    def ops(self, R, t, tier):
        o = ["serial 0"]
        for _ in range(R.int(1, 3)): o.append("par %d 0 %d" % (cores(R), seeds(R)))
        if R.chance(30): o.append("par %d %d %d" % (cores(R), fps(R, t), seeds(R)))
        if R.chance(20): o.append("serial %d" % fps(R, t))
        return o
    def nontrivial(self, case, wants):
        if not any(wants): return False
        q = [("star",) if s[0] in ("idx", "slice") else s for s in model.tup(case["queries"][0])]
        w, why = cases.expected(case["docs"][0], q)
        return bool(why) or len(w) > len(wants[0])
if __name__ == "__main__": prop.main(P(), "C03")
