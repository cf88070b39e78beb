import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import engine, prop, cases, model
from engine import *
class P(EngineProp):
    must = "filter"
    stepsets = [FIL, FIL, FIL, FILX, FILD, ["key", "filter"], ["key", "filter", "desc", "descany", "any", "star"]]
    cfg = dict()
    quota = {"quick": 22400, "thorough": 300000}
    rule = ("random records-like documents and paths with at least one filter whose literals are mostly drawn from the tested values; serialRun compared with the reference evaluator; "
            "non-trivial = the filters both keep and drop at least one candidate result")
    shapes = ["records", "records", "records", "small", "med", "med", "wide", "deep"]
    def make(self, R, tier):
        for _ in range(4):
            cfg, d, q = EngineProp.make(self, R, tier)
            if any(s[0] == "filter" for s in q): break
        else:
            q = q + [("filter", gen.gen_expr(R, cfg, []))]
        return cfg, d, q
    def nontrivial(self, case, wants):
        if not any(wants): return False
        q = [("star",) if s[0] == "filter" else s for s in model.tup(case["queries"][0])]
        w, _ = cases.expected(case["docs"][0], q)
        return len(w) > len(wants[0])
if __name__ == "__main__": prop.main(P(), "C02")
