import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import engine, prop
from engine import *
class P(EngineProp):
    stepsets = [ALL, ALL, PATH, STRICT, IDX, FIL, FILX, FILD]
    quota = {"quick": 11200, "thorough": 160000}
    rule = ("random document and path over all step kinds; serial, parallel and optimised runs with random footprints from 1 byte to the document size compared with the reference; "
            "non-trivial = at least one result and at least two loads")
    def ops(self, R, t, tier):
        o = []
        for _ in range(R.int(2, 5)):
            k = R.int(0, 9); f = fps(R, t) or 1
            if k < 5: o.append("serial %d" % f)
            elif k < 8: o.append("par %d %d %d" % (cores(R), f, seeds(R)))
            else: o += ["train 0", "opt %d %d %d" % (cores(R), f, seeds(R)), "freect"]
        return o
    def nontrivial(self, case, wants):
        t = case["docs"][0]
        return any(wants) and any(real_loads(t, int(o.split()[1 if o[0] == "s" else 2])) > 1 for o in case["ops"] if o[0] in "spo")
if __name__ == "__main__": prop.main(P(), "C06")
