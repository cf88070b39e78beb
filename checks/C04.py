import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import engine, prop
from engine import *
class P(EngineProp):
    stepsets = [ALL, ALL, ALL, PATH, STRICT, IDX, FIL, FILX, FILD]
    quota = {"quick": 12800, "thorough": 200000}
    rule = ("random document and path over all step kinds; parallelRun with 2-6 random worker counts (1..100, thread order controlled by seed) compared with the reference; "
            "non-trivial = at least one result and some run works on at least two chunks")
    def ops(self, R, t, tier):
        o = []
        for _ in range(R.int(2, 6)): o.append("par %d 0 %d" % (cores(R) if R.chance(80) else R.int(1, 100), seeds(R)))
        if R.chance(15): o.append("par %d 0 0" % cores(R))
        return o
    def nontrivial(self, case, wants):
        return any(wants) and any(chunk_count(case["docs"][0], int(o.split()[1])) > 1 for o in case["ops"])
if __name__ == "__main__": prop.main(P(), "C04")
