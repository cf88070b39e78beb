import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import engine, prop
from engine import *
class P(EngineProp):
    stepsets = [ALL, ALL, ALL, PATH, STRICT, IDX, FIL, FILX, FILD]
    shapes = ["med", "med", "records", "nested", "wide", "small", "deep"]
    quota = {"quick": 5600, "thorough": 100000}
    scale_pct = 0            # ThreadSanitizer is slow; long documents are C20's
    cap = {"quick": 200, "thorough": 1500}
    variants = ("tsan", "fast", "asan")
    rule = ("random document and path over all step kinds, one worker count of 2-24 and optionally a footprint and constraints; one third: several schedules of the same parallel or optimised run, each drawn by seed (bodies in permuted order, or interleaved with preemption at every token, allocation, comparison and lock), all compared with the reference; "
            "two thirds: free-running threads under ThreadSanitizer; non-trivial = at least one result and at least two chunks")
    def gen(self, R, tier):
        cfg, d, q = self.make(R, tier)
        t = self.text(R, cfg, d)
        v = R.pick(["tsan", "tsan", "fast", "asan"]); n = R.pick([2, 2, 3, 3, 4, 5, 6, 8, 12, 24]); f = fps(R, t) if R.chance(20) else 0
        ops = []; kind = R.pick(["par", "par", "opt"]); docs = [t]
        if kind == "opt":
            if R.chance(40): docs.append(self.text(R, cfg, mutate(R, cfg, d)))
            ops.append("train %d" % (len(docs) - 1))
        if v == "tsan": ops += ["%s %d %d %d" % (kind, n, f, R.int(1, 1 << 20) + REFUSE + FREE_RUN if R.chance(15) else 0) for _ in range(2)]
        else:
            for _ in range(R.int(3, 7)): ops.append("%s %d %d %d" % (kind, n, f, R.int(1, 1 << 20) + ((1 << 21) if R.chance(75) else 0) + (REFUSE if R.chance(15) else 0)))
        return dict(docs=docs, queries=[q], ops=ops, v=v)
    def classify(self, case, wants): return EngineProp.classify(self, case, wants) + ["threads:" + ("free, ThreadSanitizer" if case["v"] == "tsan" else "controlled")]
    def nontrivial(self, case, wants):
        return any(wants) and any(chunk_count(case["docs"][0], int(o.split()[1])) > 1 for o in case["ops"] if o[0] in "po")
if __name__ == "__main__": prop.main(P(), "C17")
