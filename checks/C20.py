import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import prop, cases, gen, model
from engine import *
from scale import *
class P(EngineProp):
    quota = {"quick": 2900, "thorough": 20000}
    cap = {"quick": 240, "thorough": 1700}
    hyp_share = 1
    rule = ("documents scaled along one dimension (strings, numbers and keys up to 100 kB, selected containers up to 5000 members, up to 40000 results, indexes beyond 10000, objects with thousands of keys, depth up to 40, filters with up to 60 conditions, thousands of buffered results, queries of up to 15 steps, automata of several hundred states) x serial, parallel (up to 200 workers), "
            "optimised and multi-load runs, compared with the reference; non-trivial = at least one result")
    def gen(self, R, tier):
        r = recipe(R)
        t, q = build(r); n = len(t)
        def f(): return 0 if R.chance(60) else max(1, n // R.pick([1, 2, 2, 3, 5, 9, 30]) + R.int(-2, 2))
        def c(): return R.pick([2, 3, 4, 7, 8, 16, 31, 64]) if R.chance(90) else R.pick([100, 128, 200])
        ops = []
        for _ in range(R.int(2, 4)):
            k = R.int(0, 9)
            if k < 3: ops.append("serial %d" % f())
            elif k < 7: ops.append("par %d %d %d" % (c(), f(), seeds(R) if R.chance(80) else 0))
            else: ops += ["train 0", "opt %d %d %d" % (c(), f(), R.int(1, 1 << 20)), "freect"]
        return dict(r=r, ops=ops, v=R.pick(["asan", "fast", "fast"]))
    def judge(self, env, case):
        if "docs" in case: return EngineProp.judge(self, env, case)
        t, q = build(case["r"])
        m, info = EngineProp.judge(self, env, dict(docs=[t], queries=[q], ops=case["ops"], v=case["v"]))
        c = info.get("class", []); c = [c] if isinstance(c, str) else list(c)
        info["class"] = [x for x in c if not x.startswith("step:")] + ["scaled:" + case["r"][0], "size:" + ("<1k" if len(t) < 1000 else "<10k" if len(t) < 10000 else "<100k" if len(t) < 100000 else "100k+")]
        return m, info
    def shrink(self, c):
        for o in cases.shrink_ops(c["ops"]): yield dict(c, ops=o)
        r = c["r"]
        if r[0] == "dataset":
            for q in cases.shrink_steps(r[2]): yield dict(c, r=r[:2] + [q])
            return
        for i, x in enumerate(r):
            if isinstance(x, bool): continue
            if isinstance(x, int):
                for y in (x // 2, x - x // 10, x - 1):
                    if 0 < y < x: yield dict(c, r=r[:i] + [y] + r[i + 1:])
            if isinstance(x, list) and r[0] in ("deep", "query") and i == 1:
                for j in range(len(x)): yield dict(c, r=r[:i] + [x[:j] + x[j + 1:]] + r[i + 1:])
if __name__ == "__main__": prop.main(P(), "C20")
