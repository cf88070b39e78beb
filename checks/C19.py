import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import prop, cases, gen, model
from engine import *
from srv import Reader
class P(prop.Prop):
    quota = {"quick": 8000, "thorough": 120000}
    cap = {"quick": 200, "thorough": 1500}
    variants = ("leak",)
    rule = ("random document, path, mode (serial, parallel, trained and optimised; the same processor, or a new one created and freed each time), worker count, footprint and schedule, repeated 8-24 times in one process; after each repetition, when output and constraints are freed, allocated bytes, open descriptors and address space are taken; "
            "non-trivial = the run has at least one result")
    def gen(self, R, tier):
        cfg = cases.base_cfg(R, R.pick([ALL, ALL, PATH, IDX, FIL, FILX, FILD]))
        d = cases.gen_doc(R, cfg); q = cases.gen_steps(R, cfg, d, R.pick([None, "filter", "filter", "index"])); t = cases.render(R, d)
        if R.chance(12): t = t.replace('"%s"' % R.pick(cfg["keys"]), '"%s"' % R.pick(cfg["keys"]))       # names given twice
        if R.chance(6): t = t[:R.int(0, len(t))]
        tr = None
        if R.chance(60): tr = R.pick(['{"a":[{"b":1}]}', "[1,2]", cases.render(R, cases.gen_doc(R, cfg)), cases.render(R, mutate(R, cfg, d))])
        if R.chance(2):
            import scale
            t, q = scale.build(scale.recipe(R, ["results", "wide", "buffered", "index", "container", "longkey", "filters"]))
            if len(t) > 60000: t, q = scale.build(["results", 100, R.int(0, 3)])
        if R.chance(3): tr = "{" + ",".join('"%s%d":%d' % (R.pick(["k", "w" * 98]), i, i) for i in range(R.pick([1010, 1300]))) + "}"      # a full table
        m = R.pick("sspppooo") + R.pick([""] * 3 + ["n"])
        return dict(doc=t, q=q, reps=R.pick([8, 8, 12, 24]), mode=m, n=cores(R) if m[0] != "s" else 1, fp=(fps(R, t) or 1) if R.chance(40) else 0, seed=seeds(R) if R.chance(60) else 0, train=tr if m[0] == "o" else None, **({"gone": R.pick("dt")} if R.chance(5) else {}))
    def measure(self, env, case, reps):
        r = env.call("leak", "repeat", case["doc"], model.show(model.tup(case["q"])), reps, case["mode"], case["n"], case["fp"], case["seed"], *([case.get("train") or "", case["gone"]] if "gone" in case else [case["train"]] if case.get("train") else []))
        if not r.ok: return r, None
        d = Reader(r.data); rows = [(d.i64(), d.i32(), d.i32(), d.i32()) for _ in range(reps)]
        return r, [list(x) for x in zip(*rows)]
    def grows(self, use):
        use = use[3:]           # the first runs may set up buffers that stay; a kept block takes at least 24 bytes, rounding of reused blocks stays below
        return use[-1] - use[0] >= 20 * (len(use) - 1) and sum(1 for a, b in zip(use, use[1:]) if b > a) >= len(use) - 2
    def judge(self, env, case):
        info = dict(nontrivial=False); where = "%d times %s (workers %d, footprint %d, schedule %d) with %s on %s%s" % (case["reps"], case["mode"], case["n"], case["fp"], case["seed"], model.show(model.tup(case["q"])), clip(case["doc"], 300), ", trained on " + clip(case["train"], 200) if case.get("train") else "") + (", file missing: " + case["gone"] if "gone" in case else "")
        r, got = self.measure(env, case, case["reps"])
        if not r.ok: return "%s: %s" % (where, r.why()), info
        use, fds, vsz, num = got
        info["nontrivial"] = num[-1] > 0
        info["class"] = ["mode:" + {"s": "serial", "p": "parallel", "o": "optimised"}[case["mode"][0]], "new processor each time" if "n" in case["mode"] else "same processor", *(["missing file"] if "gone" in case else []), "several loads" if case["fp"] and real_loads(case["doc"], case["fp"]) > 1 else "one load", "results:" + ("none" if num[-1] < 1 else "1-9" if num[-1] < 10 else "10+")]
        if len(set(fds)) > 1: return "%s: open descriptors after each run: %s" % (where, fds), info
        if self.grows(use):
            r, more = self.measure(env, case, 48)
            if not r.ok: return "%s, 48 times: %s" % (where, r.why()), info
            if self.grows(more[0]): return "%s: allocated bytes after each run: %s" % (where, use), info
        if all(b - a > 2048 for a, b in zip(vsz[3:], vsz[4:])): return "%s: address space after each run (KB): %s" % (where, vsz), info
        return None, info
    def shrink(self, c):
        for t in cases.shrink_text(c["doc"]): yield dict(c, doc=t)
        for q in cases.shrink_steps(c["q"]): yield dict(c, q=q)
        if c.get("train"):
            yield dict(c, train=None)
            for t in cases.shrink_text(c["train"]): yield dict(c, train=t)
        if "gone" in c: yield {k: x for k, x in c.items() if k != "gone"}
        if c["seed"]: yield dict(c, seed=0)
        if c["fp"]: yield dict(c, fp=0)
        if c["n"] > 2: yield dict(c, n=2)
        if c["reps"] > 8: yield dict(c, reps=8)
        if c["mode"] != "s": yield dict(c, mode="s")
if __name__ == "__main__": prop.main(P(), "C19")
