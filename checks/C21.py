import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import prop, cases, gen, model, texts
from engine import *
from srv import Reader, outputs, NULL
MODES = "sSpioO"
class P(prop.Prop):
    quota = {"quick": 14400, "thorough": 250000}
    variants = ("asan", "fast")
    rule = ("random documents and paths of all kinds; half: the documented pipelines (streaming with and without constraints, parallel over a partitioned file or stream, with constraints of the same or another document) each compared with the reference; "
            "half: one streaming automaton fed the document in 2-12 pieces cut at random token boundaries (inside white space too) with OPEN, CLOSE or alternating flags, its matches compared one by one with those of a single feed, its filtered output with the reference; non-trivial = at least one result and, for pieces, at least one cut inside the document")
    def gen(self, R, tier):
        cfg = cases.base_cfg(R, R.pick([ALL, ALL, PATH, STRICT, IDX, FIL, FILX, FILD]))
        d = cases.gen_doc(R, cfg)
        if R.chance(15): d = texts.harden(R, d, R.pick([0, 0, 300, 4000]))
        q = cases.gen_steps(R, cfg, d, R.pick([None, None, "filter", "index"])); t = cases.render(R, d)
        v = R.pick(["asan", "fast"])
        if R.chance(50):
            tr = t if R.chance(50) else cases.render(R, mutate(R, cfg, d))
            ms = []
            for _ in range(R.int(2, 6)): ms.append(R.pick(MODES) if R.chance(80) else "c%d" % seeds(R))
            return dict(doc=t, q=q, n=cores(R), train=tr, modes=ms, v=v)
        ok = self.cuts(t)
        cut = sorted({R.pick(ok) for _ in range(R.int(1, R.pick([2, 4, 12])))}) if ok else []
        c = dict(doc=t, q=q, cuts=cut, flag=R.pick([0, 0, 1, 2]), v=v)
        if R.chance(45):
            c["ctx"] = R.pick("sppo"); c["n"] = cores(R); c["seed"] = seeds(R) if R.chance(50) else 0
            c["train"] = t if R.chance(50) else cases.render(R, mutate(R, cfg, d))
            if c["ctx"] != "s":
                ok = self.loader_cuts(t); c["cuts"] = sorted({R.pick(ok) for _ in range(R.int(1, R.pick([2, 4, 12])))}) if ok else []
        return c
    def loader_cuts(self, t):
        """where the loader and the partitioner cut: in front of a key or a string that follows a comma or an opening bracket"""
        tk = texts.tokens(t)
        return [b[1] for a, b in zip(tk, tk[1:]) if t[b[1]] == '"' and a[0] in (1, 3, 5)]
    def cuts(self, t):
        """where the text may be cut: between two tokens (a key and its colon are one) or in the white space there"""
        tk = texts.tokens(t); out = []
        for (k, s, e, c), nx in zip(tk, tk[1:]):
            out += list(range(e, nx[1] + 1))
        return out
    gone = set()
    def judge(self, env, case):
        """a part of the internal interface that has changed leaves the other parts to decide"""
        try: return self.judge_part(env, case)
        except prop.NoAnswer:
            self.gone.add("internal" if "modes" in case else "partial" if "ctx" in case else "pieces")
            if len(self.gone) == 3: raise
            return None, dict(skip=True, nontrivial=False, **{"class": "interface changed"})
    def judge_part(self, env, case):
        t, steps = case["doc"], model.tup(case["q"]); path = model.show(steps); info = dict(nontrivial=False)
        want, why = cases.expected(t, steps)
        if why: return None, dict(skip=True, nontrivial=False, **{"class": "skipped"})
        if "modes" in case:
            r = env.call(case["v"], "internal", t, path, case["n"], case["train"], *case["modes"])
            ms = [m for m in case["modes"] if m[0] != "c"]
            got = outputs(r)
            info["nontrivial"] = bool(want); info["class"] = ["mode:" + m for m in sorted(set(ms))] + sorted({"step:" + s[0] for s in steps})
            where = "internal API, %s with %d workers on %s (constraints of %s), query %s" % (case["modes"], case["n"], clip(t, 300), "the same" if case["train"] == t else clip(case["train"], 200), path)
            for i, m in enumerate(ms):
                if i >= len(got): return "%s: mode %s: %s" % (where, m, r.why()), info
                if got[i] != "NOPP" and got[i] != want: return "%s: mode %s: got %s, expected %s" % (where, m, cliplist(got[i]), cliplist(want)), info
            if not r.ok: return "%s: %s at the end" % (where, r.why()), info
            return None, info
        ok = set(self.loader_cuts(t) if case.get("ctx", "s") != "s" else self.cuts(t)); cut = [c for c in case["cuts"] if c in ok]
        p = [t[a:b] for a, b in zip([0] + cut, cut + [len(t)])]
        if "ctx" in case:
            r = env.call(case["v"], "partial", path, case["ctx"], case["n"], case["seed"], case["train"], *p)
            where = "%s (%d workers, schedule %d) over one context for %s fed %s" % ({"s": "serialPartialRun", "p": "parallelPartialRun", "o": "parallelPartialRunOpt"}[case["ctx"]], case["n"], case["seed"], path, [clip(x, 120) for x in p])
            info["nontrivial"] = bool(want) and any(x.strip() for x in p[:-1]) and bool(p[-1].strip())
            info["class"] = ["partial runs:" + case["ctx"], "pieces:" + ("1-2" if len(p) < 3 else "3-5" if len(p) < 6 else "6+")] + sorted({"step:" + s[0] for s in steps})
            if not r.ok: return "%s: %s" % (where, r.why()), info
            d = Reader(r.data); counts = [d.i32() for _ in p]; k = d.u32(); o = None if k == NULL else [d.s() for _ in range(k)]
            if o != want: return "%s: output %s, expected %s" % (where, cliplist(o), cliplist(want)), info
            if sorted(counts) != counts: return "%s: results got lost: %s" % (where, counts), info
            return None, info
        one = env.call(case["v"], "pieces", path, 0, t); r = env.call(case["v"], "pieces", path, case["flag"], *p)
        where = "streaming automaton for %s fed %s (flag %d)" % (path, [clip(x, 120) for x in p], case["flag"])
        if not one.ok: return "streaming automaton for %s fed %s at once: %s" % (path, clip(t, 300), one.why()), info
        if not r.ok: return "%s: %s" % (where, r.why()), info
        m1, o1, _, _ = self.read(one, 1); m, o, counts, depth = self.read(r, len(p))
        info["nontrivial"] = bool(want) and any(x.strip() for x in p[:-1]) and bool(p[-1].strip())
        info["class"] = ["pieces:" + ("1-2" if len(p) < 3 else "3-5" if len(p) < 6 else "6+"), "flag:%d" % case["flag"]] + sorted({"step:" + s[0] for s in steps})
        if m != m1:
            i = next((i for i, (a, b) in enumerate(zip(m, m1)) if a != b), min(len(m), len(m1)))
            return "%s: match %d is %s, fed at once it is %s" % (where, i, m[i:i + 1], m1[i:i + 1]), info
        if sorted(counts) != counts: return "%s: matches got lost: %s" % (where, counts), info
        if o1 != want: return "streaming automaton for %s fed %s at once: output %s, expected %s" % (path, clip(t, 300), cliplist(o1), cliplist(want)), info
        if o != want: return "%s: output %s, expected %s" % (where, cliplist(o), cliplist(want)), info
        if depth: return "%s: %d brackets are still open" % (where, depth), info
        return None, info
    def read(self, r, n):
        d = Reader(r.data); counts = [d.i32() for _ in range(n)]
        m = [(d.i32(), d.i32(), d.s()) for _ in range(d.i32())]
        k = d.u32(); o = None if k == NULL else [d.s() for _ in range(k)]
        return m, o, counts, d.i32()
    def shrink(self, c):
        if "modes" in c:
            for i in range(len(c["modes"])):
                if len(c["modes"]) > 1: yield dict(c, modes=c["modes"][:i] + c["modes"][i + 1:])
            if c["n"] > 2: yield dict(c, n=2)
            for t in cases.shrink_text(c["doc"]): yield dict(c, doc=t)
            if c["train"] != c["doc"]:
                for t in cases.shrink_text(c["train"]): yield dict(c, train=t)
        else:
            for i in range(len(c["cuts"])): yield dict(c, cuts=c["cuts"][:i] + c["cuts"][i + 1:])
            n = len(c["doc"])
            for t in cases.shrink_text(c["doc"]):       # keep each cut at the same distance from either end
                if c["cuts"]:
                    yield dict(c, doc=t, cuts=sorted({x for x in c["cuts"] if x < len(t)})); yield dict(c, doc=t, cuts=sorted({x - n + len(t) for x in c["cuts"] if x - n + len(t) > 0}))
            if c["flag"]: yield dict(c, flag=0)
            if "ctx" in c:
                if c["seed"]: yield dict(c, seed=0)
                if c["n"] > 2: yield dict(c, n=2)
                if c["train"] != "{}": yield dict(c, train="{}")
        for s in cases.shrink_steps(c["q"]): yield dict(c, q=s)
if __name__ == "__main__": prop.main(P(), "C21")
