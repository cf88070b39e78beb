import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import prop, texts, cases, gen, model
from engine import *
def lengths(R): return R.pick([98, 99, 100, 101, 102, 999, 1000, 1001, 1024, 3998, 3999, 4000, 4001, 4002, 8000, 8001, 20000])
def stretch(R, d):
    """some keys and scalars become very long; some objects get very many distinct keys"""
    def go(x):
        if x[0] == "v":
            if R.chance(15): n = lengths(R); return ("v", R.pick(['"' + "x" * n + '"', "1" * n, '"' + "\\\\" * (n // 2) + '"', '"' + '\\"' * (n // 2) + '"', '"' + ", [" * (n // 3) + '"']))
            return x
        if x[0] == "o":
            kids = [(k * lengths(R) if R.chance(4) else k, go(v)) for k, v in x[1]]
            if R.chance(4): kids += [("n%d" % i, ("v", "0")) for i in range(R.pick([30, 120, 1100]))]
            return ("o", kids)
        kids = [go(y) for y in x[1]]
        if R.chance(4) and kids: kids = kids * R.pick([10, 40, 200]) if len(str(kids)) < 400 else kids
        return ("a", kids)
    return go(d)
def states_query(R, cfg):
    """a path whose automaton has many states"""
    q = [("key", R.pick(cfg["keys"]))] * R.int(0, 1) + [("desc", R.pick(cfg["keys"]))] + [("any",)] * R.int(4, 8)
    if R.chance(40): q.append(("filter", gen.gen_expr(R, cfg, [], 2)))
    if R.chance(50): q.append(("key", R.pick(cfg["keys"])))
    return q
class P(prop.Prop):
    quota = {"quick": 8000, "thorough": 120000}
    cap = {"quick": 200, "thorough": 1500}
    variants = ("asan", "pat", "zero")
    rule = ("random complete and truncated (at any byte) documents, also with very long keys and values, more distinct keys than tables hold, many elements and depth up to 40, random paths of all kinds (also with several hundred automaton states), random sequences of training, serial, parallel and optimised runs (1-100 workers, footprints from 1 byte), frees and new processors; "
            "half of the cases under AddressSanitizer and UBSan, half executed twice with different contents of fresh stack and heap memory and the outputs compared; also partitioning, loading, tokenizing of raw texts and tables looked up; non-trivial = the document has at least three containers or the raw text at least five tokens")
    def gen(self, R, tier):
        if R.chance(12):
            t = texts.json_text(R, R.pick([0, 300, 4000, 8000])) if R.chance(60) else texts.raw_text(R)
            t = t[:R.int(0, len(t))] if R.chance(60) else t
            k = R.pick(["part", "partfile", "bload", "lex", "load"])
            return dict(cmd=[k, t] + {"part": [R.int(1, 40)], "partfile": [R.int(1, 40)], "bload": [R.int(1, max(1, len(t)))]}.get(k, []), v=R.pick(["asan", "mem"]))
        cfg = cases.base_cfg(R, R.pick([ALL, ALL, PATH, STRICT, IDX, FIL, FILX, FILD]))
        docs = []
        for i in range(R.pick([1, 1, 1, 2])):
            if R.chance(10): d = self.deep(R, cfg)
            else: d = cases.gen_doc(R, cfg)
            if i == 0: first = d
            if R.chance(20): d = stretch(R, d)
            t = cases.render(R, d)
            if R.chance(10): t = t.replace('"%s"' % R.pick(cfg["keys"]), '"%s"' % R.pick(cfg["keys"]))       # names given twice
            if R.chance(30): t = t[:R.int(0, len(t))]
            elif R.chance(4): t = R.pick(["", " ", "\n\n", "1", '"a"', "null", "-1.5 ", "{}", "[]", "[ ]", '""', '"' + "x" * 5000 + '"', "tru", "{", "[", '{"a"', '{"a":', '"', '[1,'])
            docs.append(t)
        q = states_query(R, cfg) if R.chance(8) else cases.gen_steps(R, cfg, first, R.pick([None, "filter", "index"]))
        queries = [q]
        if R.chance(15): queries.append(cases.gen_steps(R, cfg, first))
        ops = []; trained = False
        for _ in range(R.int(1, 5)):
            k = R.int(0, 11); t = docs[-1]; f = fps(R, t) if R.chance(50) else 0
            if len(t) > 3000 and f: f = max(f, len(t) // 40)
            if k < 3: ops.append("serial %d" % f)
            elif k < 6: ops.append("par %d %d %d" % (cores(R) if R.chance(85) else R.int(1, 100), f, seeds(R)))
            elif k < 9:
                if not trained: ops.append("train %d" % R.int(0, len(docs) - 1)); trained = True
                ops.append("opt %d %d %d" % (cores(R) if R.chance(85) else R.int(1, 100), f, seeds(R)))
            elif k == 9:
                if trained: ops.append("freect"); trained = False
            elif k == 10 and len(queries) > 1:
                ops.append("q 1")
                if trained: ops.append("freect"); trained = False
            elif len(docs) > 1: ops.append("use %d" % R.int(0, len(docs) - 1))
        return dict(docs=docs, queries=queries, ops=ops, v=R.pick(["asan", "mem"]))
    def deep(self, R, cfg):
        d = gen.gen_value(R, cfg, 2)
        for _ in range(R.int(10, 40)): d = ("a", [d] * R.pick([1, 1, 1, 2])) if R.chance(25) and len(str(d)) < 3000 else ("o", [(R.pick(cfg["keys"]), d)])
        return d
    def judge(self, env, case):
        try: return self.judge2(env, case)
        except prop.NoAnswer:           # a command that is not there
            if "cmd" not in case: raise
            return None, dict(nontrivial=False)
    def judge2(self, env, case):
        if "cmd" in case:
            f = [x if isinstance(x, str) else str(x) for x in case["cmd"]]; label = "%s(%s%s)" % (f[0], clip(f[1], 200), "".join(", " + x for x in f[2:]))
            info = dict(nontrivial=len([c for c in f[1] if c in '"{}[],']) >= 5); info["class"] = ["cmd:" + f[0], "memory:" + case["v"]]
        else:
            docs, queries = case["docs"], [model.tup(q) for q in case["queries"]]
            f = ["run", docs[0], model.show(queries[0])]
            for d in docs[1:]: f += ["doc", d]
            if len(docs) > 1: f.append("use 0")
            for o in case["ops"]: f += ["newpp", model.show(queries[int(o[2:])])] if o[0] == "q" else [o]
            label = "%s with %s on %s" % (case["ops"], [model.show(q) for q in queries], [clip(d, 200) for d in docs])
            info = dict(nontrivial=any(d.count("{") + d.count("[") >= 3 for d in docs) and bool(case["ops"]))
            c = {"step:" + s[0] for q in queries for s in q} | {"op:" + o.split()[0] for o in case["ops"]} | {"memory:" + case["v"]}
            for d in docs: c.add("document:" + ("long" if len(d) > 3000 else "complete" if d.strip()[-1:] in ("}", "]") and d.count("{") == d.count("}") and d.count("[") == d.count("]") else "truncated or odd"))
            info["class"] = sorted(c)
        vs = ["asan"] if case["v"] == "asan" else ["pat", "zero"]
        rs = [env.call(v, *f) for v in vs]
        for r in rs:
            if not r.ok: return "%s: %s" % (label, r.why()), info
        if len(rs) == 2 and rs[0].data != rs[1].data:
            return "%s: outputs depend on what the memory contained before: %s / %s" % (label, clip(rs[0].data, 200), clip(rs[1].data, 200)), info
        return None, info
    def shrink(self, c):
        if "cmd" in c:
            for t in texts.shrink_raw(c["cmd"][1]): yield dict(c, cmd=[c["cmd"][0], t] + c["cmd"][2:])
            return
        for o in cases.shrink_ops(c["ops"]): yield dict(c, ops=o)
        for i, d in enumerate(c["docs"]):
            g = cases.shrink_text
            try: model.parse(d)
            except Exception: g = texts.shrink_raw
            for t in g(d):
                if balanced(t): yield dict(c, docs=c["docs"][:i] + [t] + c["docs"][i + 1:])
        for i, q in enumerate(c["queries"]):
            for s in cases.shrink_steps(q): yield dict(c, queries=c["queries"][:i] + [s] + c["queries"][i + 1:])
def balanced(t):
    """a prefix of some JSON text, as far as brackets go (a shrunk document must stay in the domain)"""
    st = []; want = "v"
    for k, s, e, x in texts.tokens(t) if texts_ok(t) else [(0, 0, 0, "")]:
        if k == 0: return False
        if k in (1, 3):
            if want not in ("v", "v]"): return False
            st.append(k); want = "k}" if k == 1 else "v]"
        elif k in (2, 4):
            if not st or st[-1] != k - 1 or want not in (",", "k}" if k == 2 else "v]"): return False
            st.pop(); want = ","
        elif k == 5:
            if want != "," or not st: return False
            want = "k" if st[-1] == 1 else "v"
        elif k == 6:
            if want not in ("k", "k}"): return False
            want = "v"
        else:
            if want not in ("v", "v]"): return False
            want = ","
    return True
def texts_ok(t):
    """the reference tokenizer reads complete tokens only"""
    try: texts.tokens(t); return True
    except Exception: return False
if __name__ == "__main__": prop.main(P(), "C16")
