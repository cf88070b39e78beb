import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import prop, cases, gen, model, texts, scale
from engine import *
from srv import Reader
STATES, KEYLEN, TABLE = 100, 100, 1000        # what a table is documented to hold: states per symbol, length of a key, symbols
class P(prop.Prop):
    quota = {"quick": 14400, "thorough": 250000}
    variants = ("asan", "fast")
    rule = ("random documents (also with hostile keys, keys around 100 characters, keys called like table internals, up to 1300 distinct keys, one key at up to 44 states) x random paths of all kinds; every key of the document, prefixes of long keys, keys of the path and keys that do not occur are looked up in the collected table and compared with the states in which a "
            "reference walk of the processor's automaton over the document meets them; non-trivial = some symbol is met in two states or more")
    def gen(self, R, tier):
        if R.chance(2):
            t, q = scale.build(scale.recipe(R, ["chain"]))
            return dict(doc=t, q=q, extra=["b", "e", "zz"], v="fast")
        cfg = cases.base_cfg(R, R.pick([ALL, ALL, PATH, PATH, STRICT, IDX, FIL, FILX, FILD]))
        d = cases.gen_doc(R, cfg)
        q = cases.gen_steps(R, cfg, d, R.pick([None, None, "filter", "index"]))
        k = R.int(0, 9)
        if k < 3: d = texts.harden(R, d)
        elif k == 3: d = ("o", [("w", ("o", [("n%d" % i, R.pick([("v", "1"), ("a", []), ("o", [])])) for i in range(R.pick([990, 1001, 1300]))])), ("n5", d)]) if R.chance(30) else d
        elif k == 4: d = self.longkeys(R, d)
        extra = [R.pick(["zz", "array", "other", "[", "a.b", "", "k", "n5", "aa"]) for _ in range(3)] + [R.pick(cfg["keys"])]
        return dict(doc=cases.render(R, d), q=q, extra=extra, v=R.pick(["asan", "fast", "fast"]))
    def longkeys(self, R, d):
        def go(x):
            if x[0] == "o":
                out = {}
                for k, v in x[1]: out.setdefault(("L" * (R.pick([98, 99, 100, 101, 150]) - len(k)) + k) if R.chance(30) else k, go(v))
                return ("o", list(out.items()))
            return ("a", [go(y) for y in x[1]]) if x[0] == "a" else x
        return go(d)
    def judge(self, env, case):
        t = case["doc"]; steps = model.tup(case["q"]); path = model.show(steps)
        root = model.parse(t)
        met = {}; order = []
        keys = []; seen = set()
        def collect(n):
            for k, c in n.kids:
                if n.kind == "o" and k not in seen: seen.add(k); keys.append(k)
                collect(c)
        collect(root)
        look = keys + [k[:KEYLEN - 1] for k in keys if len(k) >= KEYLEN] + [k for k in case["extra"]]
        r = env.call(case["v"], "ct", t, path, "\1[", *look)
        info = dict(nontrivial=False); where = "constraints of %s for %s" % (clip(t, 300), path)
        if not r.ok: return "%s: %s" % (where, r.why()), info
        d = Reader(r.data); S, I = d.i32(), d.i32(); names = [d.s() for _ in range(I)]; names = [x.decode("latin-1") for x in names]
        rows, idx = [], []
        for _ in range(S): rows.append([d.i32() for _ in range(I)]); idx.append((d.i32(), d.i32()))
        if d.i32() != 1: return "%s: no table" % where, info
        def nxt(s, k): return rows[s][2 if k is None else names.index(k, 3) if k in names[3:] else 1]
        def walk(n, s):
            if n.kind == "a": met.setdefault(None, set()).add(s)
            for k, c in n.kids:
                if n.kind == "o": met.setdefault(k, set()).add(s); walk(c, nxt(s, k))
                else:
                    e = nxt(s, None); lo, hi = idx[e]
                    walk(c, e if (lo, hi) == (0, 0) or lo <= k < hi else 0)
        walk(root, 1)
        many = len(keys) + 1 > TABLE
        for sym in [None] + look:
            n = d.i32(); got = [d.i32() for _ in range(max(n, 0))]
            name = "arrays" if sym is None else "key %s" % clip(sym, 60)
            want = met.get(sym, set())
            if not want:
                if n > 0: return "%s: states %s for %s, which do not occur" % (where, got, name), info
                continue
            if any(not 0 <= x < S for x in got): return "%s: %s has states %s of %d" % (where, name, got, S), info
            if len(set(got)) != len(got): return "%s: %s has a state twice: %s" % (where, name, got), info
            free = S > STATES or (sym is not None and len(sym) >= KEYLEN) or many     # the table may have no room for it
            if n <= 0 and free: continue
            if not want <= set(got) and S <= STATES: return "%s: %s occurs in states %s, the table has %s" % (where, name, sorted(want), got), info
            if len(want) > 1: info["nontrivial"] = True
        if not info["nontrivial"]: info["nontrivial"] = any(len(v) > 1 for v in met.values())
        info["class"] = ["keys:" + ("0-3" if len(keys) < 4 else "4-20" if len(keys) < 21 else "21+" if not many else "more than the table holds"), "long keys" if any(len(k) >= KEYLEN for k in keys) else "short keys", "states:" + ("<10" if S < 10 else "10+" if S <= STATES else "more than the workers hold")] + sorted({"step:" + s[0] for s in steps})
        return None, info
    def shrink(self, c):
        for t in cases.shrink_text(c["doc"]): yield dict(c, doc=t)
        for q in cases.shrink_steps(c["q"]): yield dict(c, q=q)
        for i in range(len(c["extra"])): yield dict(c, extra=c["extra"][:i] + c["extra"][i + 1:])
if __name__ == "__main__": prop.main(P(), "C18")
