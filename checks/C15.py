import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import re, prop, cases, model
from engine import *
from srv import outputs
KEY = re.compile(r'"((?:[^"\\\n]|\\.){0,90})"[ \t\r\n]*:')
class P(prop.Prop):
    """case: docs, queries, ops (see the hist command of jpsrv); a slot's query is given by its number"""
    quota = {"quick": 5100, "thorough": 80000}
    variants = ("asan", "fast")
    rule = ("random histories of 4-30 operations over up to 4 documents (whose files change or vanish in between), 4 queries, 3 processors, 3 constraint tables and all run modes; every output is compared with the reference when it is made and again at the end of the history "
            "(outputs stay valid while other runs happen); non-trivial = at least three runs with results, of at least two processors or two documents")
    def gen(self, R, tier):
        docs, queries = [], []
        for _ in range(R.int(1, 4)):
            kinds = R.pick([ALL, PATH, STRICT, IDX, FIL, FILX, FILD])
            cfg = cases.base_cfg(R, kinds); d = cases.gen_doc(R, cfg)
            docs.append(cases.render(R, d)); queries.append(cases.gen_steps(R, cfg, d, R.pick([None, "filter", "index"]) if R.chance(50) else None))
            if R.chance(30): docs.append(cases.render(R, mutate(R, cfg, d)))
        docs = docs[:4]
        while len(queries) < 2:
            queries.append(cases.gen_steps(R, cfg, d))
        if R.chance(10): docs.append(R.pick(["", "{}", "[]"]))
        pp = {}; ct = {}; ops = []; held = []; runs = 0; now = list(docs); tree = d; digit = str.maketrans("0123456789", "1234567891")
        for _ in range(R.int(4, 30)):
            k = R.int(0, 19)
            if R.chance(7):         # the file changes between two runs
                i = R.int(0, len(docs) - 1)
                if R.chance(10): ops.append(["gone", i]); continue
                x = R.int(0, 3)
                now[i] = re.sub('"(a|b)"', lambda m: '"b"' if m.group(1) == "a" else '"a"', now[i]) if x == 3 else now[i].translate(digit) if x == 0 else docs[R.int(0, len(docs) - 1)] if x == 1 else cases.render(R, mutate(R, cfg, tree))
                ops.append(["edit", i, now[i]]); continue
            if not pp or k < 2:
                s = R.int(0, 2)
                if s in pp: ops.append(["delpp", s])
                pp[s] = R.int(0, len(queries) - 1); ops.append(["pp", s, pp[s]])
            elif k == 2:
                s = R.pick(sorted(pp)); del pp[s]; ops.append(["delpp", s])
            elif k < 6:
                c = R.int(0, 2); s = R.pick(sorted(pp))
                if c in ct: ops.append(["delct", c])
                ct[c] = pp[s]; ops.append(["ct", c, s, R.int(0, len(docs) - 1)])
                if R.chance(50): ops.append(["look", c])
            elif k == 6:
                if ct: c = R.pick(sorted(ct)); del ct[c]; ops.append(["delct", c])
            elif k == 7:
                if held: r = R.pick(held); held.remove(r); ops.append(["drop", r])
            else:
                s = R.pick(sorted(pp)); d = R.int(0, len(docs) - 1)
                fp = fps(R, now[d]) if R.chance(30) else 0
                if k < 11: ops.append(["serial", s, d, fp])
                elif k < 15: ops.append(["par", s, d, cores(R), fp, seeds(R)])
                else:
                    ok = [c for c in ct if ct[c] == pp[s]]
                    ops.append(["opt", s, d, cores(R), fp, seeds(R), R.pick(ok) if ok and R.chance(90) else -1])
                held.append(runs); runs += 1
        return dict(docs=docs, queries=queries, ops=ops, v="fast" if R.chance(50) else "asan")
    def judge(self, env, c):
        docs, queries = c["docs"], [model.tup(q) for q in c["queries"]]
        f = []; want = []; label = []; looks = []; pp = {}; ct = {}; memo = {}; held = {}; now = list(docs)
        for o in c["ops"]:
            k = o[0]
            if k == "edit": now[o[1]] = o[2]; f += ["edit %d" % o[1], o[2]]; continue
            if k == "gone": now[o[1]] = ""; f.append("gone %d" % o[1]); continue
            if k == "pp":
                if o[1] in pp: return None, dict(skip=True, nontrivial=False)
                pp[o[1]] = o[2]; f += ["pp %d" % o[1], model.show(queries[o[2]])]; continue
            if k in ("delpp", "serial", "par", "opt") and o[1] not in pp: return None, dict(skip=True, nontrivial=False)
            if k == "delpp": del pp[o[1]]
            elif k == "ct":
                if o[1] in ct or o[2] not in pp: return None, dict(skip=True, nontrivial=False)
                ct[o[1]] = pp[o[2]], now[o[3]]
            elif k == "look":     # the table is the one a first call makes
                if o[1] not in ct: return None, dict(skip=True, nontrivial=False)
                q, t = ct[o[1]]
                if not t.strip(): continue
                ks = "\n".join(["["] + sorted({x for x in KEY.findall(t)} | {"a", "array", "other"})[:40])
                if (q, t) not in memo:
                    x = outputs(env.call(c["v"], "hist", 1, t, "pp 0", model.show(queries[q]), "ct 0 0 0", "look 0", ks))
                    memo[q, t] = x[0] if x else None
                looks.append((len(want), memo[q, t], o, q, t)); f += ["look %d" % o[1], ks]; continue
            elif k == "delct":
                if o[1] not in ct: return None, dict(skip=True, nontrivial=False)
                del ct[o[1]]
            elif k == "drop":
                if o[1] not in held: return None, dict(skip=True, nontrivial=False)
                del held[o[1]]
            elif k in ("serial", "par", "opt"):
                if k == "opt" and o[6] >= 0 and ct.get(o[6], [-1])[0] != pp[o[1]]: return None, dict(skip=True, nontrivial=False)
                key = (now[o[2]], pp[o[1]])
                if key not in memo:
                    w, why = cases.expected(now[o[2]], queries[pp[o[1]]]) if now[o[2]].strip() else (None, None)
                    if why: return None, dict(skip=True, nontrivial=False)
                    memo[key] = w
                held[len(want)] = 1; want.append(memo[key]); label.append((o, key))
            f.append(" ".join(str(x) for x in o))
        for n, (i, w, o, q, t) in enumerate(looks): want.insert(i + n, w); label.insert(i + n, (o, (t, q)))
        r = env.call(c["v"], "hist", len(docs), *docs, *f)
        got = outputs(r)
        info = dict(nontrivial=sum(1 for w, l in zip(want, label) if w and l[0][0] != "look") >= 3 and len({l[1] for l in label}) > 1)
        info["class"] = ["runs:" + ("0-2" if len(want) < 3 else "3-9" if len(want) < 10 else "10+"), "slots:%d" % len({o[1] for o in c["ops"] if o[0] == "pp"})] + sorted({"op:" + o[0] for o in c["ops"]})
        hist = "history %s, queries %s, documents %s" % (f, [model.show(q) for q in queries], [clip(d, 200) for d in docs])
        for i, w in enumerate(want):
            if i >= len(got): return "%s: %s at run %d (%s)" % (hist, r.why(), i, label[i][0]), info
            if got[i] != w: return "run %d (%s) of %s: got %s, expected %s" % (i, label[i][0], hist, cliplist(got[i]), cliplist(w)), info
        if not r.ok: return "%s: %s at the end" % (hist, r.why()), info
        runs = [i for i, l in enumerate(label) if l[0][0] != "look"]
        later = [runs[i] for i in sorted(held) if want[runs[i]] is not None]
        rest = got[len(want):]
        for i, g in zip(later, rest):
            if g != want[i]: return "output of run %d (%s) changed afterwards to %s, expected %s; %s" % (i, label[i][0], cliplist(g), cliplist(want[i]), hist), info
        if len(rest) != len(later): return "%s: %d outputs at the end, expected %d" % (hist, len(rest), len(later)), info
        return None, info
    def shrink(self, c):
        n = len(c["ops"])
        for w in (n // 2, n // 4, 3, 2, 1):
            if w:
                for i in range(0, n, w): yield dict(c, ops=c["ops"][:i] + c["ops"][i + w:])
        for i, d in enumerate(c["docs"]):
            for t in cases.shrink_text(d): yield dict(c, docs=c["docs"][:i] + [t] + c["docs"][i + 1:])
        for i, q in enumerate(c["queries"]):
            for s in cases.shrink_steps(q): yield dict(c, queries=c["queries"][:i] + [s] + c["queries"][i + 1:])
        for i, o in enumerate(c["ops"]):
            if o[0] == "par" and o[3] > 1: yield dict(c, ops=c["ops"][:i] + [["serial", o[1], o[2], o[4]]] + c["ops"][i + 1:])
            for j, x in enumerate(o[1:], 1):
                if o[0] in ("par", "opt", "serial") and j > 2 and isinstance(x, int) and x > 1: yield dict(c, ops=c["ops"][:i] + [o[:j] + [1] + o[j + 1:]] + c["ops"][i + 1:])
if __name__ == "__main__": prop.main(P(), "C15")
