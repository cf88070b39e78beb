import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import random, prop, cases, model, gen, texts
from engine import *
from srv import outputs

def mentioned(steps):
    out = set()
    for s in steps:
        if s[0] in ("key", "desc"): out.add(s[1])
        if s[0] == "filter":
            for p in model.paths_of(s[1]): out.update(p)
    return out
def tree(t, n):
    if n.kind == "o": return ("o", [(k, tree(t, c)) for k, c in n.kids])
    if n.kind == "a": return ("a", [tree(t, c) for _, c in n.kids])
    return ("v", model.raw(t, n))
def plain(v): return gen.render(v, gen.WS(None, "none"))
def squeeze(t): return plain(tree(t, model.parse(t)))
class Rnd(gen.RandChooser): pass

def rename(v, m): return ("o", [(m.get(k, k), rename(x, m)) for k, x in v[1]]) if v[0] == "o" else ("a", [rename(x, m) for x in v[1]]) if v[0] == "a" else v
def drop_added(v): return ("o", [(k, drop_added(x)) for k, x in v[1] if not k.startswith("+")]) if v[0] == "o" else ("a", [drop_added(x) for x in v[1]]) if v[0] == "a" else v
def scalars(v, path=()):
    if v[0] == "o":
        for k, x in v[1]: yield from scalars(x, path + (k,))
    elif v[0] == "a":
        for i, x in enumerate(v[1]): yield from scalars(x, path + (i,))
    else: yield path
def put(v, path, raw):
    if not path: return ("v", raw)
    if v[0] == "o": return ("o", [(k, put(x, path[1:], raw) if k == path[0] else x) for k, x in v[1]])
    return ("a", [put(x, path[1:], raw) if i == path[0] else x for i, x in enumerate(v[1])])
def respell(e, r):
    k = e[0]
    if k == "bin": e = ("bin", e[1], respell(e[2], r), respell(e[3], r))
    elif k == "not": e = ("not", respell(e[1], r))
    elif k == "par": e = ("par", respell(e[1], r))
    return ("par", e) if r.random() < .3 else e

MARK = ("7310517", "7310518", '"mark7310517"', '"m]{\\"a\\":1,mark7310517"', "-1.5e7310517")
def transform(doc, steps, rel):
    """-> (doc A, steps A, doc B, steps B, f, g): f(result A) must equal g(result B); None if the relation does not apply"""
    kind = rel[0]; r = random.Random(rel[1]); R = Rnd(rel[1])
    v = tree(doc, model.parse(doc)); ident = lambda x: x
    ment = mentioned(steps)
    if kind == "layout": return doc, steps, cases.render(R, v, rel[2]), steps, squeeze, squeeze
    if kind == "rename":
        keys = [k for k in gen.all_keys(v) if k not in ment]
        if not keys: return None
        new = [R.pick(["N%d", "%d,x", "array%d", "\\\"%d", "other%d", "{%d:"]) % i for i in range(len(keys))]
        if r.random() < .3 and len(keys) > 1: new = keys[1:] + keys[:1]
        m = dict(zip(keys, new))
        return doc, steps, plain(rename(v, m)), steps, lambda x: plain(rename(tree(x, model.parse(x)), m)), squeeze
    if kind == "scalar":
        ps = [p for p in scalars(v) if not any(s[0] == "filter" for s in steps) or (p and (isinstance(p[-1], int) or p[-1] not in ment))]
        if not ps: return None
        p = R.pick(ps); a, b = r.sample(MARK, 2)
        h = lambda w: lambda x: squeeze(x).replace(w, "#")
        return plain(put(v, p, a)), steps, plain(put(v, p, b)), steps, h(a), h(b)
    if kind == "add":
        if any(s[0] in ("any", "descany") for s in steps): return None
        cfg = dict(keys=["+p", "+q", "other", "array"][:2], strings="rich")
        c = [0]
        def add(x):
            if x[0] == "o":
                kids = [(k, add(y)) for k, y in x[1]]
                while r.random() < .4:
                    c[0] += 1
                    kids.insert(r.randint(0, len(kids)), ("+%d" % c[0], gen.gen_value(R, cfg, r.randint(0, 2))))
                return ("o", kids)
            return ("a", [add(y) for y in x[1]]) if x[0] == "a" else x
        w = add(v)
        if not c[0]: return None
        return doc, steps, plain(w), steps, squeeze, lambda x: plain(drop_added(tree(x, model.parse(x))))
    if kind == "wrap":
        k = rel[2]; ws = gen.WS(R, "any")
        pre = cases.render(R, gen.gen_value(R, dict(keys=["p", "q"]), 1), "none"); post = cases.render(R, gen.gen_value(R, dict(keys=["p", "q"]), 1), "none")
        if k == 0: return doc, steps, '{"w":%s}' % doc, (("key", "w"),) + steps, ident, ident
        if k == 1: return doc, steps, '[%s]' % doc, (("star",),) + steps, ident, ident
        if k == 2: return doc, steps, '{"p":%s,"w":%s,"q":%s}' % (pre, doc, post), (("key", "w"),) + steps, ident, ident
        if k == 3:
            return doc, steps, '[%s,%s,%s]' % (pre, doc, post), (("idx", 1),) + steps, ident, ident
        if k == 4:
            if steps[0][0] != "desc" or "w" in ment or "p" in ment or "q" in ment: return None
            return doc, steps, '{"p":%s,"w":%s,"q":%s}' % (pre, doc, post), steps, ident, ident
        if k == 5:
            if steps[0][0] == "desc" or steps[0][0] == "descany": return None
            return doc, steps, '{"w":{"w":[%s]}}' % doc, (("key", "w"), ("any",), ("slice", 0, 1)) + steps, ident, ident
    if kind == "spell":
        out = []; ch = False
        for s in steps:
            if s[0] == "idx" and r.random() < .7: s = ("slice", s[1], s[1] + 1); ch = True
            elif s[0] == "slice" and s[2] is not None and s[2] == (s[1] or 0) + 1 and r.random() < .7: s = ("idx", s[1] or 0); ch = True
            elif s[0] == "slice" and s[1] is None and r.random() < .7: s = ("slice", 0, s[2]); ch = True
            elif s[0] == "star" and r.random() < .5 and not model.has_desc_before(steps, ("star",)): s = ("slice", 0, None); ch = True
            elif s[0] == "filter":
                e = s[1]; k = r.randint(0, 4)
                if k == 0: e = ("bin", "&&", ("par", e), ("par", e))
                elif k == 1: e = ("not", ("par", ("not", ("par", e))))
                elif k == 2: e = ("bin", "||", ("par", e), ("par", e))
                elif k == 3: e = respell(e, r)
                else: e = ("bin", "||", ("bin", "==", ("num", "1"), ("num", "2")), ("par", e))
                s = ("filter", e); ch = True
            out.append(s)
        if not ch: return None
        return doc, steps, doc, tuple(out), ident, ident
    return None

class P(EngineProp):
    stepsets = [ALL, ALL, PATH, STRICT, STRICT, IDX, FIL, FILX, FILD, ["desc", "key", "star"], ["key", "star", "filter", "idx"]]
    quota = {"quick": 12800, "thorough": 200000}
    rule = ("random document and query, transformed: other layout, unmentioned keys renamed (also swapped), one untested scalar replaced, members added, document and query wrapped, query respelled; the engine's answers on both sides compared with each other "
            "(serial, parallel, optimised, several loads), no reference evaluator involved; non-trivial = the relation applies and both sides have at least one result")
    def gen(self, R, tier):
        cfg, d, q = self.make(R, tier)
        t = self.text(R, cfg, d); ops = []; qt = model.tup(q)
        for _ in range(4):
            kind = R.pick(["layout", "rename", "rename", "scalar", "add", "add", "wrap", "wrap", "spell"])
            rel = [kind, R.int(0, 1 << 20)] + ([R.pick(["none", "colon", "space", "any", "pretty", "long"])] if kind == "layout" else [4 if q[0][0] == "desc" and R.chance(50) else R.int(0, 5)] if kind == "wrap" else [])
            x = transform(t, qt, rel)
            if x and cases.tidy(x[1]) and cases.tidy(x[3]): break
        for _ in range(R.int(1, 3)):
            k = R.int(0, 9)
            if k < 4: ops.append("serial 0")
            elif k < 5: ops.append("serial %d" % fps(R, t))
            elif k < 8: ops.append("par %d 0 %d" % (cores(R), seeds(R)))
            elif k < 9: ops += ["train 0", "opt %d 0 %d" % (cores(R), seeds(R)), "freect"]
            else: ops.append("par %d %d %d" % (cores(R), fps(R, t), seeds(R)))
        return dict(docs=[t], queries=[q], ops=ops, rel=rel, v=R.pick(["fast", "fast", "asan"]))
    def judge(self, env, case):
        doc, steps = case["docs"][0], model.tup(case["queries"][0])
        skip = None, dict(skip=True, nontrivial=False, **{"class": "skipped"})
        x = transform(doc, steps, case["rel"])
        if x is None: return skip
        da, qa, db, qb, f, g = x
        if not cases.tidy(qa) or not cases.tidy(qb): return skip
        for d, q in ((da, qa), (db, qb)):
            if any(s[0] == "filter" for s in q):
                if model.has_desc_before(q, ("filter",)) and model.nested_tests(d, model.parse(d), q): return skip
                try: model.select(d, model.parse(d), q)
                except model.Undefined: return skip
        ra = env.call(case["v"], "run", da, model.show(qa), *case["ops"]); rb = env.call(case["v"], "run", db, model.show(qb), *case["ops"])
        oa, ob = outputs(ra), outputs(rb)
        info = dict(nontrivial=any(oa) and any(ob)); info["class"] = [case["rel"][0] + (str(case["rel"][2]) if case["rel"][0] == "wrap" else "")]
        runs = [o for o in case["ops"] if o.split()[0] in ("serial", "par", "opt")]
        for i, o in enumerate(runs):
            where = "%s, relation %s: %s of %s against %s of %s" % (o, case["rel"][0], model.show(qa), clip(da, 250), model.show(qb), clip(db, 250))
            if i >= len(oa) or i >= len(ob): return "%s: %s / %s" % (where, ra.why(), rb.why()), info
            if oa[i] is None or ob[i] is None: return "%s: no output" % where, info
            try:
                fa = [f(y.decode("latin-1")) for y in oa[i]]; gb = [g(y.decode("latin-1")) for y in ob[i]]
            except Exception: return "%s: results are not JSON: %s / %s" % (where, cliplist(oa[i]), cliplist(ob[i])), info
            if fa != gb: return "%s: %s / %s" % (where, cliplist(fa), cliplist(gb)), info
        if not ra.ok or not rb.ok: return "%s / %s at the end: %s %s" % (ra.why(), rb.why(), model.show(qa), clip(da, 200)), info
        return None, info
if __name__ == "__main__": prop.main(P(), "C10")
