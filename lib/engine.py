"""Properties decided by running the engine (jpsrv 'run') against the reference model."""
import re
import cases, gen, model
from prop import Prop
from srv import outputs

PATH = ["key", "key", "any", "desc", "descany", "star"]
STRICT = ["key", "any", "star"]
IDX = ["key", "any", "star", "idx", "slice"]
IDXD = ["key", "any", "star", "idx", "slice", "desc"]
FIL = ["key", "star", "filter", "any"]
FILX = ["key", "star", "filter", "any", "idx", "slice"]
FILD = ["key", "star", "filter", "desc"]
ALL = ["key", "any", "desc", "descany", "star", "idx", "slice", "filter"]

def is_token_start(t, i):
    """where the documentation of the code allows a text to be split"""
    if t[i] != '"': return False
    j = i - 1
    while j >= 0 and t[j] in " \t\n\r": j -= 1
    if j < 0 or t[j] not in ",{[": return False
    j = i + 1
    while j < len(t) and t[j] in " \t\n\r": j += 1
    return j < len(t) and t[j] not in ",:]}"

def chunk_count(t, n):
    """number of chunks a partition into n would have (statistics only)"""
    size = len(t) // n + 1; pos = 0; k = 0
    while k < n and (k == 0 or pos < len(t)):
        e = min(pos + size, len(t))
        if k == n - 1: e = len(t)
        while e < len(t) and not is_token_start(t, e): e += 1
        pos = e; k += 1
    return k

def load_count(t, fp):
    return 1 if fp <= 0 else len(range(0, len(t), max(1, fp)))

def clip(b, n=160):
    s = b.decode("latin-1") if isinstance(b, bytes) else str(b)
    return s if len(s) <= n else s[:n] + "...(%d)" % len(s)

def cliplist(l, n=6):
    if l is None: return "NULL"
    return "[" + ", ".join(clip(x, 80) for x in l[:n]) + (", ...%d results" % len(l) if len(l) > n else "") + "]"

class EngineProp(Prop):
    """case: {"docs": [text], "queries": [steps], "ops": [...], "v": variant}
    ops: 'serial FP' 'par N FP SEED' 'opt N FP SEED' 'train DOC' 'freect' 'use DOC' 'q QUERY' (old processor freed)"""
    stepsets = [PATH]
    shapes = None
    must = None
    cfg = {}
    variants = ("asan", "fast")
    fast_pct = 50
    def make(self, R, tier):
        cfg = cases.base_cfg(R, R.pick(self.stepsets), **self.cfg)
        x = self.scaled(R)
        if x: return cfg, cases.tree(x[0]), x[1]
        d = cases.gen_doc(R, cfg, self.shapes)
        q = cases.gen_steps(R, cfg, d, self.must if R.chance(80) else None)
        return cfg, d, q
    def text(self, R, cfg, d): return cases.render(R, d)
    scale_pct = 2            # documents scaled along one dimension (scale.py) with steps of this property's kinds
    def scaled(self, R):
        if not self.scale_pct or not R.chance(self.scale_pct): return None
        import scale
        return scale.fitting(R, {k for s in self.stepsets for k in s} | {"key"}, self.must)
    def gen(self, R, tier):
        cfg, d, q = self.make(R, tier)
        t = self.text(R, cfg, d)
        return dict(docs=[t], queries=[q], ops=self.ops(R, t, tier), v="fast" if R.chance(self.fast_pct) else "asan")
    def ops(self, R, t, tier): return ["serial 0"]
    def nontrivial(self, case, wants): return any(w for w in wants)
    def classify(self, case, wants):
        c = set()
        for q in case["queries"]:
            for s in q: c.add("step:" + s[0])
        n = max([len(w) for w in wants], default=0)
        c.add("results:" + ("0" if n == 0 else "1" if n == 1 else "2-9" if n < 10 else "10+"))
        t = case["docs"][0]
        if len(t) > 4000: c.add("document>4k")
        for o in case["ops"]:
            f = o.split()
            if f[0] in ("par", "opt") and chunk_count(t, int(f[1])) > 1: c.add("chunks>1")
            if f[0] == "serial" and int(f[1]) and load_count(t, int(f[1])) > 1: c.add("loads>1")
            if f[0] in ("par", "opt") and int(f[2]) and load_count(t, int(f[2])) > 1: c.add("loads>1")
            if f[0] in ("par", "opt") and int(f[3]): c.add("threads refused" if int(f[3]) & REFUSE else "scheduled")
        return sorted(c)
    def judge(self, env, case):
        docs, queries = case["docs"], [model.tup(q) for q in case["queries"]]
        fields = []; wants = []; labels = []
        for d in docs[1:]: fields += ["doc", d]
        if len(docs) > 1: fields.append("use 0")
        cur, qi = 0, 0; memo = {}
        for o in case["ops"]:
            f = o.split()
            if f[0] == "q":
                qi = int(f[1]); fields += ["newpp", model.show(queries[qi])]; continue
            fields.append(o)
            if f[0] == "use": cur = int(f[1])
            if f[0] in ("serial", "par", "opt"):
                if (cur, qi) not in memo:
                    w, why = self.reference(docs[cur], queries[qi], case.get("force", False))
                    if why: return None, dict(skip=True, nontrivial=False, **{"class": "skipped"})
                    memo[cur, qi] = w
                wants.append(memo[cur, qi]); labels.append((o, cur, qi))
        r = env.call(case.get("v", "asan"), "run", docs[0], model.show(queries[0]), *fields)
        got = outputs(r)
        info = dict(nontrivial=self.nontrivial(case, wants))
        info["class"] = self.classify(case, wants)
        for i, w in enumerate(wants):
            o, dc, qi = labels[i]
            where = "%s on document %s with query %s" % (o, clip(docs[dc], 300), model.show(queries[qi]))
            if i >= len(got): return "%s: %s" % (where, r.why()), info
            if not self.same(got[i], w):
                return "%s: got %s, expected %s" % (where, cliplist(got[i]) if got[i] != "NOPP" else "no processor", cliplist(w)), info
        if not r.ok: return "%s after the last operation (query %s, document %s)" % (r.why(), model.show(queries[0]), clip(docs[0], 300)), info
        return None, info
    def same(self, got, want): return got == want
    def reference(self, doc, steps, force=False): return cases.expected(doc, steps, force)
    def shrink(self, case):
        for o in cases.shrink_ops(case["ops"]): yield dict(case, ops=o)
        for i, d in enumerate(case["docs"]):
            for t in cases.shrink_text(d): yield dict(case, docs=case["docs"][:i] + [t] + case["docs"][i + 1:])
        for i, q in enumerate(case["queries"]):
            for s in cases.shrink_steps(q): yield dict(case, queries=case["queries"][:i] + [s] + case["queries"][i + 1:])

def cores(R): return R.pick([1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 12, 16, 16, 24, 33])
def fps(R, t):
    if len(t) > 20000: return max(1, len(t) // R.pick([1, 2, 3, 5, 9, 20, 60]) + R.int(-2, 2))
    return R.pick([0, 1, 2, 3, 5, 7, 9, 11, 15, 20, 30, 40, 80]) if R.chance(60) else R.int(1, max(1, len(t)))
REFUSE, FREE_RUN = 1 << 22, 1 << 23
def seeds(R):
    """schedule of the workers: below 2^21 one after the other in some order, above interleaved; with 2^22 threads are refused (harness/sched_shim.c)"""
    n = R.int(1, 1 << 20) + (REFUSE if R.chance(3) else 0)
    return n + (1 << 21) if R.chance(40) else n

def real_loads(t, fp):
    """number of loads with this footprint (statistics only)"""
    if fp <= 0: return 1
    pos = n = 0
    while pos < len(t):
        e = min(pos + fp, len(t)); n += 1
        while e < len(t) and not is_token_start(t, e): e += 1
        pos = e
    return n

def mutate(R, cfg, d):
    """an altered copy of a document tree: members dropped, renamed, added, moved into other kinds of containers"""
    def go(x):
        k = R.int(0, 19)
        if k == 0: return gen.gen_value(R, cfg, 1)
        if x[0] == "o":
            kids = [(kk, go(v)) for kk, v in x[1] if not R.chance(8)]
            if kids and R.chance(10):
                i = R.int(0, len(kids) - 1); nk = R.pick(cfg["keys"])
                if all(nk != kk for kk, _ in kids): kids[i] = (nk, kids[i][1])
            if k == 1: return ("a", [v for _, v in kids])
            return ("o", kids)
        if x[0] == "a":
            kids = [go(v) for v in x[1] if not R.chance(8)]
            if k == 2: return ("o", [("k%d" % i, v) for i, v in enumerate(kids)])
            return ("a", kids)
        return x
    return go(d)
