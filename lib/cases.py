"""Generation, rendering and shrinking of (document, query) cases."""
import json, os
import gen, model
from model import tup

NOISE_KEYS = ["", "", "", " ", "}", "a,b", "[0]", 'q\\"x', "\\\\", "k:", "\xc3\xa9", "$", "@", "a.b", "{", "other", "array", "true", "A" * 30]
KEYS = gen.KEYS + ["other", "array"]
LONG = "a_key_of_some_length_"
HUGE = [2147483646, 2147483647, 2147483648, 4294967295, 4294967296, 4294967297, 10 ** 12, 9223372036854775807, 18446744073709551616, 10 ** 30]      # beyond what an int holds
FAMILIES = [["a", "aa", "ab", "aab"], ["a", "A", "b", "B"], ["id", "ID", "id_str", "idx", "i"], [LONG * 2 + "1", LONG * 2 + "2", LONG * 2, LONG], [LONG * 4 + "x", LONG * 4 + "y", "z_" + LONG * 4, "x"]]

def base_cfg(R, steps, tier="quick", **kw):
    cfg = dict(steps=steps, strings=R.pick(["plain", "safe", "rich", "rich"]), keys=R.pick([["a", "b"], ["a", "b", "c"], KEYS, KEYS]) if not R.chance(15) else R.pick(FAMILIES),
               width=R.pick([2, 3, 4, 6]), qlen=R.pick([1, 2, 3, 3, 4, 5]), noise=R.pick([0, 0, 5, 20, 40]))
    cfg.update(kw)
    return cfg

def tree(text):
    """a JSON text (ASCII, no escapes in names) as a tree"""
    def conv(x): return ("a", [conv(y) for y in x]) if isinstance(x, list) else ("o", [(k, conv(y)) for k, y in x[1]]) if isinstance(x, tuple) and x[0] == "o" else x if isinstance(x, tuple) else ("v", json.dumps(x))
    return conv(json.loads(text, object_pairs_hook=lambda kv: ("o", kv), parse_int=lambda x: ("v", x), parse_float=lambda x: ("v", x)))
_real = None
real_names = []
def real_trees():
    """the sample data sets of the repository, as trees (none if they are gone)"""
    global _real
    if _real is None:
        _real = []
        d = os.path.join(os.environ.get("JPS_REPO", "/repo"), "dataset")
        for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
            try:
                t = open(os.path.join(d, f), encoding="latin1", newline="").read()
                _real.append(json.loads(t, object_pairs_hook=lambda kv: ("o", kv), parse_int=lambda x: ("v", x), parse_float=lambda x: ("v", x)))
                real_names.append(f)
            except ValueError: pass
        def text(x):
            # a character written as an escape in the file is beyond what the harness' Latin-1 (byte) texts hold: write the escape again
            return json.dumps(x, ensure_ascii=any(ord(c) > 255 for c in x)) if isinstance(x, str) else json.dumps(x)
        def conv(x):
            if isinstance(x, list): return ("a", [conv(y) for y in x])
            if isinstance(x, tuple) and x[0] == "o":
                seen = {}
                for k, y in x[1]: seen.setdefault(k, y)
                return ("o", [(text(k)[1:-1], conv(y)) for k, y in seen.items()])
            if isinstance(x, tuple): return x
            return ("v", text(x))
        _real = [conv(x) for x in _real]
    return _real

def gen_real(R):
    """a part of a real document: a random subtree, every array and large object cut down to a random selection of its members"""
    t = R.pick(real_trees())
    for _ in range(R.pick([0, 0, 1, 2, 3])):
        subs = [x[1] if t[0] == "o" else x for x in t[1] if (x[1] if t[0] == "o" else x)[0] != "v"]
        if not subs: break
        t = R.pick(subs)
    keep = R.pick([2, 3, 4, 6])
    budget = [R.pick([60, 150, 300])]
    def cut(v, d):
        if v[0] == "v": return v
        kids = v[1]
        n = keep if d else max(keep, 3)
        if v[0] == "o": n *= 2
        if len(kids) > n:
            i = R.int(0, len(kids) - n)
            kids = kids[i:i + n]
        out = []
        for x in kids:
            budget[0] -= 1
            if budget[0] < 0: break
            out.append((x[0], cut(x[1], d + 1)) if v[0] == "o" else cut(x, d + 1))
        return (v[0], out)
    t = cut(t, 0)
    return t

def gen_doc(R, cfg, size=None):
    """tree of a document"""
    shape = R.pick(size or ["small", "small", "small", "med", "med", "records", "records", "deep", "wide", "nested", "real"])
    if shape == "real":
        if real_trees(): return gen_real(R)
        shape = "records"
    if shape == "small": return noise(R, cfg, gen.gen_container(R, cfg, R.int(1, 4), R.pick("ooa")))
    if shape == "med":
        c = dict(cfg); c["width"] = max(4, cfg["width"])
        return noise(R, cfg, gen.gen_container(R, c, R.int(3, 5), R.pick("ooa")))
    if shape == "records":
        n = R.int(2, 12)
        ks = [R.pick(cfg["keys"]) for _ in range(R.int(1, 4))]
        ks = list(dict.fromkeys(ks))
        kinds = {k: R.pick(["v", "v", "v", "o", "a", "ao", "n"]) for k in ks}
        chain = [R.pick(cfg["keys"]) for _ in range(R.int(2, 5))]
        def rec():
            out = []
            for k in ks:
                if R.chance(12): continue
                kd = kinds[k] if not R.chance(8) else R.pick(["v", "o", "a"])
                if kd == "v": out.append((k, ("v", gen.scalar(R, cfg))))
                elif kd == "o": out.append((k, gen.gen_container(R, cfg, 1, "o")))
                elif kd == "n":
                    x = ("v", gen.scalar(R, cfg))
                    for c in chain[:R.int(1, 5)]:
                        kids = [(c, x)]
                        if R.chance(25):
                            c2 = R.pick(cfg["keys"])
                            if c2 != c: kids.insert(R.int(0, 1), (c2, gen.gen_value(R, cfg, 1)))
                        x = ("o", kids)
                    out.append((k, x))
                elif kd == "a": out.append((k, gen.gen_container(R, cfg, 1, "a")))
                else: out.append((k, ("a", [gen.gen_container(R, cfg, 1, "o") for _ in range(R.int(0, 3))])))
            return ("o", out)
        v = ("a", [rec() if not R.chance(6) else gen.gen_value(R, cfg, 1) for _ in range(n)])
        for _ in range(R.int(0, 2)):
            if R.chance(80):
                sib = [(k, gen.gen_value(R, cfg, 1)) for k in {R.pick(cfg["keys"])}] if R.chance(40) else []
                k = R.pick(cfg["keys"])
                v = ("o", [x for x in sib if x[0] != k] + [(k, v)] if R.chance(50) else [(k, v)] + [x for x in sib if x[0] != k])
            else: v = ("a", [v] + ([gen.gen_value(R, cfg, 1)] if R.chance(40) else []))
        return noise(R, cfg, v)
    if shape == "deep":
        d = R.int(5, 22)
        v = gen.gen_value(R, cfg, 1)
        for _ in range(d):
            if R.chance(60):
                k = R.pick(cfg["keys"]); kids = [(k, v)]
                if R.chance(25):
                    k2 = R.pick(cfg["keys"])
                    if k2 != k: kids.insert(R.int(0, 1), (k2, gen.gen_value(R, cfg, 1)))
                v = ("o", kids)
            else:
                kids = [v]
                for _ in range(R.int(0, 2)):
                    if R.chance(40): kids.insert(R.int(0, len(kids)), gen.gen_value(R, cfg, 1))
                v = ("a", kids)
        if v[0] == "v": v = ("a", [v])
        return v
    if shape == "nested":       # arrays of arrays of values
        def arr(k):
            if k == 0: return gen.gen_value(R, cfg, R.int(0, 2))
            return ("a", [arr(k - 1) if R.chance(85) else gen.gen_value(R, cfg, 1) for _ in range(R.int(0, 4))])
        v = arr(R.int(1, 3))
        if v[0] == "v": v = ("a", [v])
        if R.chance(50): v = ("o", [(R.pick(cfg["keys"]), v)])
        return v
    # wide
    n = R.int(10, 30)
    kind = R.pick(["scalars", "mixed", "objs"])
    items = [("v", gen.scalar(R, cfg)) if kind == "scalars" else gen.gen_value(R, cfg, 1) if kind == "mixed" else gen.gen_container(R, cfg, 1, "o") for _ in range(n)]
    v = ("a", items)
    return ("o", [(R.pick(cfg["keys"]), v)]) if R.chance(60) else v

def noise(R, cfg, v):
    p = cfg.get("noise", 0)
    if not p: return v
    def go(x):
        if x[0] == "o":
            kids = [(k, go(y)) for k, y in x[1]]
            if R.chance(p):
                k = R.pick(NOISE_KEYS)
                if all(k != kk for kk, _ in kids): kids.insert(R.int(0, len(kids)), (k, gen.gen_value(R, cfg, 1)))
            return ("o", kids)
        if x[0] == "a": return ("a", [go(y) for y in x[1]])
        return x
    return go(v)

def render(R, v, mode=None):
    mode = mode or R.pick(["none", "colon", "space", "any", "any", "any", "pretty"]) if not R.chance(4) else "long"
    ws = gen.WS(R, mode)
    t = gen.render(v, ws)
    if mode in ("space", "any", "long"): t = ws("lead") + t + ws("trail")
    return t

def tidy(steps):
    """query inside the decided domain: no descendant step before an index, slice"""
    return not model.has_desc_before(steps, ("idx", "slice"))

def all_paths(d):
    out = []
    def go(v, path):
        if path: out.append(path)
        if v[0] == "o":
            for k, x in v[1]: go(x, path + [(k, v, x)])
        elif v[0] == "a":
            for i, x in enumerate(v[1]): go(x, path + [(i, v, x)])
    go(d, [])
    return out

def target_steps(R, cfg, d, must=None):
    """a path that selects (filters aside) a node of the document"""
    kinds = set(cfg["steps"])
    ps = all_paths(d)
    if must == "filter": ps = [p for p in ps if any(isinstance(s, int) and n[0] == "o" for s, _, n in p)]
    elif must == "index": ps = [p for p in ps if any(isinstance(s, int) for s, _, n in p)]
    if not ps: return None
    if R.chance(50):
        ln = max(len(p) for p in ps); deep = [p for p in ps if len(p) >= ln - 1 and len(p) > 1]
        if deep: ps = deep
    p = R.pick(ps)
    need = None
    if must == "filter": need = R.pick([i for i, (s, _, n) in enumerate(p) if isinstance(s, int) and n[0] == "o"])
    elif must == "index": need = R.pick([i for i, (s, _, n) in enumerate(p) if isinstance(s, int)])
    steps = []; i = 0; after_desc = False
    while i < len(p):
        s, par, node = p[i]
        jump = ("desc" in kinds or "descany" in kinds) and R.chance(25) and not (need is not None and i <= need and must == "index")
        if jump:
            hi = len(p) - 1 if need is None or i > need else need - 1
            j = R.int(i, hi) if hi >= i else -1
            if j >= i:
                sj = p[j][0]
                if isinstance(sj, str) and gen.NAME.match(sj) and "desc" in kinds: steps.append(("desc", sj)); after_desc = True; i = j + 1; continue
                if "descany" in kinds: steps.append(("descany",)); after_desc = True; i = j + 1; continue
        if isinstance(s, str):
            if gen.NAME.match(s) and "key" in kinds and not ("any" in kinds and R.chance(12)): steps.append(("key", s))
            elif "any" in kinds: steps.append(("any",))
            else: return None
        else:
            opts = [k for k in ("star", "any", "idx", "slice", "filter") if k in kinds]
            if after_desc: opts = [k for k in opts if k not in ("idx", "slice")]
            if node[0] != "o": opts = [k for k in opts if k != "filter"]
            if i == need: opts = ["filter"] if must == "filter" else [k for k in opts if k in ("idx", "slice")] or opts
            if not opts: return None
            k = R.pick(opts)
            if k == "idx": steps.append(("idx", s if not R.chance(1) else R.pick(HUGE) + s))
            elif k == "slice":
                lo = R.pick([None, 0, s, max(0, s - 1)]); hi = R.pick([None, s + 1, s + 2, s + 1])
                if R.chance(4): hi = R.pick(HUGE)
                if lo is None and hi is None: lo = s
                steps.append(("slice", lo, hi))
            elif k == "filter": steps.append(("filter", gen.gen_expr(R, cfg, [x for x in par[1] if x[0] == "o"], R.pick([0, 1, 1, 2, 2, 3]))))
            else: steps.append((k,))
        i += 1
    return steps

def discriminates(doc, q):
    """the filters of q both keep and drop candidates in this document"""
    t = gen.render(doc, lambda where: "")
    try: w, why = expected(t, q)
    except Exception: return True
    if why: return False
    if not w: return False
    return len(expected(t, [("star",) if s[0] == "filter" else s for s in q])[0]) > len(w)

def gen_steps(R, cfg, doc, must=None):
    if must != "filter" or R.chance(20): return gen_steps_once(R, cfg, doc, must)
    for _ in range(6):
        q = gen_steps_once(R, cfg, doc, must)
        if discriminates(doc, q): break
        for _ in range(3):
            q = [("filter", gen.gen_expr(R, cfg, elements(doc, q[:i]), R.pick([0, 1, 1, 2, 2, 3]))) if s[0] == "filter" else s for i, s in enumerate(q)]
            if discriminates(doc, q): return q
    return q

def elements(d, steps):
    """objects in the arrays that the steps (filters aside) select"""
    cur = [d]
    for s in steps:
        nxt = []
        for v in cur:
            kids = v[1] if v[0] == "o" else [(None, x) for x in v[1]] if v[0] == "a" else []
            if s[0] == "key": nxt += [x for k, x in kids if k == s[1]]
            elif s[0] in ("desc", "descany"):
                def down(v):
                    for k, x in v[1] if v[0] == "o" else [(None, y) for y in v[1]] if v[0] == "a" else []:
                        if s[0] == "descany" or k == s[1]: nxt.append(x)
                        down(x)
                down(v)
            elif s[0] == "any" or v[0] == "a": nxt += [x for _, x in kids]
        cur = nxt
    return [x for v in cur if v[0] == "a" for x in v[1] if x[0] == "o"]

def gen_steps_once(R, cfg, doc, must=None):
    if R.chance(60) or must:
        q = target_steps(R, cfg, doc, must)
        if q and len(q) <= 12: return q
    for _ in range(4):
        q = gen.gen_query(R, cfg, doc)
        if tidy(q): return q
    # make it tidy: cut at the offending step
    out = []; seen = False
    for s in q:
        if s[0] in ("desc", "descany"): seen = True
        if seen and s[0] in ("idx", "slice"): break
        out.append(s)
    return out or [("key", "a")]

def expected(doc, steps, force=False):
    """(list of bytes, skip reason | None)"""
    t = doc; root = model.parse(t)
    if not force and any(s[0] == "filter" for s in steps) and model.has_desc_before(steps, ("filter",)) and model.nested_tests(t, root, steps):
        return None, "nested filter candidates under a descendant step"
    try:
        return [model.raw(t, x).encode("latin-1") for x in model.select(t, root, steps)], None
    except model.Undefined:
        return None, "comparison without a reference answer"

def depth(n): return 1 + max([depth(c) for _, c in n.kids], default=0)

# ---------------------------------------------------------------- shrinking
def shrink_text(t):
    """smaller documents: drop a child, replace a value, hoist a child, drop white space"""
    try: root = model.parse(t)
    except Exception: return
    nodes = []
    def walk(n, parent, i):
        nodes.append((n, parent, i))
        for j, (_, c) in enumerate(n.kids): walk(c, n, j)
    walk(root, None, 0)
    nodes.sort(key=lambda x: -(x[0].e - x[0].s))
    if (root.s, root.e) != (0, len(t)): yield t[root.s:root.e]
    if len(root.kids) > 3:      # halves
        h = len(root.kids) // 2
        a, b = root.kids[0][1].ks, root.kids[h][1].ks
        yield t[:a] + t[b:]
        yield t[:root.kids[h - 1][1].e] + t[root.kids[-1][1].e:]
    for n, p, i in nodes:
        if n.kind in "oa" and p is None:
            for _, c in n.kids:
                if c.kind in "oa": yield t[c.s:c.e]
        if p is not None:
            ks = p.kids
            if len(ks) == 1: yield t[:n.ks] + t[n.e:]
            elif i + 1 < len(ks): yield t[:n.ks] + t[ks[i + 1][1].ks:]
            else: yield t[:ks[i - 1][1].e] + t[n.e:]
    for n, p, i in nodes:
        if p is not None:
            if n.e - n.s > 2 and n.kind in "oa": yield t[:n.s] + ("{}" if n.kind == "o" else "[]") + t[n.e:]
            if n.e - n.s > 1: yield t[:n.s] + "0" + t[n.e:]
            if n.kind in "oa":
                for _, c in n.kids: yield t[:n.s] + t[c.s:c.e] + t[n.e:]
            elif n.kind == "s" and n.e - n.s > 3: yield t[:n.s] + '"k"' + t[n.e:]
    import re
    # white space outside strings
    s2 = re.sub(r'("(?:\\.|[^"\\])*")|[ \t\r\n]+', lambda m: m.group(1) or "", t)
    if s2 != t: yield s2
    for m in re.finditer(r'"(?:\\.|[^"\\])*"|[ \t\r\n]+', t):
        if m.group()[0] != '"': yield t[:m.start()] + t[m.end():]

def shrink_expr(e):
    for x in e[1:]:
        if isinstance(x, (list, tuple)) and x and x[0] in ("path", "num", "str", "dstr", "bin", "not", "par"):
            if e[0] != "path": yield x
    if e[0] in ("not", "par"):
        for x in shrink_expr(e[1]): yield [e[0], x]
    if e[0] == "bin":
        for x in shrink_expr(e[2]): yield ["bin", e[1], x, e[3]]
        for x in shrink_expr(e[3]): yield ["bin", e[1], e[2], x]

def shrink_steps(q):
    for i in range(len(q)):
        if len(q) > 1: yield q[:i] + q[i + 1:]
    for i, s in enumerate(q):
        if s[0] == "filter":
            for x in shrink_expr(s[1]): yield q[:i] + [["filter", x]] + q[i + 1:]
        if s[0] in ("slice",) and s[1] is not None: yield q[:i] + [["slice", None, s[2]]] + q[i + 1:]

def shrink_ops(ops):
    if len(ops) > 1:
        for i in range(len(ops)): yield ops[:i] + ops[i + 1:]
    for i, o in enumerate(ops):
        f = o.split()
        if f[0] in ("par", "opt"):
            if int(f[1]) > 2: yield ops[:i] + ["%s 2 %s" % (f[0], " ".join(f[2:]))] + ops[i + 1:]
            if len(f) > 2 and f[2] != "0": yield ops[:i] + ["%s %s 0 %s" % (f[0], f[1], " ".join(f[3:]) or "0")] + ops[i + 1:]
            if len(f) > 3 and f[3] != "0": yield ops[:i] + ["%s %s %s 0" % (f[0], f[1], f[2])] + ops[i + 1:]

def shrink_case(case):
    if "ops" in case:
        for o in shrink_ops(case["ops"]): yield dict(case, ops=o)
    for k in ("doc", "train"):
        if isinstance(case.get(k), str):
            for t in shrink_text(case[k]): yield dict(case, **{k: t})
    if "steps" in case:
        for q in shrink_steps(case["steps"]): yield dict(case, steps=q)
