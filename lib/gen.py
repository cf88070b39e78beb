"""Generators of documents and queries.  Every choice goes through a chooser R:
R.int(lo, hi) inclusive, R.pick(seq), R.chance(pct).  HypChooser draws from Hypothesis."""
import random, re
NAME = re.compile(r"[A-Za-z_][A-Za-z0-9_]*$")

class RandChooser:
    def __init__(self, seed): self.r = random.Random(seed)
    def int(self, a, b): return self.r.randint(a, b)
    def pick(self, seq): return seq[self.r.randint(0, len(seq) - 1)]
    def chance(self, pct): return self.r.randint(0, 99) < pct

KEYS = ["a", "b", "c", "d", "e", "id", "ab", "x_1"]

def string_body(R, cfg):
    hard = cfg.get("strings", "rich")
    n = R.int(0, 4)
    if hard == "plain": return "".join(R.pick(["k", "Z", "7", " ", "-"]) for _ in range(n))
    if hard == "safe":  # nothing that can look like structure after a quote
        return "".join(R.pick(["k", "Z", "7", " ", "-", "{", "[", "]", "}", ":", "\\\\", "\\n", "\\u00e9", "\\u005c", "\\u0022", "\xc3\xa9", "'"]) for _ in range(n))
    return "".join(R.pick(["k", "Z", "7", " ", "-", "{", "[", "]", "}", ":", ",", "\\\\", "\\\"", "\\n", "\\u00e9", "\\u005c", "\\u0022", "\xc3\xa9", "'", ", ", "\\/"]) for _ in range(n))

def scalar(R, cfg):
    k = R.int(0, 9)
    if k < 4:
        kind = R.int(0, 5)
        if kind < 3: return str(R.int(0, 30))
        if kind == 3 and cfg.get("neg", True): return "-" + str(R.int(0, 30))
        if kind == 4: return "%d.%d" % (R.int(0, 99), R.int(0, 99))
        return "%d%s%d" % (R.int(1, 9), R.pick(["e", "E", "e+", "E-"]), R.int(0, 9)) if cfg.get("exp", True) else "0"
    if k < 7: return '"' + string_body(R, cfg) + '"'
    return R.pick(["true", "false", "null"])

def gen_value(R, cfg, depth):
    """tree: ("o",[(k,v)..]) | ("a",[v..]) | ("v",raw)"""
    k = R.int(0, 9)
    if depth <= 0 or k < 3: return ("v", scalar(R, cfg))
    return gen_container(R, cfg, depth, "o" if k < 7 else "a")

def gen_container(R, cfg, depth, kind):
    n = R.int(0, cfg.get("width", 4))
    if kind == "a":
        homog = R.chance(60)
        if homog and R.chance(50): return ("a", [gen_container(R, cfg, depth - 1, "o") for _ in range(n)])
        return ("a", [gen_value(R, cfg, depth - 1) for _ in range(n)])
    keys = []
    pool = cfg.get("keys", KEYS)
    for _ in range(n):
        k = R.pick(pool)
        if k not in keys: keys.append(k)
    return ("o", [(k, gen_value(R, cfg, depth - 1)) for k in keys])

class WS:
    """whitespace source"""
    def __init__(self, R, mode): self.R, self.mode = R, mode
    def __call__(self, where):
        m = self.mode
        if m == "none": return ""
        if m == "colon": return " " if where == "aftercolon" else ""
        R = self.R
        if m == "space": return " " * R.pick([0, 0, 0, 1, 2])
        if m == "any": return R.pick(["", "", "", " ", "\n", "\t", "\r\n", "  "])
        if m == "pretty":       # indented, the usual way
            if where in ("beforekey", "beforeelem"): return "\n" + " " * R.pick([2, 4, 4, 6, 8, 12, 16, 24])
            return " " if where == "aftercolon" else "\n" + " " * R.pick([0, 2, 4, 8]) if where == "aftervalue" and R.chance(30) else ""
        if m == "long":         # some very long runs
            return R.pick(["", "", "", " ", R.pick([" ", "\t", "\n", "\r\n"]) * R.pick([5, 8, 9, 16, 17, 31, 33, 64])])
        return ""

def render(v, ws):
    k = v[0]
    if k == "v": return v[1]
    if k == "o":
        if not v[1]: return "{" + ws("in") + "}"
        return "{" + ",".join(ws("beforekey") + '"' + kk + '"' + ws("beforecolon") + ":" + ws("aftercolon") + render(x, ws) + ws("aftervalue") for kk, x in v[1]) + "}"
    if not v[1]: return "[" + ws("in") + "]"
    return "[" + ",".join(ws("beforeelem") + render(x, ws) + ws("aftervalue") for x in v[1]) + "]"

def all_keys(v, acc=None):
    acc = [] if acc is None else acc
    if v[0] == "o":
        for k, x in v[1]:
            if k not in acc: acc.append(k)
            all_keys(x, acc)
    elif v[0] == "a":
        for x in v[1]: all_keys(x, acc)
    return acc

def gen_query(R, cfg, doc):
    """Walks the document to bias towards matching queries. cfg["steps"]: allowed kinds."""
    kinds = cfg["steps"]
    n = R.int(1, cfg.get("qlen", 4))
    keys = cfg.get("keys", KEYS)
    cur = [doc]; steps = []
    for _ in range(n):
        arr = [x for v in cur if v[0] == "a" for x in v[1]]
        obj = [(k, x) for v in cur if v[0] == "o" for k, x in v[1]]
        want = "arr" if arr and (not obj or R.chance(50)) else "obj"
        if R.chance(8): want = "arr" if want == "obj" else "obj"
        if want == "arr":
            ks = [k for k in kinds if k in ("star", "slice", "idx", "filter")]
            if not ks: ks = [k for k in kinds]
        else: ks = [k for k in kinds if k in ("key", "key2", "any", "desc", "descany")]
        if not ks: ks = list(kinds)
        k = R.pick(ks)
        if k == "key2": k = "key"
        if k == "key":
            pool = sorted({kk for kk, _ in obj if NAME.match(kk)})
            key = R.pick(pool) if pool and R.chance(92) else R.pick(keys)
            steps.append(("key", key)); cur = [x for kk, x in obj if kk == key]
        elif k == "any": steps.append(("any",)); cur = arr + [x for _, x in obj]
        elif k in ("desc", "descany"):
            pool = []
            for v in cur: all_keys(v, pool)
            allv = []
            def down(v):
                for kk, x in (v[1] if v[0] == "o" else [(None, y) for y in v[1]] if v[0] == "a" else []):
                    allv.append((kk, x)); down(x)
            for v in cur: down(v)
            if k == "desc":
                pool = sorted(kk for kk in pool if NAME.match(kk))
                key = R.pick(pool) if pool and R.chance(92) else R.pick(keys)
                steps.append(("desc", key)); cur = [x for kk, x in allv if kk == key]
            else: steps.append(("descany",)); cur = [x for _, x in allv]
        elif k == "star": steps.append(("star",)); cur = arr
        elif k == "slice":
            lo = R.pick([None, 0, 0, 1, 1, 2, 3]); hi = R.pick([None, 1, 2, 2, 3, 4])
            if lo is None and hi is None: lo = 0
            if lo is not None and hi is not None and hi <= lo and R.chance(80): hi = lo + 1
            steps.append(("slice", lo, hi)); cur = arr
        elif k == "idx":
            steps.append(("idx", R.int(0, 3))); cur = arr
        elif k == "filter":
            objs = [x for x in arr if x[0] == "o"]
            steps.append(("filter", gen_expr(R, cfg, objs))); cur = objs
    return steps

def cond_paths(objs, depth=6):
    out = []
    def go(v, pre):
        if v[0] != "o": return
        for k, x in v[1]:
            if not NAME.match(k): continue
            p = pre + [k]
            if p not in out: out.append(p)
            if len(p) < depth: go(x, p)
    for v in objs: go(v, [])
    return out

def gen_path(R, cfg, objs):
    ps = cond_paths(objs)
    if ps and R.chance(88):
        n = max(len(p) for p in ps)
        if n > 3 and R.chance(40): ps = [p for p in ps if len(p) > 3]
        return ("path", R.pick(ps))
    return ("path", [R.pick(cfg.get("keys", KEYS))])

def wrap(R, e):
    """parentheses are optional around operands of && and || that bind tighter"""
    if e[0] == "bin" and e[1] == "||": return ("par", e)
    if e[0] == "bin" and e[1] == "&&": return ("par", e) if R.chance(60) else e
    return e if R.chance(50) else ("par", e)

def gen_expr(R, cfg, objs, depth=2):
    k = R.int(0, 9)
    if depth <= 0 or k < 3: return gen_atom(R, cfg, objs)
    if k < 5:
        e = gen_expr(R, cfg, objs, depth - 1)
        return ("not", e if e[0] == "path" and R.chance(50) else ("par", e))
    l = gen_expr(R, cfg, objs, depth - 1); r = gen_expr(R, cfg, objs, depth - 1)
    if k < 8:
        r = wrap(R, r)
        if r[0] == "bin" and r[1] == "&&": r = ("par", r)
        return ("bin", "&&", wrap(R, l), r)
    return ("bin", "||", l if R.chance(40) else ("par", l), ("par", r) if (r[0] == "bin" and r[1] == "||") or R.chance(50) else r)

def at_path(objs, path):
    out = []
    for v in objs:
        for k in path:
            v = next((x for kk, x in v[1] if kk == k), None) if v is not None and v[0] == "o" else None
        if v is not None and v[0] == "v": out.append(v[1])
    return out

NUM = re.compile(r"-?[0-9]+(\.[0-9]+)?$")
def gen_literal(R, cfg, objs, path):
    """a literal, preferably one that occurs under the path"""
    vals = at_path(objs, path)
    if vals and R.chance(70):
        v = R.pick(vals)
        if NUM.match(v): return ("num", v)
        if v[0] == '"' and "'" not in v and not v.endswith("\\"): return ("str", v[1:-1]) if R.chance(70) else ("dstr", v[1:-1])
    k = R.int(0, 5)
    if k < 2: return ("num", str(R.int(0, 30)))
    if k == 2: return ("num", "%d.%d" % (R.int(0, 9), R.int(0, 99)))
    if k == 3: return ("num", "-%d" % R.int(1, 30))
    return (R.pick(["str", "str", "dstr"]), R.pick(["k", "Z", "7", "kk", "abc", "", "a b", "&&", "]", "true", "@.a", "k,"]))

def gen_operand(R, cfg, objs, depth=1):
    k = R.int(0, 7)
    p = gen_path(R, cfg, objs)
    if k < 4 or depth <= 0: return p
    if k < 6: return gen_literal(R, cfg, objs, p[1])
    return ("par", ("bin", R.pick("+-*/%"), gen_operand(R, cfg, objs, depth - 1), gen_operand(R, cfg, objs, depth - 1)))

def gen_atom(R, cfg, objs):
    p = gen_path(R, cfg, objs)
    k = R.int(0, 11)
    if k < 3: return p
    if k < 6: return ("bin", R.pick(["==", "==", "!="]), p, gen_literal(R, cfg, objs, p[1]))
    if k < 9: return ("bin", R.pick(["<", ">", "<=", ">="]), p, gen_literal(R, cfg, objs, p[1]))
    if k == 9: return ("bin", R.pick(["==", "!=", "<", ">", "<=", ">="]), p, gen_path(R, cfg, objs))
    if k == 10: return ("bin", R.pick(["==", "!=", "<", ">", "<=", ">="]), gen_literal(R, cfg, objs, p[1]), p)
    return ("bin", R.pick(["==", "<", ">", "!="]), gen_operand(R, cfg, objs), gen_operand(R, cfg, objs))
