import os
import cases
from engine import *
"""documents and queries scaled along one dimension: a recipe is [name, parameters...]"""
LEN = [99, 100, 101, 999, 1000, 1001, 2000, 3999, 4000, 4001, 4095, 8000, 8192, 16001, 40000, 100000]
NUM = [99, 100, 101, 127, 255, 256, 999, 1000, 1001, 1024, 4000, 5000]
MANY = [9999, 10000, 10001, 20000, 40000]
KINDS = {"text": lambda n: '"' + "x" * n + '"', "escapes": lambda n: '"' + "\\\\" * (n // 2) + '"', "quotes": lambda n: '"' + '\\"' * (n // 2) + '"', "brackets": lambda n: '"' + "[{,}] " * (n // 6) + '"',
         "number": lambda n: "1" * n, "fraction": lambda n: "-0." + "5" * n, "blanks": lambda n: '"' + " " * n + '"'}
K = lambda n: ("key", n)
def cost(t):
    """entries of the engine's stacks a text needs (no strings with brackets)"""
    c = m = 0
    for x in t:
        if x in "{[": c += 2 if x == "{" else 1; m = max(m, c)
        elif x in "}]": c -= 2 if x == "}" else 1
    return m
def dataset(f):
    return open(os.path.join(os.environ.get("JPS_REPO", "/repo"), "dataset", f), encoding="latin1", newline="").read()
def build(r):
    """(text, steps) of a recipe [name, parameters...]"""
    name, a = r[0], r[1:]
    if name == "long":            # one or several long scalars among short ones
        kind, n, count, q = a
        v = KINDS[kind](n)
        return '{"a":[' + ",".join('{"b":%s,"c":%d}' % (v if i % 2 == 0 else i, i) for i in range(count)) + '],"b":%s}' % v, q
    if name == "longkey":
        n, count, which = a
        ks = ["k" * n + str(i) for i in range(count)]
        t = '{"a":{' + ",".join('"%s":{"b":%d}' % (k, i) for i, k in enumerate(ks)) + '},"%s":7}' % ("k" * n)
        return t, [[K("a"), K(ks[which % count]), K("b")], [K("a"), ("any",), K("b")], [("desc", ks[which % count])], [("desc", "b")]][which % 4]
    if name == "container":       # long selected objects and arrays
        n, form, q = a
        body = ",".join(["%d" % i for i in range(n)]) if form % 3 == 0 else ",".join('"m%d":[%d]' % (i, i) for i in range(n)) if form % 3 == 1 else ",".join('{"c":%d}' % i for i in range(n))
        x = "{%s}" % body if form % 3 == 1 else "[%s]" % body
        return '{"a":[{"b":%s,"c":1},{"b":[],"c":2},{"b":%s,"c":0}],"b":%s}' % (x, x, x), q
    if name == "results":
        n, form = a
        if form % 4 == 0: return '{"a":[' + ",".join(map(str, range(n))) + "]}", [K("a"), ("star",)]
        if form % 4 == 1: return "[" + ",".join('{"a":%d,"b":[%d]}' % (i, i) for i in range(n)) + "]", [("desc", "a")]
        if form % 4 == 2: return '{"a":{' + ",".join('"k%d":%d' % (i, i) for i in range(n)) + '},"b":0}', [K("a"), ("any",)]
        return "[" + ",".join('{"a":%d,"b":%d}' % (i, i % 3) for i in range(n)) + "]", [("filter", ["bin", "==", ["path", ["b"]], ["num", "1"]]), K("a")]
    if name == "index":
        n, lo, w, form = a
        el = ["%d" % i if i % 7 else '[%d,{"a":%d}]' % (i, i) if i % 2 else '{"a":%d}' % i for i in range(n)]
        q = [[K("a"), ("idx", lo)], [K("a"), ("slice", lo, lo + w)], [K("a"), ("slice", lo, None)], [K("a"), ("slice", None, w)], [K("a"), ("slice", lo, lo + w), K("a")], [K("a"), ("slice", lo, lo + w), ("star",)], [K("a"), ("slice", lo, lo + w), ("idx", 1), K("a")], [K("a"), ("slice", lo, None), K("a")], [K("a"), ("slice", None, w), ("idx", 0)]][form % 9]
        return '{"b":[1,2],"a":[' + ",".join(el) + "]}", q
    if name == "bigindex":        # positions that do not fit into 15 or 16 bits
        n, lo, hi, form = a
        el = ["%d" % (i % 10) for i in range(n)]; more = []
        if form > 2:              # objects and arrays at the ends of the range, and steps below them
            near = sorted({i + j for i in [lo or 0] + ([hi] if hi else []) + [32767, 65535, n - 3, 256, 3] for j in range(-3, 4)})
            for i in near:
                if 0 <= i < n: el[i] = ['{"y":%d}', '[%d,{"y":1}]', '{"y":[%d]}', '[[],%d]'][i * 7 // 3 % 4] % i
            more = [[K("y")], [("star",)], [("idx", 1)], [("idx", 1), K("y")], [K("y"), ("idx", 0)]][form // 3 % 5]; form %= 3
        x = "[%s]" % ",".join(el)
        return ('{"b":[1,2],"a":%s}' % x if form == 0 else '{"a":{"a":%s},"b":3}' % x if form == 1 else x), [[K("a")], [("any",), K("a")], []][form] + [("idx", lo) if hi == 0 else ("slice", lo, hi)] + more
    if name == "wide":
        n, j, form = a
        t = "{" + ",".join('"k%d":{"a":[%d,{"b":%d}],"c%d":null}' % (i, i, i, i) for i in range(n)) + "}"
        return t, [[K("k%d" % (j % n)), K("a")], [("any",), K("a"), ("star",)], [("desc", "c%d" % (j % n))], [("any",), K("a"), ("star",), K("b")], [("descany",), K("b")]][form % 5]
    if name == "deep":            # a: kinds of the levels, outermost first
        kinds, q = a
        t = '{"a":1,"z":[2]}'
        for i, k in reversed(list(enumerate(kinds))): t = ('{"%s":%s,"n":%d}' % (k, t, i)) if k != "[" else ("[%d,%s]" % (i, t) if i % 2 else "[%s,%d]" % (t, i))
        return t, q
    if name == "filters":         # filters in the elements of filtered elements
        n, form, m, j = a
        q = []; t = '{"k":1,"v":[7,{"k":8}]}'; t2 = '{"k":0,"v":[9]}'
        for i in range(n):
            q += ([K("x"), K("a")] if form == 2 else [K("a")]) + [("filter", [["bin", "==", ["path", ["k"]], ["num", "1"]], ["path", ["k"]], ["bin", ">", ["path", ["n", "k"]], ["num", "0"]]][form])]
            el = ",".join([t, t2] if i % 3 == 0 else [t2, t] if i % 3 == 1 else [t])
            k = '"n":{"k":1}' if form == 2 else '"k":1'
            inner = '"x":{"a":[%s]}' % el if form == 2 else '"a":[%s]' % el
            t = "{%s,%s}" % ((k, inner) if (i + j) % 2 else (inner, k))
            t2 = '{"k":0,"n":{"k":0},"a":[],"v":[%d]}' % i
        return '{"z":%s,"a":[%s],"x":%s}' % (t, ",".join([t2, t] * m), t), ([("any",)] if j % 2 else [K("z")]) + q + [K("v"), ("star",)]
    if name == "edge":            # objects nested as deep as the stacks allow, and what follows them
        kinds, after, q = a       # an object takes two entries of a stack, an array one
        t = "5"
        for k in reversed(kinds): t = '{"a":%s}' % t if k == "o" else '{"b":1,"a":%s,"c":[2]}' % t if k == "O" else "[%s]" % t if k == "[" else '[0,%s,{"y":9}]' % t
        e = '[0,%s,{"y":6,"a":[7]},[{"y":4}]]' % t if after == 1 else t
        return '{"z":%s,"y":8,"w":{"a":{"c":[1,{"y":2}]}},"x":%s}' % (e, e), q
    if name == "conditions":
        n, m, op = a
        ks = ["c%d" % i for i in range(n)]
        def e(i): return ["path", [ks[i]]] if i % 3 else ["bin", ">=", ["path", [ks[i]]], ["num", str(i % 5)]]
        x = e(0)
        for i in range(1, n): x = ["bin", op, x, e(i)]
        recs = ",".join("{" + '"r":%d,' % j + ",".join('"%s":%d' % (k, (i + j) % 7) for i, k in enumerate(ks) if (i * 7 + j) % (n + 3) != 1) + ',"s":[%d]}' % j for j in range(m))
        return '{"a":[%s]}' % recs, [K("a"), ("filter", x), ["key", "s" if n % 2 else "r"]]
    if name == "buffered":        # many results wait for the condition of their element
        n, m, late = a
        recs = []
        for j in range(m):
            c = '"c":%d' % (j % 2); v = '"v":[%s]' % ",".join('{"x":%d}' % (i * 10 + j) for i in range(n))
            recs.append("{%s,%s}" % ((v, c) if late else (c, v)))
        return '{"a":[%s]}' % ",".join(recs), [K("a"), ("filter", ["path", ["c"]]), K("v"), ("star",), K("x")]
    if name == "query":
        keys, any_at, tail = a    # a long query over a matching chain
        q = []; t = '{"e":[1,{"f":2}]}'
        for i, k in enumerate(keys): q.append(("any",) if i in any_at else K(k) if k != "[" else ("star",))
        for k in reversed(keys): t = '{"%s":%s,"w":3}' % (k, t) if k != "[" else "[4,%s]" % t
        return '{"u":%s,"t":%s}' % (t, t), [("any",)] + q + [tuple(x) for x in tail]
    if name == "chain":           # one key (and arrays) on every level of a long exact path, so one symbol is met in many states
        kinds, extra, tail, at = a
        t = '{"e":[1,{"f":2}],"a":6}'
        for i, k in reversed(list(enumerate(kinds))):
            x = ('"b":[%d,{"a":%d}]' % (i, i) if i % 3 == 0 else '"b":{"a":%d}' % i if i % 3 == 1 else '"b":%d' % i) if i % extra == 0 else None
            t = "[%s]" % ("%d,%s" % (i, t) if i % extra == 0 else t) if k == "[" else "{%s}" % ",".join(['"a":' + t] + ([x] if x else []) if i % 2 else ([x] if x else []) + ['"a":' + t])
        return t, [("star",) if k == "[" else ("any",) if i in at else K("a") for i, k in enumerate(kinds)] + [tuple(x) for x in tail]
    if name == "dataset":         # one of the sample data sets as it is
        return dataset(a[0]), a[1]
    if name == "states":          # automata with many states
        k, m, tail = a
        rec = '{"a":{"b":{"a":{"a":{"b":{"a":{"c":{"a":{"b":[1,{"a":2}]}}}}}}}},"b":[{"a":[{"c":1,"a":{"a":{"a":3}}}]},{"c":{"a":[5,6]}}]}'
        return "[" + ",".join([rec] * m) + "]", [("desc", "a")] + [("any",)] * k + [tuple(x) for x in tail]
NAMES = ["long"] * 3 + ["longkey", "container", "container", "results", "index", "index", "bigindex", "bigindex", "wide", "wide", "deep", "deep", "deep", "edge", "edge", "edge", "filters", "filters", "conditions", "conditions", "buffered", "buffered", "query", "query", "chain", "chain", "states", "states", "dataset", "dataset", "dataset"]
def recipe(R, names=NAMES):
    name = R.pick(names)
    if name == "dataset" and not cases.real_trees(): name = "states"
    big = R.chance(12)
    if name == "long": r = [name, R.pick(sorted(KINDS)), R.pick(LEN) + R.int(-1, 1), R.int(1, 6), R.pick([[("desc", "b")], [K("a"), ("star",), K("b")], [K("a"), ("star",)], [K("a"), ("idx", 0)], [K("b")], [("any",)], [K("a"), ("filter", ["bin", "<", ["path", ["c"]], ["num", "3"]]), K("b")], [K("a"), ("filter", ["path", ["b"]]), K("c")], [K("a")]])]
    elif name == "longkey": r = [name, R.pick([98, 99, 100, 101, 999, 1000, 3998, 3999, 4000, 4001, 9000]) + R.int(-1, 1), R.int(1, 5), R.int(0, 19)]
    elif name == "container": r = [name, R.pick(NUM), R.int(0, 2), R.pick([[("desc", "b")], [K("b")], [K("a"), ("star",)], [K("a"), ("star",), K("b")], [("any",)], [K("a"), ("filter", ["path", ["c"]]), K("b")], [K("a"), ("filter", ["bin", "==", ["path", ["c"]], ["num", "1"]])], [("desc", "b"), ("star",)], [K("a"), ("idx", 2), K("b")], [K("a")]])]
    elif name == "results": r = [name, R.pick(MANY) if big else R.pick(NUM), R.int(0, 3)]
    elif name == "index":
        n = R.pick(MANY) if big else R.pick(NUM)
        r = [name, n, R.pick([0, 1, n // 2, n - 2, n - 1, n, n + 1, R.int(0, n)]), R.pick([1, 2, 3, n // 3, n]), R.int(0, 8)]
    elif name == "bigindex":
        n = R.pick([32769, 33000, 65537, 66000]); lo = R.pick([0, None, n // 2, n - 3, n - 1, 32767, 32768, 65535, 65536]); hi = R.pick([0, None, None, n, n - 1, n // 2, 65536, 32768])
        r = [name, n, lo or 0 if hi == 0 else 1 if lo is None and hi is None else lo, hi, R.int(0, 2) + R.pick([0, 3, 6, 9, 12, 15, 18])]
    elif name == "wide": r = [name, R.pick(NUM), R.int(0, 100000), R.int(0, 4)]
    elif name == "deep":
        d = R.int(10, 40); ks = [R.pick(["a", "a", "b", "["]) for _ in range(d)]
        q = R.pick([[("desc", "a")], [("desc", "b")], [("desc", "z")], [("desc", "a"), ("desc", "z")], [("descany",)], [("desc", "n")], [("desc", "a"), ("any",), ("key", "n")], "exact"])
        if q == "exact":
            m = R.int(1, min(d, 15)); q = [("star",) if k == "[" else ("any",) if R.chance(30) else K(k) for k in ks[:m]]
            if m == d or R.chance(30): q.append(K("n")) if len(q) < 15 else None
        r = [name, ks, q]
    elif name == "edge":
        after = R.int(0, 1); left = R.pick([100, 100, 100, 99, 98, 97, 96, 94, 90]) - 2 - (1 if after else 0); ks = []; style = R.pick(["o", "oO", "o[", "ooo[", "oO[<", "o[[[", "<O", "[o"])
        while left > 1 or (left and ("[" in style or "<" in style)):
            k = R.pick(style) if left > 1 else "[" if "[" in style else "<"
            ks.append(k); left -= 2 if k in "oO" else 1
        while cost(build([name, ks, after, []])[0]) > 100: ks.pop(R.int(0, len(ks) - 1))
        n = R.int(0, 8); down = [K("a") if k in "oO" else ("star",) for k in ks[:n]]
        r = [name, ks, after, R.pick([[K("y")], [K("w"), K("a"), K("c"), ("star",), K("y")], [("desc", "y")], [("any",), ("star",), K("y")], [K("z"), ("idx", 2), K("y")], [K("x"), ("filter", ["path", ["y"]]), K("a")], [K("x")], [("any",)], [K("x")] + down, [K("x"), ("slice", 1, None)],
                                      [("desc", "a"), K("c")], [("descany",)], [K("z")] + down + [("any",)]])]
    elif name == "filters": r = [name, R.pick([2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14]), R.int(0, 2), R.int(1, 3), R.int(0, 3)]
    elif name == "conditions": r = [name, R.pick([2, 5, 9, 10, 11, 20, 33, 60]), R.pick([1, 5, 20]), R.pick(["&&", "||"])]
    elif name == "buffered": r = [name, R.pick(MANY) // 4 if big else R.pick(NUM), R.int(1, 4), R.chance(60)]
    elif name == "dataset":
        i = R.int(0, len(cases.real_names) - 1); kinds = R.pick([PATH, IDX, FIL, FILX, FILD, ALL])
        must = "filter" if "filter" in kinds else "index" if "idx" in kinds else None
        r = [name, cases.real_names[i], cases.gen_steps_once(R, cases.base_cfg(R, kinds), cases.real_trees()[i], must)]
    elif name == "query":
        n = R.int(8, 14); ks = [R.pick(["a", "b", "c", "["]) for _ in range(n - 1)]
        r = [name, ks, sorted({R.int(0, n - 2) for _ in range(R.int(0, 3))}), R.pick([[], [("key", "e")], [("key", "w")]])]
    elif name == "chain":
        n = R.pick([20, 26, 30, 35, 40, 44]); ks = [R.pick(["a"] * 6 + ["["]) for _ in range(n)]
        r = [name, ks, R.pick([1, 2, 5, 50]), R.pick([[], [], [("key", "e")], [("key", "e"), ("star",)], [("key", "e"), ("idx", 1)], [("any",)], [("key", "a")]]), sorted({R.int(0, len(ks) - 1) for _ in range(R.int(0, 3))})]
    else: r = [name, R.int(2, 8), R.pick([1, 2, 20]), R.pick([[], [("key", "a")], [("star",)], [("key", "b")]])]
    return r
NORMAL = [x for x in NAMES if x not in ("deep", "edge", "dataset", "bigindex", "states")]
def fitting(R, kinds, must, names=NORMAL):
    """(text, steps) of a recipe with steps of the given kinds only, or None"""
    for _ in range(25):
        t, q = build(recipe(R, names))
        ks = {s[0] for s in q}
        if ks <= kinds and (must is None or must in ks or must == "index" and ks & {"idx", "slice"}) and len(t) < 300000: return t, q
    return None
