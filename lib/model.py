"""Reference model: JSON with raw spans, JSONPath as a regular expression over path words."""
import re, math

class Node:
    __slots__ = ("kind", "s", "e", "kids", "ks")       # kind: o a s n l ; kids: [(key|index, Node)]
    def __init__(self, kind, s): self.kind, self.s, self.e, self.kids, self.ks = kind, s, None, [], s

def parse(t):
    """t: str (latin-1 image of the bytes). Returns the root Node."""
    def ws(i):
        while t[i] in " \t\r\n": i += 1
        return i
    def string(i):
        j = i + 1
        while t[j] != '"': j += 2 if t[j] == "\\" else 1
        return j + 1
    def value(i):
        c = t[i]
        if c == "{":
            n = Node("o", i); i = ws(i + 1)
            if t[i] == "}": n.e = i + 1; return n
            while True:
                ks = i; e = string(i); key = t[i + 1:e - 1]
                i = ws(e); assert t[i] == ":"
                k = value(ws(i + 1)); k.ks = ks; n.kids.append((key, k)); i = ws(k.e)
                if t[i] == ",": i = ws(i + 1); continue
                assert t[i] == "}"; n.e = i + 1; return n
        if c == "[":
            n = Node("a", i); i = ws(i + 1)
            if t[i] == "]": n.e = i + 1; return n
            while True:
                k = value(i); n.kids.append((len(n.kids), k)); i = ws(k.e)
                if t[i] == ",": i = ws(i + 1); continue
                assert t[i] == "]"; n.e = i + 1; return n
        if c == '"':
            n = Node("s", i); n.e = string(i); return n
        m = re.compile(r"-?[0-9][0-9.eE+-]*|true|false|null").match(t, i)
        n = Node("n" if (m.group()[0] in "-0123456789") else "l", i); n.e = m.end(); return n
    t = t + " "
    return value(ws(0))

def raw(t, n): return t[n.s:n.e]

# ---------------------------------------------------------------- query steps
# ("key",k) ("any",) ("desc",k) ("descany",) ("star",) ("slice",lo|None,hi|None) ("idx",i) ("filter",expr)
def show(steps):
    out = "$"
    for s in steps:
        k = s[0]
        if k == "key": out += "." + s[1]
        elif k == "any": out += ".*"
        elif k == "desc": out += ".." + s[1]
        elif k == "descany": out += "..*"
        elif k == "star": out += "[*]"
        elif k == "slice": out += "[%s:%s]" % ("" if s[1] is None else s[1], "" if s[2] is None else s[2])
        elif k == "idx": out += "[%d]" % s[1]
        elif k == "filter": out += "[?(%s)]" % show_expr(s[1])
    return out

# expr: ("path",[k..]) ("num",text) ("str",text) ("bool",b) ("null",) ("bin",op,l,r) ("not",e) ("par",e)
def show_expr(e):
    k = e[0]
    if k == "path": return "@" + "".join("." + x for x in e[1])
    if k == "num": return e[1]
    if k == "str": return "'%s'" % e[1]
    if k == "dstr": return '"%s"' % e[1]
    if k == "bin": return show_expr(e[2]) + e[1] + show_expr(e[3])
    if k == "not": return "!" + show_expr(e[1])
    if k == "par": return "(" + show_expr(e[1]) + ")"

def paths_of(e):
    if e[0] == "path": return [tuple(e[1])]
    r = []
    for x in e[1:]:
        if isinstance(x, (tuple, list)): r += paths_of(x)
    return r

def lookup(n, path):
    for k in path:
        if n.kind != "o": return None
        hit = None
        for kk, c in n.kids:
            if kk == k: hit = c
        if hit is None: return None
        n = hit
    return n

class Undefined(Exception):
    """the reference gives no answer (comparison of containers, out-of-range arithmetic)"""

def to_value(t, n):
    """('null'|'bool'|'num'|'text'|'cont', v)"""
    if n is None: return ("null", None)
    r = raw(t, n)
    if n.kind == "s": return ("text", r[1:-1])
    if n.kind == "n": return ("num", float(r))
    if r == "null": return ("null", None)
    if r in ("true", "false"): return ("bool", r == "true")
    return ("cont", None)

NULLV = ("null", None)
def arith(op, a, b):
    if op == "+": return ("num", a + b)
    if op == "-": return ("num", a - b)
    if op == "*": return ("num", a * b)
    if op == "/":
        if b == 0:
            neg = math.copysign(1, a) * math.copysign(1, b) < 0
            return ("num", math.nan if a == 0 or a != a else (-math.inf if neg else math.inf))
        return ("num", a / b)
    if op == "%":
        for x in (a, b):
            if x != x or abs(x) == float("inf"): raise Undefined()
        ia, ib = int(a), int(b)
        if ib == 0: return NULLV
        m = abs(ia) % abs(ib)
        return ("num", float(-m if ia < 0 else m))

def ev(e, look):
    k = e[0]
    if k == "path": return look(tuple(e[1]))
    if k == "num": return ("num", float(e[1]))
    if k in ("str", "dstr"): return ("text", e[1])
    if k == "par": return ev(e[1], look)
    if k == "not": return ("bool", not truth(ev(e[1], look)))
    op = e[1]
    l, r = ev(e[2], look), ev(e[3], look)
    if op == "&&": return ("bool", truth(l) and truth(r))
    if op == "||": return ("bool", truth(l) or truth(r))
    if op in ("==", "!="):
        if "cont" in (l[0], r[0]) and ("bool" in (l[0], r[0]) or l[0] == r[0]): raise Undefined()
        same = l[0] == r[0] and (l[1] == r[1] if l[0] in ("num", "text", "bool") else True)     # NaN differs from itself
        return ("bool", same == (op == "=="))
    if l[0] != "num" or r[0] != "num": return NULLV
    a, b = l[1], r[1]
    if op in ("<", ">", "<=", ">="):
        return ("bool", {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op])
    return arith(op, a, b)

def truth(v):
    if v[0] == "null": return False
    if v[0] == "bool": return v[1]
    if v[0] == "num": return v[1] != 0
    return True

def closure_step(steps, pos, sym, t, child):
    """positions reachable from pos (set) by consuming sym (str key or int index)."""
    out = set()
    n = len(steps)
    for p in pos:
        if p == n: continue
        s = steps[p]; k = s[0]
        if k == "key":
            if sym == s[1]: out.add(p + 1)
        elif k == "any": out.add(p + 1)
        elif k == "desc":
            out.add(p)
            if sym == s[1]: out.add(p + 1)
        elif k == "descany": out.add(p); out.add(p + 1)
        elif isinstance(sym, int):
            if k == "star": out.add(p + 1)
            elif k == "idx":
                if sym == s[1]: out.add(p + 1)
            elif k == "slice":
                if (s[1] is None or sym >= s[1]) and (s[2] is None or sym < s[2]): out.add(p + 1)
            elif k == "filter":
                if child.kind == "o" and truth(ev(s[1], lambda pt: to_value(t, lookup(child, pt)))): out.add(p + 1)
    return out

def select(t, root, steps):
    """Selected nodes, in order of their end in the document."""
    n = len(steps); out = []
    def go(node, pos):
        for sym, c in node.kids:
            np = closure_step(steps, pos, sym, t, c)
            if np:
                go(c, np)
                if n in np: out.append(c)
    pos = {0}
    if n == 0: return [root]
    go(root, pos)
    return out

def query(t, steps):
    root = parse(t)
    return [raw(t, x) for x in select(t, root, steps)]

def tup(x): return tuple(tup(y) for y in x) if isinstance(x, (list, tuple)) else x

def has_desc_before(steps, kinds):
    seen = False
    for s in steps:
        if s[0] in ("desc", "descany"): seen = True
        elif s[0] in kinds and seen: return True
    return False

def nested_tests(t, root, steps):
    """does an object tested by a filter hold another object tested by a filter although the
    path from the first to the second does not run through the filter (descendant steps)?"""
    fs = [i for i, s in enumerate(steps) if s[0] == "filter"]
    found = []
    free = [("star",) if s[0] == "filter" else s for s in steps]
    def go(node, pos, inside):
        for sym, c in node.kids:
            np = closure_step(free, pos, sym, t, c)
            here = set(i for i in fs if i in pos and isinstance(sym, int))
            if here and inside & here: found.append(1)
            if np: go(c, np, inside | here)
    go(root, {0}, frozenset())
    return bool(found)
