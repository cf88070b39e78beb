"""Reference scanner and parser of the JSONPath language, written from its grammar: text -> tree | None (rejected)."""
import re
TOK = re.compile(r'''(?P<ws>[ \t\v\f]+)|(?P<op>=~|==|!=|<=|>=|&&|\|\||\.\.|[*\-+/%?\[\]()<>!$@.,:])|(?P<str>"(?:\\[^\n]|[^"\\])*"|'(?:\\[^\n]|[^'\\])*')|(?P<num>[0-9]+(?:\.[0-9]+)?)|(?P<name>[A-Za-z_][A-Za-z0-9_]*)''')
class Bad(Exception): pass

def scan(t):
    out = []; i = 0
    while i < len(t):
        m = TOK.match(t, i)
        if not m: i += 1; continue          # characters outside the language are reported and skipped
        if m.lastgroup != "ws": out.append((m.lastgroup, m.group()))
        i = m.end()
    return out

PREC = {"||": (1, "or"), "&&": (2, "and"), "==": (3, "=="), "!=": (3, "!="), "<": (3, "<"), ">": (3, ">"), "<=": (3, "<="), ">=": (3, ">="),
        "+": (4, "+"), "-": (4, "-"), "*": (5, "*"), "/": (5, "/"), "%": (5, "%")}
class Parser:
    def __init__(self, toks): self.t, self.i = toks, 0
    def peek(self): return self.t[self.i] if self.i < len(self.t) else ("eof", "")
    def op(self, s):
        k, v = self.peek()
        if k == "op" and v == s: self.i += 1; return True
        return False
    def need(self, s):
        if not self.op(s): raise Bad()
    def number(self):
        neg = self.op("-"); k, v = self.peek()
        if k != "num": raise Bad()
        self.i += 1
        return ("num", -float(v) if neg else float(v))
    def prop(self):
        if self.op("*"): return ("wild",)
        k, v = self.peek()
        if k != "name": raise Bad()
        self.i += 1
        return ("id", v)
    def path(self):
        self.need("$"); n = ("root",)
        while self.peek()[0] != "eof":
            if self.op("."): n = ("cat", n, self.prop())
            elif self.op(".."): n = ("pcat", n, self.prop())
            elif self.op("["): n = ("pred", n, self.predicate()); self.need("]")
            else: raise Bad()
        return n
    def predicate(self):
        if self.op("*"): return ("wild",)
        if self.op("?"):
            self.need("("); e = self.expr(0); self.need(")"); return ("filter", e)
        if self.op("("):
            e = self.expr(0); self.need(")"); return ("script", e)
        if self.op(":"): return ("range", None, self.number())
        n = self.item(); first = n[0]
        if first == "num" and self.op(":"):
            k, v = self.peek()
            if k == "num" or (k, v) == ("op", "-"): return ("range", n, self.number())
            return ("range", n, None)
        while self.op(","): n = ("cat", n, self.item())
        return n
    def item(self):
        k, v = self.peek()
        if k == "str": self.i += 1; return ("str", v[1:-1])
        return self.number()
    def expr(self, p):
        l = self.unary()
        while True:
            k, v = self.peek()
            if k != "op" or v not in PREC or PREC[v][0] <= p: return l
            self.i += 1
            l = ("op", PREC[v][1], l, self.expr(PREC[v][0]))
    def unary(self):
        if self.op("!"): return ("op", "!", self.unary(), None)
        k, v = self.peek()
        if self.op("@"): n = ("ref",)
        elif k == "str": self.i += 1; n = ("str", v[1:-1])
        elif self.op("("): n = self.expr(0); self.need(")")
        else: n = self.number()
        while True:
            if self.op("."): n = ("cat", n, self.prop())
            elif self.op(".."): n = ("pcat", n, self.prop())
            else: return n

def parse(t):
    try: return Parser(scan(t)).path()
    except Bad: return None

TYPES = {0: "root", 1: "cat", 2: "pcat", 4: "id", 5: "op", 6: "pred", 7: "wild", 8: "num", 9: "str", 11: "var", 13: "ref", 14: "script", 15: "filter", 16: "range"}
OPS = ["or", "and", "!", "==", "<", ">", "!=", "<=", ">=", "+", "-", "*", "/", "%", "|"]
def read(d):
    """tree sent by jpsrv (put_ast)"""
    k = d.i32()
    if k == -1: return None
    n = TYPES.get(k, "type%d" % k); v = None
    if n == "num": v = d.f64()
    elif n in ("id", "str", "var"): v = d.s().decode("latin-1")
    elif n == "op": k = d.i32(); v = OPS[k] if 0 <= k < len(OPS) else k
    l = read(d); r = read(d)
    if n in ("root", "wild", "ref"): return (n,) if l is None and r is None else (n, l, r)
    if n in ("num", "id", "str", "var"): return (n, v) if l is None and r is None else (n, v, l, r)
    if n == "op": return ("op", v, l, r)
    if n in ("script", "filter"): return (n, l) if r is None else (n, l, r)
    return (n, l, r)

def variables(n):
    """the tree with @.a.b turned into one variable a.b"""
    if n is None or not isinstance(n, tuple): return n
    n = tuple(variables(x) for x in n)
    if n[0] == "cat" and n[2] and n[2][0] == "id":
        if n[1] == ("ref",): return ("var", n[2][1])
        if n[1] and n[1][0] == "var": return ("var", n[1][1] + "." + n[2][1])
    return n
