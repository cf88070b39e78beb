import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import prop, model, gen, cases
from engine import clip
from srv import Reader
NONE = "\x01"
TEXTS = ["0", "1", "2", "-1", "7", "30", "0.0", "-0", "1.5", "2.50", "1e2", "1E-2", "100", "-3", "12345678901234567890", "-9223372036854775808", "1e400", "1e300", "0.1", "true", "false", "null", '""', '"k"', '"1"', '"true"', '"a b"', '"kk"', '"\\""', '"Z"', "", NONE]
NAMES = ["a", "b", "c", "d", "a.b", "b.c.d"]
FAMILIES = [NAMES, NAMES, ["a", "A", "b", "B", "a.B", "A.b"], ["a", "aa", "ab", "aab", "a.a", "a.ab"], ["id", "id_str", "idx", "i", "ID", "id.i"], ["x" * 60, "x" * 61, "x" * 60 + "Y", "x" * 60 + "y", "x.x", "x"], ["y" * 40, "y" * 40 + ".y", "y" * 40 + "." + "z" * 50, "y.y"]]
LONG = [x + y for x in ("L" * 30, "L" * 62, "L" * 126, "L" * 253, "L" * 1022, "L" * 5000) for y in ("", "1", "2", "12", "22")]
NEAR = ["16777217", "16777216", "0.1000000001", "0.1", "0.10000000000000001", "9007199254740993", "9007199254740992", "2147483648", "2147483647", "4294967296", "0.30000000000000004", "0.3", "100000000.01", "100000000.02"]
def to_value(t):
    if t == NONE: return ("null", None)
    if t == "": return ("cont", None)
    if t[0] == '"': return ("text", t[1:-1])
    if t == "null": return ("null", None)
    if t in ("true", "false"): return ("bool", t == "true")
    return ("num", float(t))
class P(prop.Prop):
    quota = {"quick": 25600, "thorough": 500000}
    variants = ("asan", "fast")
    rule = ("random filter expressions (all operators, up to four levels) over up to six conditions, each evaluated for 1-6 assignments of JSON scalars (numbers in all notations, strings, booleans, null, empty string, containers, no value), twice each; truth value, unchanged conditions and cleared conditions "
            "compared with the reference evaluator; non-trivial = the assignments give both truth values, or the expression has arithmetic or a comparison between conditions")
    def expr(self, R, names, d):
        k = R.int(0, 11)
        if d <= 0 or k < 2: return self.atom(R, names)
        if k < 3: return ("not", ("par", self.expr(R, names, d - 1)))
        if k < 4: return ("par", self.expr(R, names, d - 1))
        return ("bin", R.pick(["||", "&&", "&&", "==", "==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/", "%"]), ("par", self.expr(R, names, d - 1)), ("par", self.expr(R, names, d - 1))) if R.chance(70) else \
            ("bin", R.pick(["==", "!=", "<", ">", "<=", ">="]), self.atom(R, names), self.atom(R, names))
    def atom(self, R, names):
        k = R.int(0, 9)
        if k < 6: return ("path", R.pick(names).split("."))
        if k < 9: return ("num", R.pick(["0", "1", "2", "7", "30", "-1", "-3", "1.5", "2.5", "100", "0.1", "12345678901234567890"] if R.chance(75) else NEAR))
        return (R.pick(["str", "dstr"]), R.pick(["k", "1", "true", "", "a b", "kk", "Z"] if self.near is None or R.chance(50) else self.near))
    def gen(self, R, tier):
        fam = R.pick(FAMILIES)
        names = [n for n in fam if R.chance(60)] or [fam[0]]
        for i in range(len(names) - 1):
            j = R.int(i, len(names) - 1); names[i], names[j] = names[j], names[i]
        # sometimes the strings are long and differ only at the end
        self.near = None
        if R.chance(15): i = 5 * R.int(0, len(LONG) // 5 - 1); self.near = LONG[i:i + 5]
        e = self.expr(R, names, R.int(1, 4))
        sets = [['"%s"' % R.pick(self.near) if self.near and R.chance(50) else R.pick(TEXTS) if R.chance(60) else R.pick(NEAR) if R.chance(25) else str(R.int(-3, 9)) for _ in names] for _ in range(R.int(1, 6))]
        return dict(expr=e, names=names, sets=sets, v=R.pick(["asan", "fast"]))
    def judge(self, env, case):
        e = model.tup(case["expr"]); names = case["names"]; s = model.show_expr(e)
        want = []; keep = []
        for st in case["sets"]:
            d = dict(zip(names, st))
            try: want.append(model.truth(model.ev(e, lambda p: to_value(d.get(".".join(p), NONE)))))
            except (model.Undefined, OverflowError): want.append(None)     # any answer, but an answer
            keep.append(st)
        r = env.call(case["v"], "eval", "$[?(%s)]" % s, str(len(names)), *names, *[x for st in keep for x in st])
        info = dict(nontrivial=len(set(want) - {None}) > 1 or any(o in str(e) for o in ("'+'", "'-'", "'*'", "'/'", "'%'")))
        info["class"] = ["any" if w is None else "true" if w else "false" for w in want]
        d = Reader(r.data)
        for st, w in zip(keep, want):
            where = "%s with %s" % (s, dict((n, None if x == NONE else x) for n, x in zip(names, st)))
            try: a, b, kept, clr = d.i32(), d.i32(), d.i32(), d.i32()
            except Exception: return "%s: %s" % (where, r.why()), info
            if w is not None and a != w: return "%s: %s" % (where, bool(a)), info
            if b != a: return "%s: %s, the second time %s" % (where, bool(a), bool(b)), info
            if not kept: return "%s: the conditions change" % where, info
            if not clr: return "%s: clearing leaves a value or changes a name" % where, info
        if not r.ok: return "%s: %s" % (s, r.why()), info
        return None, info
    def shrink(self, case):
        for i in range(len(case["sets"])):
            if len(case["sets"]) > 1: yield dict(case, sets=case["sets"][:i] + case["sets"][i + 1:])
        for x in cases.shrink_expr(case["expr"]): yield dict(case, expr=x)
if __name__ == "__main__": prop.main(P(), "C12")
