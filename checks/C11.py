import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import prop, pathlang
from engine import clip
from srv import Reader
NAMES = ["a", "b", "id", "x_1", "_", "Z9", "true", "null", "a1b2c3", "k" * 200]
NUMS = ["0", "1", "2", "10", "007", "1.5", "0.25", "2147483648", "123456789012.5"]
STRS = ["'k'", '"k"', "''", '"a b"', "'it\\'s'", '"q\\"x"', "'$.a[0]'", '"\\\\"', "'&&'", "'1,2'", "'" + "s" * 300 + "'"]
BIN = ["||", "&&", "==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/", "%"]
ALLT = NAMES[:4] + NUMS[:6] + STRS[:8] + BIN + ["!", "(", ")", "[", "]", "?", "$", "@", ".", "..", ",", ":", "=~", "*", "-"]
class G:
    def __init__(self, R): self.R, self.o = R, []
    def e(self, *t): self.o.extend(t)
    def num(self):
        if self.R.chance(20): self.e("-")
        self.e(self.R.pick(NUMS))
    def prop(self): self.e(self.R.pick(NAMES) if self.R.chance(80) else "*")
    def path(self):
        R = self.R; self.e("$")
        for _ in range(R.int(0, 5)):
            k = R.int(0, 9)
            if k < 3: self.e("."); self.prop()
            elif k < 5: self.e(".."); self.prop()
            else: self.e("["); self.pred(); self.e("]")
    def pred(self):
        R = self.R; k = R.int(0, 12)
        if k == 0: self.e("*")
        elif k == 1: self.num(); self.e(":"); self.num()
        elif k == 2: self.e(":"); self.num()
        elif k == 3: self.num(); self.e(":")
        elif k == 4: self.num()
        elif k == 5: self.e("("); self.expr(2); self.e(")")
        elif k < 8:
            for i in range(R.int(1, 3)):
                if i: self.e(",")
                if R.chance(50): self.num()
                else: self.e(R.pick(STRS))
        else: self.e("?", "("); self.expr(R.int(0, 4)); self.e(")")
    def expr(self, d):
        R = self.R; k = R.int(0, 9)
        if d <= 0 or k < 2: return self.atom()
        if k < 7: self.expr(d - 1); self.e(R.pick(BIN)); self.expr(d - 1)
        elif k < 8: self.e("!"); self.expr(d - 1)
        else:
            self.e("("); self.expr(d - 1); self.e(")")
            if R.chance(15): self.e("."); self.prop()
    def atom(self):
        R = self.R; k = R.int(0, 9)
        if k < 6:
            self.e("@")
            for _ in range(R.int(0 if k == 0 else 1, 3)): self.e(".." if R.chance(8) else "."); self.prop()
        elif k < 8: self.num()
        else: self.e(R.pick(STRS))
sys.setrecursionlimit(20000)
class P(prop.Prop):
    quota = {"quick": 25600, "thorough": 400000}
    variants = ("asan", "fast")
    rule = ("token sequences of random paths (all step kinds, index lists, scripts, filters with nested operators, parentheses, strings and numbers), joined with random blanks; half of them mutated by tokens or characters; the tree, or the rejection with status 1 and a message, "
            "compared with a reference recursive-descent parser; non-trivial = accepted with a filter of at least two operators, or rejected within three tokens of a valid path")
    def gen(self, R, tier):
        g = G(R); g.path()
        if R.chance(45): g.e("[", "?", "("); g.expr(R.int(1, 5)); g.e(")", "]")
        if R.chance(4): self.big(R, g)
        t = g.o; mut = 0
        if R.chance(35):
            for _ in range(R.int(1, 3)):
                mut += 1; i = R.int(0, len(t) - 1) if t else 0; k = R.int(0, 4)
                if k == 0: t = t[:i] + t[i + 1:]
                elif k == 1: t = t[:i] + [R.pick(ALLT)] + t[i:]
                elif k == 2: t = t[:i] + [R.pick(ALLT)] + t[i + 1:]
                elif k == 3 and t: j = R.int(0, len(t) - 1); t = list(t); t[i], t[j] = t[j], t[i]
                else: t = t[:i] + t[i:i + 1] + t[i:]
        ws = R.pick([0, 0, 20, 60])
        s = "".join(x + (R.pick([" ", "\t", "  ", "\f"]) if ws and R.chance(ws) else "") for x in t)
        if R.chance(15):
            mut += 1
            for _ in range(R.int(1, 3)):
                i = R.int(0, len(s)); k = R.int(0, 2)
                if k == 0: s = s[:i] + s[i + 1:]
                elif k == 1: s = s[:i] + R.pick("\"'\\.[]()$@!=&|<> -*0a#~\n\xe9{}") + s[i:]
                else: s = s[:i] + R.pick("\"'\\.[]()$@!=&|<> -*0a#~{};") + s[i + 1:]
        return dict(path=s, mut=mut, v=R.pick(["asan", "fast"]))
    def big(self, R, g):
        """long and deep paths: what a parser of fixed size could not hold"""
        n = R.pick([20, 60, 150, 210, 400, 700]); k = R.int(0, 5)
        if k == 0:
            for i in range(n): g.e(*R.pick([(".", "a"), ("..", "b"), ("[", "*", "]"), ("[", "1", ":", "3", "]")]))
        elif k == 1:
            g.e("[", "?", "("); g.o += ["("] * n; g.expr(1); g.o += [")"] * n; g.e(")", "]")
        elif k == 2:
            g.e("[", "?", "("); g.o += ["!"] * n; g.expr(1); g.e(")", "]")
        elif k == 3:
            g.e("[", "?", "(")
            for i in range(n): g.atom(); g.e(R.pick(BIN))
            g.atom(); g.e(")", "]")
        elif k == 4:
            g.e("[", "?", "(")
            for i in range(n): g.atom(); g.e(R.pick(BIN), "(")
            g.atom(); g.o += [")"] * n; g.e(")", "]")
        else: g.e(".", R.pick(["k", "ab_"]) * (n * 20)); g.e("[", "?", "(", "@", ".", "v" * n, "==", "'" + "s\\'" * (n * 10) + "'", ")", "]")
    def judge(self, env, case):
        s = case["path"]; want = pathlang.parse(s)
        r = env.call(case["v"], "ast", s)
        nops = str(want).count("'op'")
        info = dict(nontrivial=nops >= 2 if want else 0 < case["mut"] <= 3)
        info["class"] = ["accepted" if want else "rejected", "mutated" if case["mut"] else "grammar", "length:" + ("<100" if len(s) < 100 else "100-999" if len(s) < 1000 else "1000+"), "operators:" + ("0" if not nops else "1" if nops == 1 else "2-4" if nops < 5 else "5+")]
        q = clip(s, 300)
        if want is None:
            if r.status != 1: return "%r is not a path: %s instead of exit 1" % (q, "accepted" if r.ok else r.why()), info
            if not r.log.strip(): return "%r is rejected without a message" % q, info
            return None, info
        if not r.ok: return "%r is a path: %s %s" % (q, r.why(), clip(r.log, 100)), info
        got = pathlang.read(Reader(r.data))
        if got != want: return "%r parses to %s instead of %s" % (q, clip(str(got), 600), clip(str(want), 600)), info
        return None, info
    def shrink(self, case):
        s = case["path"]; n = len(s); k = n // 2
        while k >= 1:
            for i in range(0, n - k + 1, max(1, k // 2)): yield dict(case, path=s[:i] + s[i + k:])
            k //= 2
if __name__ == "__main__": prop.main(P(), "C11")
