import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import prop
from engine import clip
from srv import Reader
# nodes: ["C", sym, opt]  ["S", [[lo, hi]..], neg, opt]  ["Q", [syms], opt]  ["L"|"A", [nodes], opt]  ["R", k, opt]
OPTS = [".", ".", ".", ".", ".", ".", "?", "*", "*", "+"]
NAMED = {10: "n", 9: "t", 13: "r", 12: "f", 11: "v"}
STYLE = [0]         # how special characters are spelt in this case
def esc(c):
    z = STYLE[0]
    if z & 1 and c in NAMED: return "\\" + NAMED[c]
    return ["\\x%02x", "\\x%02X", "\\u%04x", "\\U%08X"][(z >> 1) % 4] % c
def ch(c, special): return "\\" + chr(c) if chr(c) in special else esc(c) if c < 32 or c > 126 or (STYLE[0] & 8 and c % 3 == 0) else chr(c)
def settext(ranges, neg):
    return ("^" if neg else "") + "".join(ch(a, "\\-^") if a == b else ch(a, "\\-^") + "-" + ch(b, "\\-^") for a, b in ranges)
def littext(syms): return "".join(ch(c, "\\") for c in syms)
def show(n):
    k = n[0]
    if k == "C": return "C%d;%s" % (n[1], n[2])
    if k == "S": return "S%s;%s" % (settext(n[1], n[2]).encode("latin-1").hex(), n[3])
    if k == "Q": return "Q%s;%s" % (littext(n[1]).encode("latin-1").hex(), n[2])
    if k == "R": return "R%d;%s" % (n[1], n[2])
    return k + "".join(show(c) for c in n[1]) + ")" + n[2]
def ends(n, w, i, defs, memo):
    """end positions of the matches of n in w starting at i (reference matcher)"""
    key = (id(n), i)
    if key in memo: return memo[key]
    o = n[-1]
    def once(i):
        k = n[0]
        if k == "C": return {i + 1} if i < len(w) and w[i] == n[1] else set()
        if k == "S":
            if i >= len(w): return set()
            hit = any(a <= w[i] <= b for a, b in n[1])
            return {i + 1} if hit != bool(n[2]) else set()
        if k == "Q": return {i + len(n[1])} if w[i:i + len(n[1])] == n[1] else set()
        if k == "R": return ends(defs[n[1]], w, i, defs, memo)
        if k == "A":
            r = set()
            for c in n[1]: r |= ends(c, w, i, defs, memo)
            return r
        cur = {i}
        for c in n[1]:
            nx = set()
            for p in cur: nx |= ends(c, w, p, defs, memo)
            cur = nx
        return cur
    res = set(once(i))
    if o in "*+":
        todo = list(res)
        while todo:
            for q in once(todo.pop()):
                if q not in res: res.add(q); todo.append(q)
    if o in "?*": res = res | {i}
    memo[key] = res
    return res
def weight(n, defs):
    """number of positions, with what a repetition costs"""
    k = n[0]
    w = 1 if k in "CS" else len(n[1]) if k == "Q" else weight(defs[n[1]], defs) if k == "R" else sum(weight(c, defs) for c in n[1])
    return w
class G:
    def __init__(self, R, M, ndef, alpha): self.R, self.M, self.ndef, self.alpha = R, M, ndef, alpha
    def sym(self): return self.R.pick(self.alpha) if self.R.chance(85) else self.R.int(1, self.M - 1)
    def ranges(self):
        R = self.R; out = []
        for _ in range(R.int(1, 3)):
            a = self.sym(); b = a
            if R.chance(50): b = min(self.M - 1, a + R.int(1, R.pick([2, 5, 30])))
            if b > 127 : b = a
            out.append([a, b])
        return out
    def node(self, d, o=None):
        R = self.R; k = R.int(0, 11); o = R.pick(OPTS) if o is None else o
        if d <= 0: k = R.int(0, 4)
        if k < 3: return ["C", self.sym(), o]
        if k == 3:
            if R.chance(25): return ["S", [], True, o]
            return ["S", self.ranges(), R.chance(35), o]
        if k == 4:
            if self.ndef and R.chance(50): return ["R", R.int(0, self.ndef - 1), o]
            return ["Q", [self.sym() for _ in range(R.int(1, 4))], o]
        if k < 9: return ["L", [self.node(d - 1) for _ in range(R.int(1, 4))], o]
        return ["A", [self.node(d - 1) for _ in range(R.int(1, 4))], o]
    def word(self, n, defs):
        """a word that n matches, more or less"""
        R = self.R; o = n[-1]
        c = 1 if o == "." else R.int(0, 1) if o == "?" else R.int(0, 3) if o == "*" else R.int(1, 3)
        out = []
        for _ in range(c):
            k = n[0]
            if k == "C": out.append(n[1])
            elif k == "S":
                if n[2]: out.append(self.sym())
                else: a, b = R.pick(n[1]); out.append(R.int(a, b))
            elif k == "Q": out += n[1]
            elif k == "R": out += self.word(defs[n[1]], defs)
            elif k == "A": out += self.word(R.pick(n[1]), defs)
            else:
                for x in n[1]: out += self.word(x, defs)
            if len(out) > 14: break
        return out
class P(prop.Prop):
    quota = {"quick": 14400, "thorough": 250000}
    variants = ("asan", "fast")
    rule = ("1-6 random expressions (characters, sets and complements, literals, sequences, alternatives, ? * +, references to definitions, several start conditions) over 3..256 symbols, with and without equivalence classes; "
            "words drawn from the expressions and mutated; every prefix judged by the automata of the single expressions, the combined automaton and its tables, and by a backtracking matcher; "
            "non-trivial = at least one word is accepted, at least one rejected, and the expressions hold a repetition or an alternative")
    def gen(self, R, tier):
        pipe = R.pick("sse")
        M = R.pick([3, 4, 6, 10, 12, 20, 40, 60, 120, 128]) if pipe == "s" else 128
        if R.chance(4): M = 256
        alpha = [R.int(1, M - 1) for _ in range(R.int(1, 5))]
        if R.chance(10) and M > 40: alpha = [9, 10, 12, 13, 11][:len(alpha)]
        elif R.chance(30): alpha = [x for x in range(97, 97 + len(alpha))] if M > 110 else alpha
        big = R.chance(20)
        defs = []
        for _ in range(R.pick([0, 0, 1, 2])): defs.append(G(R, M, len(defs), alpha).node(2))
        g = G(R, M, len(defs), alpha)
        rules = [g.node(R.int(1, 3 if not big else 4)) for _ in range(R.int(1, 6 if not big else 10))]
        if R.chance(12) and M >= 40:      # many different continuations: rows with more than ten entries
            pre = [g.sym() for _ in range(R.int(0, 2))]
            for x in range(R.int(11, min(30, M - 2))): rules.append(["L", [["C", c, "."] for c in pre] + [["C", 1 + (x * 3) % (M - 1), "."]] + ([["C", g.sym(), "."]] if R.chance(60) else []) + [["C", g.sym(), "*"]], "."])
        lim = 40 if M < 100 else 26
        rules = [r for r in rules if weight(r, defs) <= lim] or [["C", alpha[0], "*"]]
        while sum(weight(r, defs) for r in rules if r[0] != "L" or len(rules) < 11) > 2 * lim: rules.pop()
        pres = None
        if R.chance(20): pres = [R.pick([[], [], ["default"], ["p"], ["q"], ["p", "q"], ["default", "q"]]) for _ in rules]
        words = []
        for _ in range(R.int(3, 10)):
            w = g.word(R.pick(rules), defs)
            for _ in range(R.pick([0, 0, 1, 2])):
                k = R.int(0, 2); i = R.int(0, len(w))
                if k == 0: w = w[:i] + [g.sym()] + w[i:]
                elif k == 1: w = w[:i] + w[i + 1:]
                else: w = w[:i] + [g.sym()] + w[i + 1:]
            words.append(w[:16])
        return dict(pipe=pipe, M=M, defs=defs, rules=rules, pres=pres, words=words, esc=R.int(0, 15), v="fast" if R.chance(50) else "asan")
    def judge(self, env, c):
        STYLE[0] = c.get("esc", 0)
        rules, defs, words = c["rules"], c["defs"], [w for w in c["words"] if w]
        pres = c["pres"] or [[] for _ in rules]
        names = sorted({n for p in pres for n in p if n != "default"})
        f = [("P" + "".join(n + "," for n in p) + ";" if p else "") + show(r) for r, p in zip(rules, pres)]
        r = env.call(c["v"], "rx", c["pipe"], c["M"], ";".join(show(d) for d in defs), *f, "--", *[bytes(w) for w in words])
        info = dict(nontrivial=False); info["class"] = ["pipe:" + c["pipe"], "rules:" + ("1" if len(rules) == 1 else "2-6" if len(rules) < 7 else "7+")] + (["conditions"] if names else [])
        what = "rules %s definitions %s" % (clip(str(f), 500), clip(str([show(d) for d in defs])))
        if not r.ok: return "%s: %s" % (what, r.why()), info
        x = Reader(r.data)
        n, s, M = x.i32(), x.i32(), x.i32()
        if (n, s) != (len(rules), 1 + len(names)): return "%s: %d rules, %d start states" % (what, n, s), info
        yes = no = 0
        starts = [["default"]] + [[k] for k in names]
        active = [[not p or "default" in p for p in pres]] + [[k in p for p in pres] for k in names]
        for w in words:
            acc = []
            for rl in rules:
                e = ends(rl, w, 0, defs, {})
                acc.append([i + 1 in e for i in range(len(w))])
            for k in range(n):
                got = [x.i32() != 0 for _ in w]
                if got != acc[k]: return "%s: word %s, automaton of rule %d accepts the prefixes %s, expected %s" % (what, w, k + 1, got, acc[k]), info
                yes += any(got); no += not all(got)
            for b in range(s):
                want = [max([k + 1 for k in range(n) if active[b][k] and acc[k][i]], default=0) for i in range(len(w))]
                for who in ("combined automaton", "its tables"):
                    got = [x.i32() for _ in w]
                    if got != want: return "%s: word %s from start state %d: %s reports %s, expected %s" % (what, w, b + 1, who, got, want), info
        rich = any(o in str(f) for o in ("*", "+", "?")) or any("A" in q for q in f)
        info["nontrivial"] = bool(yes and no and rich)
        if len(rules) > 10: info["class"].append("wide rows")
        return None, info
    def shrink(self, c):
        for i in range(len(c["rules"])):
            if len(c["rules"]) > 1: yield dict(c, rules=c["rules"][:i] + c["rules"][i + 1:], pres=c["pres"] and c["pres"][:i] + c["pres"][i + 1:])
        for i in range(len(c["words"])):
            if len(c["words"]) > 1: yield dict(c, words=[c["words"][i]])
            for j in range(len(c["words"][i])): yield dict(c, words=c["words"][:i] + [c["words"][i][:j] + c["words"][i][j + 1:]] + c["words"][i + 1:])
        if c["pres"]: yield dict(c, pres=None)
        if c.get("esc"): yield dict(c, esc=0)
        def small(n):
            if n[-1] != ".": yield n[:-1] + ["."]
            if n[0] in "LA":
                for x in n[1]: yield x
                for i, x in enumerate(n[1]):
                    if len(n[1]) > 1: yield [n[0], n[1][:i] + n[1][i + 1:], n[2]]
                    for y in small(x): yield [n[0], n[1][:i] + [y] + n[1][i + 1:], n[2]]
            if n[0] == "R": yield ["C", 1, n[2]]
            if n[0] == "S":
                for i in range(len(n[1])):
                    if len(n[1]) > 1: yield ["S", n[1][:i] + n[1][i + 1:], n[2], n[3]]
        for i, r in enumerate(c["rules"]):
            for y in small(r): yield dict(c, rules=c["rules"][:i] + [y] + c["rules"][i + 1:])
        if c["M"] > 4 and c["pipe"] == "s":
            m = max([s for w in c["words"] for s in w], default=1) + 1
            if m < c["M"]: yield dict(c, M=max(m, 4))
if __name__ == "__main__": prop.main(P(), "C14")
