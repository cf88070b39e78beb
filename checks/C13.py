import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import prop, model, gen, cases, pathlang
from engine import *
from srv import Reader
OTHER = ["zz", "other", "array", "$", "a.b", "b ", "aa", ""]
def step(steps, pos, sym):
    """sym: key or '[' ; index bounds aside. (positions, positions entered with this symbol)"""
    stay, out = set(), set()
    for p in pos:
        if p == len(steps): continue
        s = steps[p]; k = s[0]
        if k in ("desc", "descany"): stay.add(p)
        if k in ("any", "descany") or (k in ("key", "desc") and sym == s[1]) or (k in ("star", "idx", "slice", "filter") and sym == "["): out.add(p + 1)
    return stay | out, out
class P(prop.Prop):
    quota = {"quick": 14400, "thorough": 250000}
    variants = ("asan", "fast")
    rule = ("random paths of all step kinds (walked along random documents or drawn freely, up to 15 steps) and 10-40 random words of keys and array steps biased towards the path; automaton built from the text or from the syntax tree; state roles, index ranges, liveness, filter expressions and condition lists "
            "compared with an NFA over the steps; non-trivial = some word is accepted with a role and some word is dead or without role")
    def gen(self, R, tier):
        cfg = cases.base_cfg(R, R.pick([ALL, ALL, PATH, STRICT, IDX, FIL, FILX, FILD, IDXD]))
        d = cases.gen_doc(R, cfg)
        if R.chance(60): q = list(cases.gen_steps(R, cfg, d, "filter" if R.chance(40) and "filter" in cfg["steps"] else None))
        else:
            q = []; nested = [gen.gen_value(R, cfg, 3) for _ in range(3)]; nested = [x for x in nested if x[0] == "o"]
            for _ in range(R.int(1, R.pick([4, 6, 9, 15]))):
                k = R.pick(cfg["steps"]); key = R.pick(cfg["keys"])
                q.append({"key": ("key", key), "any": ("any",), "desc": ("desc", key), "descany": ("descany",), "star": ("star",), "idx": ("idx", R.pick([0, 1, 2, 5, 77])),
                          "slice": ("slice",) + R.pick([(0, 1), (1, 3), (None, 2), (2, None), (0, 0), (3, 1), (0, None), (None, 0)]), "filter": ("filter", gen.gen_expr(R, cfg, nested, 2) if k == "filter" else None)}[k])
            nd = 0      # the automaton of many .. steps is exponential in their number
            q2 = []
            for s in q:
                if s[0] in ("desc", "descany", "any"):
                    nd += 1
                    if nd > 4 and s[0] != "any": continue
                q2.append(s)
            q = q2 or [("key", "a")]
        words = []
        for _ in range(R.int(10, 30)):
            w = []; fs = None
            for s in q[:R.int(0, len(q))] if R.chance(50) else q:
                if s[0] in ("desc", "descany"):
                    for _ in range(R.int(0, 2)): w.append(self.sym(R, cfg))
                if s[0] in ("key", "desc"): w.append(s[1])
                elif s[0] in ("any", "descany"): w.append(self.sym(R, cfg))
                else: w.append("[")
                if s[0] == "filter" and R.chance(50):
                    ps = model.paths_of(s[1])
                    if ps:
                        p = list(R.pick(ps)); words.append(w + p[:R.int(1, len(p))] + ([self.sym(R, cfg)] if R.chance(20) else []))
            k = R.int(0, 9)
            if w and k < 3: w[R.int(0, len(w) - 1)] = self.sym(R, cfg)
            elif k < 5: w = w + [self.sym(R, cfg)]
            elif k == 5 and w: i = R.int(0, len(w) - 1); w = w[:i] + w[i + 1:]
            words.append(w)
        return dict(q=q, words=words[:40], how=R.pick(["t", "a"]), v=R.pick(["asan", "fast", "fast"]))
    def sym(self, R, cfg): return R.pick(["[", "[", R.pick(cfg["keys"]), R.pick(cfg["keys"]), R.pick(OTHER)])
    def judge(self, env, case):
        steps = model.tup(case["q"]); n = len(steps); path = model.show(steps); words = [list(w) for w in case["words"]]
        r = env.call(case["v"], "dfa", path, case["how"], *["/".join(x or "\x01" for x in w) for w in words])
        info = dict(nontrivial=False)
        if not r.ok: return "building the automaton of %s: %s" % (path, r.why()), info
        d = Reader(r.data); S, I = d.i32(), d.i32()
        names = [d.s() for _ in range(I)]; names = [x.decode() for x in names]
        rows, stop, acc, idx = [], [], [], []
        for i in range(S):
            rows.append([d.i32() for _ in range(I)]); stop.append(d.i32()); acc.append(d.i32()); idx.append((d.i32(), d.i32()))
        preds = {}
        for _ in range(d.i32()):
            st = d.i32(); m = [(d.i32(), d.i32(), d.s().decode()) for _ in range(d.i32())]
            if st in preds: return "%s: filter state %d is listed twice" % (path, st), info
            preds[st] = (m, pathlang.read(d))
        ends = [d.i32() for _ in words]
        filters = [i for i, s in enumerate(steps) if s[0] == "filter"]
        desc = any(s[0] in ("desc", "descany") for s in steps)
        for st in preds:
            if not 0 < st < S or not acc[st] & 4: return "%s: state %d is listed as a filter state" % (path, st), info
        for row in rows:
            if any(not 0 <= x < S for x in row): return "%s: transition to a state that does not exist" % path, info
        fexpr = {i: pathlang.variables(pathlang.Parser(pathlang.scan(model.show_expr(steps[i][1]))).expr(0)) for i in filters}
        def run(w):
            st = 1
            for x in w: st = rows[st][2 if x == "[" else names.index(x, 3) if x in names[3:] else 1]
            return st
        roles = 0; none = 0
        for w, got in zip(words, ends):
            where = "%s on %s (state %d)" % (path, "/".join(x or "\"\"" for x in w) or "(root)", got)
            if got != run(w): return "%s: dfaNextStateByStr and the table disagree: %d" % (where, run(w)), info
            P_ = [{0}]; E_ = [set()]
            for x in w:
                a, b = step(steps, P_[-1], x); P_.append(a); E_.append(b)
            pos, ent = P_[-1], E_[-1]
            tested = [i for i in filters if i + 1 in ent]
            conds = set(); alive = bool(pos)
            for i in filters:
                for c in set(model.paths_of(steps[i][1])):
                    for k in range(1, len(c) + 1):
                        if len(w) >= k and tuple(w[-k:]) == c[:k] and i + 1 in E_[len(w) - k]:
                            alive = True
                            if k == len(c): conds.add((i, c))
            if got == 0 and alive: return "%s: dead, but the path can still match" % where, info
            bits = (1 if n in pos else 0) | (4 if tested else 2 if conds else 0)
            if acc[got] != bits: return "%s: role %d instead of %d (1 output, 2 condition, 4 filter)" % (where, acc[got], bits), info
            if bits and not stop[got]: return "%s: role %d but not accepting" % (where, bits), info
            if bits: roles += 1
            else: none += 1
            it = [p - 1 for p in ent if steps[p - 1][0] in ("idx", "slice")]
            if not it:
                if idx[got] != (0, 0): return "%s: index range %s" % (where, idx[got]), info
            elif len(pos) == 1:
                s = steps[it[0]]; lo, hi = (s[1], s[1] + 1) if s[0] == "idx" else (s[1] or 0, 1 << 40 if s[2] is None else s[2])
                a, b = idx[got]
                for k in (0, 1, 2, 3, 4, 5, 6, 76, 77, 78, 1000):
                    if ((a <= k < b) or (a, b) == (0, 0)) != (lo <= k < hi): return "%s: index range %s, element %d" % (where, idx[got], k), info
            if len(tested) == 1:
                i = tested[0]
                if got not in preds: return "%s: filter state is not listed" % where, info
                m, tree = preds[got]
                if tree != fexpr[i]: return "%s: filter expression %s instead of %s" % (where, tree, fexpr[i]), info
                if not desc:
                    wantm = sorted((run(w + list(c)), ".".join(c)) for c in set(model.paths_of(steps[i][1])))
                    gotm = sorted((cs, nm.split("\0")[0]) for cs, ty, nm in m)
                else:
                    wantm = sorted(".".join(c) for c in set(model.paths_of(steps[i][1])))
                    gotm = sorted(nm for cs, ty, nm in m)
                if gotm != wantm: return "%s: conditions %s instead of %s" % (where, gotm, wantm), info
                if any(ty != 11 or not 0 < cs < S or not acc[cs] & 2 for cs, ty, nm in m): return "%s: condition list %s holds other states" % (where, m), info
        info["nontrivial"] = roles > 0 and none > 0
        info["class"] = sorted(set("step:" + s[0] for s in steps)) + ["states:" + ("<10" if S < 10 else "<30" if S < 30 else "30+")]
        return None, info
    def shrink(self, case):
        for i in range(len(case["words"])):
            if len(case["words"]) > 1: yield dict(case, words=case["words"][:i] + case["words"][i + 1:])
        for q in cases.shrink_steps(case["q"]): yield dict(case, q=q)
        for i, w in enumerate(case["words"]):
            for j in range(len(w)): yield dict(case, words=case["words"][:i] + [w[:j] + w[j + 1:]] + case["words"][i + 1:])
if __name__ == "__main__": prop.main(P(), "C13")
