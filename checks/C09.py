import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import prop, texts, cases
from engine import clip
from srv import Reader
class P(prop.Prop):
    quota = {"quick": 22400, "thorough": 400000}
    variants = ("asan", "fast")
    rule = ("random JSON texts (hostile strings and keys, tokens around and beyond the initial buffer of 4000 characters, six layouts) and fragments of them cut at token boundaries; every token compared with a reference tokenizer; "
            "non-trivial = a key, a string with an escape and a number or literal all occur")
    def gen(self, R, tier):
        t = texts.json_text(R, R.pick([0, 0, 0, 40, 3999, 4000, 9000]))
        cut = ""
        if R.chance(45):
            tk = texts.tokens(t); k = len(tk)
            i = R.int(0, k - 1); j = R.int(i, k)
            a = tk[i][1]; b = len(t) if j == k else tk[j][1]
            t = t[a:b] if b > a else t
            cut = "fragment"
        return dict(text=t, cut=cut, v=R.pick(["asan", "fast"]))
    def judge(self, env, case):
        t = case["text"]
        want = texts.tokens(t)
        kinds = set(w[0] for w in want)
        info = dict(nontrivial=6 in kinds and any(w[0] == 7 and w[3][0] != '"' for w in want) and any(w[3].startswith('"') and "\\" in w[3] for w in want))
        info["class"] = [case.get("cut") or "whole", "longest:" + ("<100" if max([len(w[3]) for w in want] + [0]) < 100 else "<4000" if max(len(w[3]) for w in want) < 4000 else "4000+")]
        r = env.call(case["v"], "lex", t); d = Reader(r.data)
        where = "token %d of %s"
        n = 0; last = 0
        try:
            while True:
                k = d.i32()
                if k == -1: break
                pos = d.i32(); c = d.s()
                if n >= len(want): return (where + ": %s %s instead of the end") % (n, clip(t, 200), texts.NAMES.get(k, k), clip(c)), info
                w = want[n]
                if k != w[0]: return (where + ": %s instead of %s") % (n, clip(t, 200), texts.NAMES.get(k, k), texts.NAMES[w[0]]), info
                if w[0] in (6, 7) and c != w[3].encode("latin-1"): return (where + ": text %s instead of %s") % (n, clip(t, 200), clip(c), clip(w[3])), info
                e = w[2]
                while e < len(t) and t[e] in texts.WS and w[0] == 7: e += 1
                if not w[2] <= pos <= e: return (where + " (%s): position %d instead of %d") % (n, clip(t, 200), clip(w[3]), pos, w[2]), info
                n += 1
        except Exception:
            return (where + ": %s") % (n, clip(t, 200), r.why()), info
        if not r.ok: return "%s: %s" % (clip(t, 200), r.why()), info
        if n < len(want): return "%s: %d tokens instead of %d" % (clip(t, 200), n, len(want)), info
        return None, info
    def shrink(self, case):
        if case.get("cut"):
            tk = texts.tokens(case["text"])
            for k in (len(tk) // 2, 1):
                if 0 < k < len(tk): yield dict(case, text=case["text"][tk[k][1]:]); yield dict(case, text=case["text"][:tk[len(tk) - k][1]])
        else:
            for t in cases.shrink_text(case["text"]): yield dict(case, text=t)
if __name__ == "__main__": prop.main(P(), "C09")
