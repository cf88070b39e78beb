import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import prop, texts, cases
from engine import is_token_start, clip
from srv import Reader, NULL
def read_chunks(r):
    d = Reader(r.data); n = d.i32()
    return [d.s() for _ in range(n)]
class P(prop.Prop):
    quota = {"quick": 22400, "thorough": 400000}
    variants = ("asan", "fast")
    rule = ("random JSON texts (hostile strings, long values, six layouts) and raw character soups, worker counts from 1 to beyond the text length; chunks of partitionInputStream and partitionFile "
            "checked against the stated invariants with token spans from a reference tokenizer; non-trivial = at least three chunks of a JSON text, or two of a raw one")
    def gen(self, R, tier):
        if R.chance(1): return dict(text="", n=R.int(1, 9), js=True, v=R.pick(["asan", "fast"]), missing=1)
        js = R.chance(75)
        t = texts.json_text(R, R.pick([0, 0, 0, 40, 300, 5000])) if js else texts.raw_text(R)
        k = R.int(0, 9)
        n = R.int(1, 9) if k < 5 else R.int(1, 64) if k < 8 else R.int(1, max(1, len(t) + 3)) if k < 9 else R.pick([1, 100, 1000, 4096])
        return dict(text=t, n=n, js=js, v=R.pick(["asan", "fast"]))
    def judge(self, env, case):
        t, n = case["text"], case["n"]
        if case.get("missing"):
            r = env.call(case["v"], "partfile", t, n, "missing"); k = Reader(r.data).i32() if r.ok else None
            return None if k == 0 else "partitionFile of a missing file into %d: %s" % (n, "%d chunks" % k if r.ok else r.why()), {"nontrivial": False, "class": "missing file"}
        a = env.call(case["v"], "part", t, n); b = env.call(case["v"], "partfile", t, n)
        info = dict(nontrivial=False)
        for w, r in (("partitionInputStream", a), ("partitionFile", b)):
            if not r.ok: return "%s(%s, %d): %s" % (w, clip(t, 200), n, r.why()), info
        ca, cb = read_chunks(a), read_chunks(b)
        m = self.bad(t, n, ca, case["js"])
        info["nontrivial"] = len(ca) >= (3 if case["js"] else 2)
        info["class"] = ["json" if case["js"] else "raw", "chunks:" + ("1" if len(ca) == 1 else "2-8" if len(ca) < 9 else "9+"), "cut in every share" if len(ca) == n else "fewer chunks than workers"]
        if m: return "partitionInputStream of %s into %d: %s" % (clip(t, 200), n, m), info
        if ca != cb:
            m = self.bad(t, n, cb, case["js"]) or "differs from partitionInputStream: %s / %s" % (cb[:5], ca[:5])
            return "partitionFile of %s into %d: %s" % (clip(t, 200), n, m), info
        return None, info
    def bad(self, t, n, ch, js):
        if not 1 <= len(ch) <= n: return "%d chunks" % len(ch)
        if any(c is None for c in ch): return "a chunk is missing"
        if b"".join(ch) != t.encode("latin-1"): return "chunks do not add up to the text: %s" % [clip(c, 40) for c in ch[:6]]
        pos = 0; starts = set(s for k, s, e, c in texts.tokens(t) if t[s] == '"') if js else None
        size = len(t) // n + 1
        for i, c in enumerate(ch):
            if not c and t: return "chunk %d is empty" % i
            if i and not is_token_start(t, pos): return "chunk %d starts at %s" % (i, clip(t[pos:pos + 20]))
            if i and js and pos not in starts: return "chunk %d starts inside a token at %s" % (i, clip(t[pos:pos + 20]))
            for p in range(pos + size, pos + len(c)):
                if is_token_start(t, p): return "chunk %d (%d characters, share %d) runs over a possible end" % (i, len(c), size)
            pos += len(c)
        return None
    def shrink(self, case):
        for k in (1, 2, 3, case["n"] // 2, case["n"] - 1):
            if 1 <= k < case["n"]: yield dict(case, n=k)
        for t in (cases.shrink_text if case["js"] else texts.shrink_raw)(case["text"]): yield dict(case, text=t)
if __name__ == "__main__": prop.main(P(), "C07")
