import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import prop, texts, cases, struct
from engine import is_token_start, clip
from srv import Reader, NULL
class P(prop.Prop):
    quota = {"quick": 22400, "thorough": 400000}
    variants = ("asan", "fast")
    rule = ("random JSON files (hostile strings, values longer than the load buffer (some beyond 32 and 64 KB), six layouts) and raw character soups, footprints from 1 to beyond the file size; pieces of loadBoundedInputStream and the result of "
            "loadInputStream checked against the stated invariants; one in twenty cases uses a missing file with the engines; non-trivial = at least three loads of a JSON text, or two of a raw one")
    def gen(self, R, tier):
        if R.chance(5): return dict(missing=1, text="", ops=[R.pick(["serial 0", "par 3 0 0", "train 0", "opt 4 0 0"]) for _ in range(R.int(1, 4))], v=R.pick(["asan", "fast"]))
        js = R.chance(75)
        t = texts.json_text(R, 40000 if R.chance(1) else 70000 if R.chance(1) else R.pick([0, 0, 0, 40, 300, 1999, 2500, 5000])) if js else texts.raw_text(R)
        k = R.int(0, 9)
        f = R.int(1, 20) if k < 5 else R.int(1, max(1, len(t) + 3)) if k < 9 else R.pick([1, 100, 1999, 2000, 2001, 4000])
        return dict(text=t, fp=f, js=js, v=R.pick(["asan", "fast"]))
    def judge(self, env, case):
        info = dict(nontrivial=False)
        if case.get("missing"):
            info["class"] = "missing file"
            r = env.call(case["v"], "run", "", "$.a", "missing", *case["ops"])
            n = sum(1 for o in case["ops"] if o[0] != "t")
            if not r.ok or r.data != b"\xff\xff\xff\xff" * n: return "missing file, %s: %s, output %r" % (case["ops"], r.why(), r.data[:40]), info
            return None, info
        t, f = case["text"], case["fp"]
        a = env.call(case["v"], "load", t); b = env.call(case["v"], "bload", t, f)
        where = "of %s with footprint %d" % (clip(t, 200), f)
        if not a.ok or not b.ok: return "loading %s: %s %s" % (where, a.why(), b.why()), info
        d = Reader(a.data); whole = d.s(); null = d.i32()
        raw = t.encode("latin-1")
        if whole != raw: return "loadInputStream %s gives %s" % (where, clip(whole or "", 100)), info
        if not null: return "loadInputStream of a missing file is not NULL", info
        d = Reader(b.data); ps = []; pos = 0
        while True:
            s = d.s()
            if s is None: break
            p = d.i32(); ps.append(s)
            if p != pos + len(s): return "load %d %s: position %d after %d bytes" % (len(ps), where, p, pos + len(s)), info
            if not s: return "load %d %s is empty" % (len(ps), where), info
            if pos + len(s) > len(t): return "load %d %s is beyond the end" % (len(ps), where), info
            pos += len(s)
        if d.i32() != pos: return "position changes at the end %s" % where, info
        if b"".join(ps) != raw: return "loads %s do not add up to the file: %s" % (where, [clip(x, 40) for x in ps[:6]]), info
        info["nontrivial"] = len(ps) >= (3 if case["js"] else 2)
        info["class"] = ["json" if case["js"] else "raw", "loads:" + ("0" if not ps else "1" if len(ps) == 1 else "2-8" if len(ps) < 9 else "9+")]
        starts = set(s for k, s, e, c in texts.tokens(t) if t[s] == '"') if case["js"] else None
        pos = 0
        for i, s in enumerate(ps):
            if i and not (is_token_start(t, pos) and (starts is None or pos in starts)): return "load %d %s starts at %s" % (i, where, clip(t[pos:pos + 20])), info
            if i < len(ps) - 1 and len(s) < f: return "load %d %s is shorter than the footprint: %d" % (i, where, len(s)), info
            for p in range(pos + f, pos + len(s)):
                if is_token_start(t, p): return "load %d %s (%d bytes) runs over a possible end" % (i, where, len(s)), info
            pos += len(s)
        return None, info
    def shrink(self, case):
        if case.get("missing"): return
        for k in (1, 2, 3, case["fp"] // 2, case["fp"] - 1):
            if 1 <= k < case["fp"]: yield dict(case, fp=k)
        for t in (cases.shrink_text if case["js"] else texts.shrink_raw)(case["text"]): yield dict(case, text=t)
if __name__ == "__main__": prop.main(P(), "C08")
