"""Runner shared by all checks.

A property is a module-level object with
   gen(R, tier)      -> case : JSON-able dict, every random choice goes through the chooser R
   judge(env, case)  -> (message | None, info)   message = how the property fails
                        info: dict with "nontrivial": bool, "class": str, "skip": bool
   shrink(case)      -> iterator of smaller candidate cases
The runner generates cases in worker processes (half of them through Hypothesis, which
shrinks by replaying smaller choice sequences, half from a seeded PRNG followed by the
structural shrinker), replays a failure three times and writes the replay file.
"""
import os, sys, json, time, struct, hashlib, random, traceback, argparse, multiprocessing as mp, signal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from gen import RandChooser
from srv import Server, VARIANT_ENV

VERIF = B.VERIF
MAXW = int(os.environ.get("JPS_WORKERS", "8"))

class HypChooser:
    """Chooser whose decisions are drawn from Hypothesis."""
    def __init__(self, draw):
        from hypothesis import strategies as st
        self.draw, self.st = draw, st
    def int(self, a, b): return self.draw(self.st.integers(a, b))
    def pick(self, seq): return seq[self.draw(self.st.integers(0, len(seq) - 1))]
    def chance(self, pct): return self.draw(self.st.integers(0, 99)) >= 100 - pct

class NoAnswer(Exception):
    """the check cannot decide this case (exit 2), which is no alarm"""

class Env:
    """Lazily started servers, one per build variant."""
    def __init__(self, dirs):
        self.dirs, self.s = dirs, {}
    def srv(self, variant):
        if variant not in self.s:
            self.s[variant] = Server(self.dirs[variant], env=VARIANT_ENV.get(variant))
        return self.s[variant]
    def call(self, variant, *f):
        r = self._call(variant, *f)
        if r.status == 94: raise NoAnswer("the harness was built without the command %s: its part of the internal interface has changed" % f[0])
        return r
    def _call(self, variant, *f):
        try:
            return self.srv(variant).call(*f)
        except (RuntimeError, BrokenPipeError, OSError):
            self.srv(variant).close(); del self.s[variant]
            return self.srv(variant).call(*f)
    def close(self):
        for x in self.s.values(): x.close()
        self.s = {}

def canon(case): return json.dumps(case, sort_keys=True)
def digest(case): return hashlib.sha1(canon(case).encode()).hexdigest()[:16]

class Fail(Exception):
    pass

def safe_judge(P, env, case):
    """a reply the judge cannot even read is a failure of the case (nothing of the kind happens on a sound tree)"""
    try: return P.judge(env, case)
    except UnicodeEncodeError: raise          # a text that cannot be sent is a mistake of the generator
    except (struct.error, IndexError, KeyError, ValueError, TypeError) as e:
        return "unreadable reply: %s" % traceback.format_exc().strip().splitlines()[-1] + " " + traceback.format_exc()[-600:], dict(nontrivial=False)

class Worker:
    def __init__(self, P, env, tier, known):
        self.P, self.env, self.tier, self.known = P, env, tier, known
        self.n = 0; self.seen = set(); self.classes = {}; self.samples = []; self.skipped = 0; self.excluded = 0
        self.fail = None      # (case, message)
        self.deadline = None
    def run_one(self, case, count=True):
        msg, info = safe_judge(self.P, self.env, case)
        if count:
            self.n += 1
            if info.get("skip"): self.skipped += 1
            c = info.get("class")
            for x in ([c] if isinstance(c, str) else c or []): self.classes[x] = self.classes.get(x, 0) + 1
            if info.get("nontrivial"):
                d = digest(case)
                if d not in self.seen:
                    self.seen.add(d)
                    if len(self.samples) < 3 and len(canon(case)) < 1500: self.samples.append(case)
        if msg and self.known and self.P.is_known(case, msg, self.known):
            self.excluded += 1
            return None
        return msg
    def note(self, case, msg):
        if self.fail is None or len(canon(case)) < len(canon(self.fail[0])):
            self.fail = (case, msg)
    # -------- random + structural shrinking
    def random_round(self, seed, k):
        for i in range(k):
            R = RandChooser("%s/%d" % (seed, i))
            case = self.P.gen(R, self.tier)
            msg = self.run_one(case)
            if msg:
                self.note(case, msg)
                self.shrink(40)
                return True
        return False
    def shrink(self, secs):
        end = time.time() + secs
        better = True
        while better and time.time() < end:
            better = False
            for c in self.P.shrink(self.fail[0]):
                if time.time() > end: break
                if len(canon(c)) >= len(canon(self.fail[0])): continue
                try: msg = self.run_one(c, count=False)
                except Exception: continue
                if msg:
                    self.fail = (c, msg); better = True
                    break
    # -------- Hypothesis
    def hyp_round(self, seed, k):
        from hypothesis import given, settings, HealthCheck, Phase, seed as hseed, strategies as st
        first = [None]
        def body(data):
            if first[0] and time.time() > first[0] + 25: return
            case = self.P.gen(HypChooser(data.draw), self.tier)
            msg = self.run_one(case)
            if msg:
                if not first[0]: first[0] = time.time()
                self.note(case, msg)
                raise Fail(msg)
        f = given(st.data())(body)
        f = settings(max_examples=k, database=None, deadline=None, report_multiple_bugs=False,
                     phases=[Phase.generate, Phase.shrink], suppress_health_check=list(HealthCheck), print_blob=False)(f)
        f = hseed(seed)(f)
        try:
            f()
        except Exception as e:
            if self.fail is None: raise
        if self.fail is not None:
            self.shrink(20)
            return True
        return False

def worker_main(pid, P, dirs, tier, seed, w, quota, cap, known, q, stop):
    try:
        devnull = os.open(os.devnull, os.O_WRONLY); os.dup2(devnull, 1)
        env = Env(dirs)
        W = Worker(P, env, tier, known)
        t0 = time.time(); rnd = 0
        try:
            while W.n < quota and time.time() - t0 < cap and not stop.is_set():
                sub = int(hashlib.sha256(("%s/%d/%d/%d" % (pid, seed, w, rnd)).encode()).hexdigest()[:12], 16)
                hyp = P.hyp_share and ((w + rnd) % 4 < P.hyp_share)
                k = min(40, max(1, quota - W.n))
                bad = W.hyp_round(sub, k) if hyp else W.random_round(sub, k)
                rnd += 1
                if bad: stop.set(); break
        finally:
            env.close()
        q.put(dict(n=W.n, seen=list(W.seen), classes=W.classes, samples=W.samples, skipped=W.skipped,
                   excluded=W.excluded, fail=W.fail))
    except BaseException:
        q.put(dict(error=traceback.format_exc()))

class Prop:
    hyp_share = 2          # of 4 rounds, how many use Hypothesis
    variants = ("asan",)
    want = ("jpsrv",)
    level = "exploration"
    workers = 8
    quota = {"quick": 3000, "thorough": 60000}
    cap = {"quick": 150, "thorough": 1500}
    assumptions = []
    known_cases = ()
    def is_known(self, case, msg, known): return any(canon(k["case"]) == canon(case) for k in known)
    def shrink(self, case): return iter(())
    def extra(self, env, tier, seed): return None, {}      # optional deterministic part: (fail, coverage dict)

def load_known(pid):
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("status") == "known" and d["property"] == pid: out.append(d)
    return out

def main(P, pid):
    try: main2(P, pid)
    except Exception:
        traceback.print_exc(); print("no answer"); sys.stdout.flush(); os._exit(2)
def main2(P, pid):
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay"); ap.add_argument("--quota", type=int); ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    dirs = {v: B.build(v, P.want_for(v) if hasattr(P, "want_for") else P.want) for v in P.variants}
    if a.replay:
        case = json.load(open(a.replay))["case"]
        env = Env(dirs); msg, info = safe_judge(P, env, case); env.close()
        print(json.dumps(case, indent=1)); print("FAIL: " + msg if msg else "holds"); print(info)
        sys.exit(1 if msg else 0)
    known = load_known(pid)
    env = Env(dirs)
    # known findings: reproduce and report
    for k in known:
        m, _ = P.judge(env, k["case"])
        print("KNOWN-FINDING: property=%s %s%s" % (pid, k["what"], "" if m else " (does not fail on this tree)"))
    fail, cov = P.extra(env, a.tier, a.seed)
    env.close()
    res = []
    if fail is None:
        nw = min(P.workers, MAXW); quota = -(-(a.quota or P.quota[a.tier]) // nw)
        q = mp.Queue(); stop = mp.Event()
        ps = [mp.Process(target=worker_main, args=(pid, P, dirs, a.tier, a.seed, w, quota, P.cap[a.tier], known, q, stop)) for w in range(nw)]
        for p in ps: p.start()
        res = [q.get() for _ in ps]
        for p in ps: p.join(30)
    errs = [r["error"] for r in res if "error" in r]
    if errs:
        print(errs[0]); sys.exit(2)
    fails = [r["fail"] for r in res if r["fail"]]
    if fail is not None: fails.append(fail)
    seen = set(); classes = {}
    for r in res:
        seen.update(r["seen"])
        for c, v in r["classes"].items(): classes[c] = classes.get(c, 0) + v
    samples = [s for r in res for s in r["samples"]][:4]
    confirmed = None
    flaky = 0
    for case, msg in sorted(fails, key=lambda f: len(canon(f[0]))):
        env = Env(dirs)
        again = [safe_judge(P, env, case)[0] for _ in range(3)]
        # a failure must come back every time; one that depends on memory content or threads must come back twice in ten runs, time-outs excepted
        need = 3
        if 0 < sum(1 for x in again if x) < 3 or (msg and not any(again)):
            again += [safe_judge(P, env, case)[0] for _ in range(7)]; need = 2
            again = [x if x and "hang" not in x and "timeout" not in x else None for x in again]
        env.close()
        if sum(1 for x in again if x) >= need:
            confirmed = (case, [x for x in again if x][0]); break
        flaky += 1
    cov.update(evaluations=sum(r["n"] for r in res) + cov.pop("extra_evaluations", 0), distinct_nontrivial=len(seen) + cov.pop("extra_nontrivial", 0), rule=P.rule,
               samples=samples + cov.pop("extra_samples", []), classes=classes, skipped=sum(r["skipped"] for r in res),
               excluded_known=sum(r["excluded"] for r in res), unconfirmed_failures=flaky)
    ev = dict(property=pid, tier=a.tier, seed=a.seed, level=P.level, coverage=cov, assumptions=list(P.assumptions),
              wall_s=round(time.time() - t0, 1), violations=1 if confirmed else 0)
    if not a.no_evidence:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d skipped, %.1fs %s" % (
        pid, a.tier, a.seed, cov["evaluations"], cov["distinct_nontrivial"], cov["skipped"], time.time() - t0, json.dumps(classes, sort_keys=True)))
    if confirmed:
        rp = os.path.join(VERIF, "evidence", "replay-%s.json" % pid)
        with open(rp, "w") as f: json.dump(dict(property=pid, message=confirmed[1], case=confirmed[0]), f, indent=1)
        print("  " + confirmed[1][:1500])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    if fails:
        print("  note: %d failure(s) did not reproduce 3 times and are not reported: %s" % (flaky, fails[0][1][:300]))
    sys.exit(0)
