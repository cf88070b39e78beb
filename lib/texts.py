"""Texts for the checks that work below the query engine: JSON texts with hostile strings, raw texts, reference tokenizer."""
import re
import cases, gen
HOSTILE = ['\\"', "\\\\", ",", "{", "[", "]", "}", ":", " ", "k", '\\"', ', ', '\\",\\"', '{\\"', '[\\"a\\"', "\\n", "'", "\xc3\xa9", "1", "true", "\\\\\\\\", ',"'.replace('"', '\\"'), ", \\t "]
RAW = ['"', '"', ",", "{", "[", "]", "}", ":", " ", "\n", "\t", "\r", "\\", "a", "1", "true", "-2.5", ',"', '["', '{"', '", "', '":', "  "]

def hostile(R, n): return "".join(R.pick(HOSTILE) for _ in range(n))

def harden(R, d, long=0):
    """replace some scalars and keys by hostile or long ones"""
    used = [0]
    def key(k):
        if R.chance(12):
            used[0] += 1
            return hostile(R, R.int(0, 5)) + "#%d" % used[0] if R.chance(70) else "%d" % used[0] + hostile(R, R.int(1, 5))
        return k
    def go(x):
        if x[0] == "v":
            if R.chance(25): return ("v", '"' + hostile(R, R.int(0, 8)) + '"')
            if long and R.chance(12):
                n = R.pick([long // 7, long // 2, long, long + R.int(-3, 3), long * 3])
                return ("v", R.pick(['"' + "x" * n + '"', '"' + (hostile(R, 3) * (n // 6 + 1)) + '"', "1" * max(1, n), "[" + "0," * (n // 2) + "0]"]))
            return x
        if x[0] == "o":
            seen = set(); out = []
            for k, v in x[1]:
                k = key(k)
                if k not in seen: seen.add(k); out.append((k, go(v)))
            return ("o", out)
        return ("a", [go(y) for y in x[1]])
    return go(d)

def json_text(R, long=0, mode=None):
    cfg = cases.base_cfg(R, ["key"])
    d = harden(R, cases.gen_doc(R, cfg), long)
    return cases.render(R, d, mode)

def raw_text(R):
    n = R.pick([0, 1, 2, 3, 5, 8, 12, 20, 40, 80])
    return "".join(R.pick(RAW) for _ in range(R.int(0, n)))

STR = re.compile(r'"(?:[^"\\]|\\.)*"', re.S)
PRIM = re.compile(r"[^\s,\]}\[{\":]+")
WS = " \t\r\n"
def tokens(t):
    """[(type, start, end, content)] of a JSON text or a fragment of one; end of a key is behind its colon"""
    out = []; i = 0
    P = {"{": 1, "}": 2, "[": 3, "]": 4, ",": 5}
    while True:
        while i < len(t) and t[i] in WS: i += 1
        if i >= len(t): return out
        c = t[i]
        if c in P: out.append((P[c], i, i + 1, "")); i += 1
        elif c == '"':
            m = STR.match(t, i); e = m.end(); j = e
            while j < len(t) and t[j] in WS: j += 1
            if j < len(t) and t[j] == ":": out.append((6, i, j + 1, t[i + 1:e - 1])); i = j + 1
            else: out.append((7, i, e, m.group())); i = e
        else:
            m = PRIM.match(t, i); out.append((7, i, m.end(), m.group())); i = m.end()
NAMES = {1: "{", 2: "}", 3: "[", 4: "]", 5: ",", 6: "key", 7: "value", -1: "end"}

def shrink_raw(t):
    n = len(t); k = n // 2
    while k >= 1:
        for i in range(0, n, k):
            if k < n: yield t[:i] + t[i + k:]
        k //= 2
        if n > 3000 and k < n // 64: break
