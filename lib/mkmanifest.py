"""Regenerates MANIFEST.json from the checks that exist (run by hand after adding a check)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = "reference evaluator (lib/model.py) written from the JSONPath semantics in DESIGN.md"
T = {
 "C01": ("model-based property testing (Hypothesis + seeded PRNG) against a reference JSONPath evaluator", "random documents x paths"),
 "C02": ("model-based property testing against a reference JSONPath evaluator with filters", "random records x filter expressions"),
 "C03": ("model-based property testing against a reference JSONPath evaluator, serial and parallel", "random arrays x index/slice paths x worker counts x thread orders"),
 "C04": ("differential / model-based property testing of parallelRun over worker counts and thread orders", "random documents x paths x worker counts x thread orders"),
 "C05": ("differential / model-based property testing of parallelRunOpt over training documents", "random documents x paths x training documents x worker counts"),
 "C06": ("differential / model-based property testing over memory footprints", "random documents x paths x footprints x run modes"),
 "C07": ("property testing of partitioning against stated invariants, structured and raw texts", "random texts x worker counts"),
 "C08": ("property testing of loading against stated invariants", "random file contents x footprints"),
 "C09": ("differential property testing of the tokenizer against a reference tokenizer", "random JSON texts, fragments and long tokens"),
 "C10": ("metamorphic property testing (layout, renaming, added members, wrapping, replaced scalars)", "random documents x paths x transformations x run modes"),
 "C11": ("differential property testing of the path parser against a reference recursive-descent parser, with token mutation", "random paths, valid and mutated"),
 "C12": ("model-based property testing of the filter evaluator", "random expressions x condition values"),
 "C13": ("model-based property testing of the query automaton against a reference NFA over words", "random paths x symbol words"),
 "C14": ("differential property testing of the regular expression compiler against a derivative-based matcher", "random expression sets x words"),
 "C15": ("stateful model-based testing: random call histories against the reference evaluator", "random histories of API calls"),
 "C16": ("fuzzing under AddressSanitizer and differential memory-fill testing", "random and mutated documents, paths, modes"),
 "C17": ("schedule-controlled property testing and ThreadSanitizer runs over generated cases", "random cases x thread orders"),
 "C18": ("model-based property testing of the constraint table", "random documents x paths"),
 "C19": ("property testing over repeated runs: allocation, resident set and descriptor invariants", "random cases repeated"),
 "C20": ("model-based property testing with scaled documents", "generated large documents"),
 "C21": ("differential property testing of the internal API against the reference evaluator", "random documents x pieces x modes"),
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif hooks"], capture_output=True, text=True).stdout.split()
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")):
        checks.append(dict(property=i, quick_cmd="python3-vt checks/%s.py" % i, thorough_cmd="python3-vt checks/%s.py --tier thorough" % i,
            evidence_file="evidence/%s.json" % i, technique=T[i][0], level="exploration",
            level_note="Samples %s; no claim beyond the cases generated. Trusts the oracle described in DESIGN.md and the harness in harness/." % T[i][1]))
    else: na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="python3 lib/build.py asan fast",
    hooks=dict(guard="JPSTREAM_VERIF", enable="lib/build.py configures /repo out of tree with -DJPSTREAM_VERIF in CMAKE_C_FLAGS (variants asan, fast, pat, zero, tsan); variant 'real' is built without it", source_commits=hook),
    checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); print(len(checks), "checks", [x["property"] for x in na])
