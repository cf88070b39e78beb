import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import engine, prop
from engine import *
class P(EngineProp):
    stepsets = [PATH, PATH, STRICT, ["key", "desc"], ["descany", "any", "key", "star"], ["desc", "star", "any"]]
    quota = {"quick": 25600, "thorough": 400000}
    rule = ("random document (six shapes, six layouts, strings with quotes/escapes/brackets, noise keys) and a random path over .name .* ..name ..* [*] walked along it; "
            "serialRun compared with the reference evaluator; non-trivial = the path selects at least one value; distinct by whole case")
if __name__ == "__main__": prop.main(P(), "C01")
