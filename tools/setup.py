"""setup: nothing to build; checks that the tools the framework needs are present"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from symx import smt, terms as T  # noqa
x = T.var("x")
r, _, _ = smt.solve([x * x < 0])
assert r == "unsat", r
print("z3", smt.z3.get_version_string(), "ok")
