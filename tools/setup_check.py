"""the engine imports and decides one query offline"""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import runner  # noqa
from symx.solver import z3
s = z3.Solver()
x = z3.Real('x')
s.add(x * x < 0)
assert s.check() == z3.unsat
print('setup ok: z3', z3.get_version_string())
