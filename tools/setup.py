"""setup_cmd: checks that the tools the machinery needs are present (nothing is fetched or built)."""
import sys, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import z3, cvc5
from contracts import load_all, base
load_all()
print('z3', z3.get_version_string(), 'contracts', len(base.REG))
