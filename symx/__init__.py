import sys

# z3 lives in the tools environment; the package's dependencies in this one
_P = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _P not in sys.path:
    sys.path.append(_P)

import z3

# the Python layer's argument assertions cost more than the solver here
z3.z3.Z3_DEBUG = False
