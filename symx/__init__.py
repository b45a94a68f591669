"""symx: symbolic execution of the real numpy code of robuststats.

poly.py   - exact algebra (sparse polynomials / rational functions / algebraic
            and transcendental atoms) in which symbolic array entries live
arr.py    - S (symbolic scalar) and SymArray (symbolic numpy array, NEP 13/18)
solver.py - z3 interface: assumptions, path conditions, queries, statistics
path.py   - path exploration and the Ctx object handed to harnesses
shim.py   - loads the real robuststats modules and wires the library contracts
runner.py - runs the harnesses of one property, replays, writes evidence
"""
