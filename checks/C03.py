import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from mcfam import *
chk = Check("C03", "other")
chk.cov["explanation"] = ("Compiled specifications run in the symbolically executed real C monitor; for every trace of the stated length z3 decides that each formula's "
    "verdict times strictly increase and that after step t every verdict up to t minus the formula's worst-case delay (0 for past time) is out. Counterexamples are replayed natively.")
quick = TIER != "thorough"
items = []
for k, ops in (("f", FTOPS), ("p", PTOPS)):
    items += [[f] for f in grid(k, 3 if quick else 6)] + [[f] for f in nested(k, ((0, 2), (1, 3)))]
    items += [[f] for f in family(SEED + 100, 150 if quick else 1500, 3, 3, ops, 4, 9)]
    items += multi(SEED + 101, 60 if quick else 400, k)
pmap(guarded(chk, lambda fs: run_one(chk, fs, extra=6 if quick else 9, timely=True, correct=False, order=True)), items)
chk.assume += ["worst-case delay taken from the formula's interval bounds (sum of upper bounds along the deepest future path)"]
chk.finish()
