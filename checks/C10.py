import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from mcfam import *
import reload
chk = Check("C10", "other")
chk.cov["explanation"] = ("The symbolically executed real C monitor first runs one compiled program over a symbolic trace of 0..K steps (the number of steps is symbolic too), then a program is loaded "
    "(the same or another one, with and without a hard reset in between) and runs over a second symbolic trace: z3 decides, for every history and trace, that every verdict is the fresh-start one "
    "(value, order and deadline). Counterexamples are replayed natively.")
reload.run(chk)
chk.assume += ["histories of up to 4-7 steps of one program (and a second load for some); all inputs are loaded at every step after the reload", "default bounds"]
chk.finish()
