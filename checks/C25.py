import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from mcfam import *
import bz, reload, rsm
bz.SAT = True
reload.RUST = True
rsm.use(["-C", "overflow-checks=on"])
chk = Check("C25", "other")
chk.cov["explanation"] = ("The real Rust monitor core (LLVM IR of the crate as rustc compiles it, symbolically executed) first runs one compiled program over a symbolic trace of 0..K steps (the number of steps is symbolic too), then a program is loaded with update_binary_file "
    "(the same or another one) and runs over a second symbolic trace: z3 decides, for every history and trace, that every verdict is the fresh-start one "
    "(value, order and deadline). Counterexamples are replayed natively.")
reload.run(chk)
chk.assume += ["histories of up to 4-7 steps of one program (and a second load for some); all inputs are loaded at every step after the reload", "default bounds"]
chk.finish()
