import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from mcfam import *
import rsm
chk = Check("C21", "other")
chk.cov["explanation"] = ("Specifications of a family (every temporal operator with every small interval, every operator over every operator, deeper random nests, several formulas sharing subformulas) are compiled and run in the real Rust monitor core, "
    "the crate as rustc compiles it with overflow checks on, symbolically executed from its LLVM IR with the truth of every input at every step symbolic; z3 decides that each verdict equals the MLTL semantics, that verdicts come in order, "
    "none twice and none late, and that no arithmetic overflows and nothing panics.")
quick = TIER != "thorough"
rsm.use(["-C", "overflow-checks=on"])
items = []
for k, ops in (("f", FTOPS), ("p", PTOPS)):
    items += [[f] for f in grid(k, 3 if quick else 6)] + [[f] for f in nested(k, ((0, 2), (1, 3)))]
    items += [[f] for f in family(SEED + 300, 130 if quick else 1500, 3, 3, ops, 4, 9)]
    items += multi(SEED + 301, 40 if quick else 400, k)
items += [[f] for f in BOOLS]
items = items[:int(os.environ.get("C_N", 10**6))]
pmap(guarded(chk, lambda fs: run_one(chk, fs, extra=5 if quick else 9, timely=True, order=True)), items)
chk.assume += ["default features of the crate (no auxiliary strings, no debug prints); const_env is replaced by a stand-in that keeps the constants of bounds.rs; byteorder and libm are the cached crates",
    "the sandbox's rustc that matches the installed Verus macros; default bounds", "traces up to 6-21 steps"]
chk.finish()
