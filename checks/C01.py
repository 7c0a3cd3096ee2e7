import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from mcfam import *
ID, KIND, OPS = "C01", "f", FTOPS
def main(ID=ID, KIND=KIND, OPS=OPS):
    chk = Check(ID, "other")
    chk.cov["explanation"] = ("Every listed specification is compiled by the current compiler and the whole real C monitor (loader and step function, "
        "compiled to LLVM IR from the current source) is executed symbolically on it with every trace value a symbolic bit; z3 decides, for every trace of the "
        "stated length, that each emitted verdict equals the documented semantics, early verdicts for every continuation. Counterexamples are replayed natively.")
    quick = TIER != "thorough"
    items = []
    items += [[f] for f in grid(KIND, 4 if quick else 7)]
    items += [[f] for f in BOOLS] if KIND == "f" else []
    items += [[f] for f in nested(KIND)]
    items += [[f] for f in family(SEED, 350 if quick else 3000, 3, 3, OPS, 4, 9)]
    items += multi(SEED + 1, 60 if quick else 400, KIND)
    if not quick:
        items += [[f] for f in family(SEED + 2, 300, 4, 4, OPS, 5, 14)]
        items += [[f] for f in grid(KIND, 16) if f[2] in (9, 13, 16)]
    pmap(guarded(chk, lambda fs: run_one(chk, fs, extra=5 if quick else 8)), items)
    chk.assume += ["traces up to the stated number of steps (max_steps) and intervals up to the listed bounds",
                   "clang-18 at -O0 with IR-level simplification is taken to preserve the C source's meaning"]
    chk.finish()
if __name__ == "__main__":
    main()
