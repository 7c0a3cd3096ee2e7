import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from mcfam import *
from bz import *
from bzfam import *
chk = Check("C06", "other")
chk.cov["explanation"] = ("Specifications over typed data expressions are compiled with the Booleanizer enabled and the resulting binary runs in the symbolically executed real C monitor "
    "with every input value a symbolic 32-bit integer, finite double or Boolean; z3 decides, for every value at every step, that each verdict equals the one computed from the "
    "documented meaning of the expression (two's-complement wrap-around, truncating division, tolerance comparisons, previous values). Counterexamples are replayed natively.")
def go(a):
    fs, es, small, N, opts = a[:5]
    P = Prog(fs, es, small=small)
    if not P.vars:
        return
    s = P.spec(defs=True, kinds=a[5]) if len(a) > 5 else P.spec()
    key = (f"[{a[5]}] " if len(a) > 5 else "") + "; ".join(text(f, ["(" + btext(e) + ")" for e in es]) for f in fs) + (" " + " ".join(opts) if opts else "")
    r = build_spec(s, None, ["-bz"] + list(opts), map_text=P.map())
    if not r.ok:
        chk.count("not_accepted_by_compiler")
        if "Traceback" in r.err or r.rc > 1:
            chk.add("compiler_crashes", [key])
        if os.environ.get("C_DEBUG"): print("REJ", key, r.err.strip().splitlines()[:2])
        return
    h = P.harness(r.bin, N, order=False)
    decide(chk, key, h, timeout=None if not quick else 40, query_ms=None if not quick else 8000, sample={"formula": key, "steps": N} if len(chk.samples) < 6 else None)
pmap(guarded(chk, go), jobs)
chk.assume += ["floats are finite with magnitude up to 1e300; sqrt and pow on floats are uninterpreted functions (operand routing is decided, the library's arithmetic is not)",
               "pow on integers: base within [-9,9] and constant exponent 0..4", "non-constant divisors (documented as not allowed) and shifts (rejected by the compiler) are not covered", "traces up to 2-6 steps"]
chk.finish()
