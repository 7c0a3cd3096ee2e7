import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from mcfam import *
import bz, rsm
bz.SAT = True
from bz import *
from bzfam import *
chk = Check("C24", "other")
chk.cov["explanation"] = ("Specifications over typed data expressions are compiled and run in the real Rust monitor core (LLVM IR of the crate as compiled by rustc, symbolically executed) with every input value a symbolic 32-bit integer, finite double or Boolean; "
    "z3 decides that each verdict equals the documented meaning with saturating integers, that a step reports an overflow exactly when one of its operations overflowed, and that no operation panics.")
rsm.use([])
rng = random.Random(SEED * 31 + 24)
for n in (20, 31, 33, 40):
    for e in (i, ("neg", i)): job([V(0)], [("==", ("pow", e, ("ic", n)), k)], small=(-3, 3), N=2)
    job([V(0)], [(">", ("pow", i, ("ic", n)), ("ic", 0))], small=(-3, 3), N=2)
def big(es): return any(g[0] in ("+", "-", "*", "neg", "abs", "/", "%", "pow") for e in es for g in allsubs(e))
def allsubs(e): return [e] + [g for k in subs(e) for g in allsubs(k)]
def go(a):
    fs, es, small, N, opts = a[:5]
    es = [e for e in es]
    opts = tuple(opts) + (("--no-rewrite",) if "--no-rewrite" not in opts and big(es) else ())
    P = Prog(fs, es, small=small)
    if not P.vars or set(P.used) != set(range(len(es))): return
    s = P.spec(defs=True, kinds=a[5]) if len(a) > 5 else P.spec()
    key = (f"[{a[5]}] " if len(a) > 5 else "") + "; ".join(text(f, ["(" + btext(e) + ")" for e in es]) for f in fs) + (" " + " ".join(opts) if opts else "")
    r = build_spec(s, None, ["-bz"] + list(opts), map_text=P.map())
    if not r.ok:
        chk.count("not_accepted_by_compiler"); return
    h = P.harness(r.bin, N, order=False)
    h = h.replace('vs_assert(r2u2_step(&mon) == R2U2_OK, "step reports an error");', 'vs_assert((r2u2_step(&mon) != R2U2_OK) == ov[t], "overflow of the step not reported, or reported without one");')
    decide(chk, key, h, timeout=None if not quick else 40, query_ms=None if not quick else 8000, sample={"formula": key, "steps": N} if len(chk.samples) < 6 else None)
if quick: jobs = [j if len(j[0]) == 1 and j[0][0] == V(0) else (j[0], j[1], j[2], min(j[3], 3)) + tuple(j[4:]) for j in jobs[::-1]]
jobs = [j for j in jobs if os.environ.get("C_ONLY", "") in str(j)][:int(os.environ.get("C_N", 10**6))]
pmap(guarded(chk, go), jobs)
chk.assume += ["floats are finite with magnitude up to 1e300; sqrt and pow on floats are uninterpreted functions",
    "programs with arithmetic are compiled with --no-rewrite (the compiler's own folding wraps)", "r2u2_core is built with the sandbox's rustc and const_env is replaced by a stand-in that keeps the constants of bounds.rs; default features"]
chk.finish()
