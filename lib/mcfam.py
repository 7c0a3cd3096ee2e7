"""Runs families of specifications through compiler + monitor with symbolic traces."""
import random
from util import *
from comp import *
from cmon import *
from logic import *
from monh import *

def spec_text(fs, nv, kind=None, extra=""):
    names = [f"a{i}" for i in range(nv)]
    kind = kind or ("PTSPEC" if any(is_pt(f) for f in fs) else "FTSPEC")
    return "INPUT\n  " + ", ".join(names) + ": bool;\n" + extra + kind + "\n" + "".join(f"  {text(f)};\n" for f in fs), names
def steps_for(fs, extra, lo=6, hi=16):
    h = max(max(horizon(f), past(f)) for f in fs)
    return max(lo, min(hi, h + extra))
def run_one(chk, fs, N=None, opts=(), timely=False, correct=True, order=False, extra=5, flags_from_bounds=False, timeout=None):
    nv = max([nvars(f) for f in fs] + [1])
    t, names = spec_text(fs, nv)
    key = "; ".join(text(f) for f in fs) + ((" " + " ".join(opts)) if opts else "")
    r = build_spec(t, names, list(opts))
    if not r.ok:
        if any("Traceback" in x for x in (r.err, r.out)) or r.rc > 1:
            chk.add("compiler_crashes", [key])
        chk.count("not_accepted_by_compiler")
        return None
    N = N or steps_for(fs, extra)
    fmap = {i: f for i, f in enumerate(fs)}
    h = monitor_harness(r.bin, fmap, nv, N, timely=timely, correct=correct, order=order)
    flags = bounds_flags(r.bounds) if flags_from_bounds else ()
    res = decide(chk, key, h, flags=flags, timeout=timeout, sample={"spec": key, "steps": N, "options": list(opts)} if len(chk.samples) < 6 else None)
    with chk_lock:
        chk.cov["max_steps"] = max(chk.cov.get("max_steps", 0), N)
    return res
chk_lock = threading.Lock()
def guarded(chk, fn):
    def g(x):
        try:
            return fn(x)
        except CheckError as e:
            chk.error(str(e), fatal=True)
        except Exception as e:
            chk.error(f"{x!r}: {type(e).__name__}: {e}"[:1500])
    return g
def grid(kind, maxub):
    """every single temporal operator with every interval up to maxub over plain inputs"""
    out = []
    for l in range(maxub + 1):
        for u in range(l, maxub + 1):
            if kind == "f":
                out += [F(l, u, V(0)), G(l, u, V(0)), U(l, u, V(0), V(1)), R(l, u, V(0), V(1))]
            else:
                out += [O(l, u, V(0)), H(l, u, V(0)), S(l, u, V(0), V(1)), T(l, u, V(0), V(1))]
    return out
BOOLS = [N(V(0)), A(V(0), V(1)), D(V(0), V(1)), X(V(0), V(1)), I(V(0), V(1)), E(V(0), V(1)), A(V(0), V(1), V(2)), D(V(0), V(1), V(2))]
def nested(kind, ints=((0, 2), (1, 2), (1, 3))):
    """every operator over every operator, on either side, with a few intervals"""
    un = ("F", "G") if kind == "f" else ("O", "H")
    bi = ("U", "R") if kind == "f" else ("S", "T")
    rng = random.Random(5)
    out = []
    inner = []
    for o in un:
        inner += [(o, l, u, V(1)) for l, u in ints]
    for o in bi:
        inner += [(o, l, u, V(1), V(2)) for l, u in ints]
    inner += [N(V(1)), A(V(1), V(2)), D(V(1), V(2)), X(V(1), V(2)), I(V(1), V(2)), E(V(1), V(2))]
    for i in inner:
        for l, u in ((0, 2), (1, 3)):
            for o in un:
                out.append((o, l, u, i))
            for o in bi:
                out += [(o, l, u, V(0), i), (o, l, u, i, V(0))]
        out += [N(i), A(V(0), i), D(i, V(0)), X(i, V(0)), E(V(0), i), I(i, V(0))]
    return out
def multi(seed, n, kind, nv=3, depth=2, maxb=3, maxh=6, k=(2, 4)):
    """specifications with several formulas that share subformulas"""
    rng = random.Random(seed)
    ops = FTOPS if kind == "f" else PTOPS
    out = []
    for i in range(n):
        base = family(rng.randrange(1 << 30), 3, depth, nv, ops, maxb, maxh)
        fs = list(base[:rng.randrange(1, 3)])
        while len(fs) < rng.randrange(k[0], k[1] + 1):
            a, b = rng.choice(base), rng.choice(base)
            c = rng.choice([A(a, b), D(b, a), X(a, V(0)), N(a), E(a, b), I(V(1), a)])
            if kind == "f" and rng.random() < .4:
                c = rng.choice([F(0, 2, a), G(1, 2, a), U(0, 2, V(0), a), R(1, 2, a, V(1))])
            if kind == "p" and rng.random() < .4:
                c = rng.choice([O(0, 2, a), H(1, 2, a), S(0, 2, V(0), a), T(1, 2, a, V(1))])
            fs.append(c)
        if all(f[0] not in "vtf" for f in fs):
            out.append(fs)
    return out
