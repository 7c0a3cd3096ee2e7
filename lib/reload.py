"""Histories: one program, then another loaded into the same monitor."""
from mcfam import *
import bz
from bz import *
RUST = False
quick = TIER != "thorough"
rng = random.Random(SEED * 19 + 10)
i, j, x, p, q = ("iv", 0), ("iv", 1), ("xv", 0), ("pv", 0), ("pv", 1)
BE = [(">", ("+", i, j), ("ic", 3)), ("==", ("prev", ("ic", 2), i), j), ("prev", ("bc", True), p), ("==", p, q), p, q, (">", ("tau",), i), ("!=", ("prev", ("ic", -2), ("+", i, j)), i),
      ("sum", "foratleast", 2, [p, q, ("pv", 2)])]
class Pl:
    def __init__(self, fs):
        self.fs, self.nv = fs, max([nvars(f) for f in fs] + [1])
        self.bz = False
        self.key = "; ".join(text(f) for f in fs)
    def build(self):
        t, names = spec_text(self.fs, self.nv)
        return build_spec(t, names)
    def hist(self): return "".join(f"r2u2_load_bool_signal(&mon, {k}, vs_bool(5000 + h * 16 + {k})); " for k in range(self.nv))
    def harness(self, b, N, **kw): return monitor_harness(b, {k: f for k, f in enumerate(self.fs)}, self.nv, N, timely=True, **kw)
class Bz:
    def __init__(self, fs, es):
        self.P = Prog(fs, es); self.fs = fs; self.bz = True
        self.key = "bz " + "; ".join(text(f, ["(" + btext(e) + ")" for e in es]) for f in fs)
    def build(self): return build_spec(self.P.spec(), None, ["-bz"] + (["--no-rewrite"] if RUST else []), map_text=self.P.map())
    def hist(self):
        fn = {"iv": ("int", "vs_i32"), "xv": ("float", "vs_f64"), "pv": ("bool", "vs_bool")}
        return "".join(f"r2u2_load_{fn[v[0]][0]}_signal(&mon, {self.P.cols[v]}, {fn[v[0]][1]}(5000 + h * 16 + {n})); " for n, v in enumerate(self.P.vars))
    def harness(self, b, N, **kw): return self.P.harness(b, N, timely=True, **kw)
def rp():
    kd = rng.choice("fp")
    if rng.random() < .35:
        es = rng.sample(BE, rng.randrange(1, 3))
        fam = family(rng.randrange(1 << 30), 1, 2, len(es), FTOPS if kd == "f" else PTOPS, 2, 4)
        return Bz(fam + [V(0)], es)
    if rng.random() < .4:
        return Pl(rng.choice(multi(rng.randrange(1 << 30), 3, kd)))
    return Pl(family(rng.randrange(1 << 30), 1, rng.choice([1, 2, 3]), 3, FTOPS if kd == "f" else PTOPS, 3, 6))
def run(chk):
    jobs = []
    ops = [F(0, 2, V(0)), F(1, 3, V(0)), G(0, 3, V(0)), G(2, 3, V(0)), U(0, 2, V(0), V(1)), U(1, 3, V(0), V(1)), R(0, 2, V(0), V(1)), R(1, 2, V(0), V(1)),
           O(0, 2, V(0)), O(1, 3, V(0)), H(0, 2, V(0)), H(1, 3, V(0)), S(0, 3, V(0), V(1)), S(1, 2, V(0), V(1)), T(0, 3, V(0), V(1)), T(1, 2, V(0), V(1)), A(V(0), V(1)), E(F(0, 2, V(0)), V(1)), X(O(0, 1, V(0)), V(1)), N(V(0)), V(0)]
    for f in ops:
        jobs.append((Pl([f]), Pl([f]), "", False)); jobs.append((Pl([f]), Pl([f]), "r2u2_monitor_hard_reset(&mon);", False))
    for e in BE:
        a = Bz([V(0)], [e]); jobs.append((a, a, "", False)); jobs.append((a, Bz([F(0, 2, V(0))], [e]), "r2u2_monitor_hard_reset(&mon);", False))
    for n in range(130 if quick else 1500):
        a = rp(); b = a if rng.random() < .5 else rp()
        jobs.append((a, b, rng.choice(["", "", "r2u2_monitor_hard_reset(&mon);", "r2u2_monitor_soft_reset(&mon);"]), n % 5 == 0))
    def go(job):
        a, b, reset, thrice = job
        if RUST: reset = ''
        ra, rb = a.build(), b.build()
        if not (ra.ok and rb.ok):
            chk.count("not_accepted_by_compiler"); return
        K = 4 if quick else 7
        key = f"[{a.key}] then {reset or 'load'} [{b.key}]"
        run_h = f"{{ int K = vs_small(9999, 0, {K}); for (int h = 0; h < {K}; h++) if (h < K) {{ {a.hist()} r2u2_step(&mon); }} }}"
        pre = f"mon.out_func = 0; vs_assert(r2u2_load_specification(SPEC_A, &mon) == R2U2_OK, \"first load\"); {run_h} {reset} mon.out_func = cb;"
        if thrice:
            pre = pre.replace(reset + " mon.out_func = cb;", f"vs_assert(r2u2_load_specification(SPEC_A2, &mon) == R2U2_OK, \"second load\"); for (int h = 8; h < 10; h++) {{ {b.hist()} r2u2_step(&mon); }} {reset} mon.out_func = cb;")
        h = b.harness(rb.bin, steps_for(b.fs, 3, 4, 8) if not b.bz else 4, pre=pre)
        if RUST: h = h.replace('vs_assert(r2u2_step(&mon) == R2U2_OK, "step reports an error");', 'r2u2_step(&mon);')
        h = h.replace("static r2u2_monitor_t mon", bytes_c(ra.bin, "SPEC_A") + bytes_c(rb.bin, "SPEC_A2") + "static r2u2_monitor_t mon", 1)
        decide(chk, key, h, query_ms=None if TIER == "thorough" else 8000, sample={"history": key} if len(chk.samples) < 6 else None)
    pmap(guarded(chk, go), jobs)
