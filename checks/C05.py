import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from mcfam import *
from bz import *
chk = Check("C05", "other")
chk.cov["explanation"] = ("Each program is compiled together with its bounds file; the real C monitor is built with exactly those bounds (with formula names and contract reports enabled) "
    "and executed symbolically over every trace of the stated length: the executor reports any access outside an array, any use of uninitialised storage, any non-terminating step, and z3 decides "
    "that every verdict still equals the semantics, so that queues of the generated size lose nothing. Counterexamples are replayed natively under AddressSanitizer.")
quick = TIER != "thorough"
rng = random.Random(SEED * 131 + 5)
AUX = ["-DR2U2_AUX_STRING_SPECS=1"]
def sparse(n):
    c, out = 0, []
    for _ in range(n):
        c += rng.choice([0, 0, 1, 3, 9]); out.append(c); c += 1
    rng.shuffle(out)
    return out
LABELS = ["l", "a_rather_long_label_for_one_formula_0123456789", "x1", "formula", None, None]
jobs = []
def plain(fs, opts=()):
    nv = max([nvars(f) for f in fs] + [1])
    extra = rng.randrange(0, 2)  # declared but unused inputs
    cols = list(range(nv + extra)) if rng.random() < .4 else sparse(nv + extra)
    aux = rng.random() < .6
    jobs.append(("plain", fs, nv, extra, cols, [f"{l}{i}" if (l := rng.choice(LABELS)) else None for i in range(len(fs))], aux, opts))
for kd in "fp":
    mx = 4 if quick else 8
    for f in grid(kd, mx):
        if f[2] in (0, 1, mx) or not quick: plain([f])
    for f in nested(kd, ((0, 2), (1, 3)))[::3 if quick else 1]:
        plain([f], rng.choice([(), ("--no-cse",), ("--scq-constant", "1"), ("--no-rewrite",)]))
    for fs in multi(SEED + 50, 35 if quick else 300, kd) + [[f] for f in family(SEED + 51, 40 if quick else 600, 3, 3, FTOPS if kd == "f" else PTOPS, 4, 8)]:
        plain(fs, rng.choice([(), ("--no-cse",), ("--scq-constant", "2"), ("--no-rewrite",), ("--no-aux",)]))
# contracts
def st(d):
    f = rng.choice(family(rng.randrange(1 << 30), 4, d, 3, FTOPS, 2, 3) or [V(0)])
    return f
for n in range(12 if quick else 80):
    jobs.append(("agc", [(V(0) if rng.random() < .5 else st(1), st(2)) for _ in range(rng.randrange(1, 4))], [V(1)] if n % 2 else [], rng.choice([(), ("--no-cse",)])))
# Booleanizer programs
i, j, x, y, p, q = ("iv", 0), ("iv", 1), ("xv", 0), ("xv", 1), ("pv", 0), ("pv", 1)
BE = [(">", ("+", i, j), ("ic", 3)), ("==", ("prev", ("ic", 2), i), j), ("prev", ("bc", True), p), ("<", x, ("fc", 1.5)), ("==", p, q), p, q, (">=", ("prev", ("fc", 0.5), x), y),
      ("sum", "foratleast", 2, [p, q, ("pv", 2)]), ("!=", ("%", i, ("ic", 3)), ("neg", j)), ("<=", ("tau",), i), (">", ("abs", ("-", i, j)), ("&", i, ("ic", 7))), (">", i, i), ("==", p, ("bc", False))]
for e in BE:
    jobs.append(("bz", [V(0)], [e], None, ())); jobs.append(("bz", [F(0, 2, V(0))], [e], None, ("--no-cse",)))
for n in range(40 if quick else 300):
    es = rng.sample(BE, rng.randrange(1, 4))
    fk = rng.choice("fp")
    fam = [f for f in family(rng.randrange(1 << 30), 2, 2, len(es), FTOPS if fk == "f" else PTOPS, 2, 4)] + [V(0)]
    jobs.append(("bz", fam, es, rng.random() < .5, rng.choice([(), ("--no-cse",), ("--no-rewrite",)])))
def go(job):
    kind = job[0]
    if kind == "plain":
        _, fs, nv, extra, cols, labels, aux, opts = job
        names = [f"a{i}" for i in range(nv + extra)]
        k = "PTSPEC" if any(is_pt(f) for f in fs) else "FTSPEC"
        t = "INPUT " + ", ".join(names) + ": bool;\n" + k + "\n" + "".join(f"  {labels[n] + ': ' if labels[n] else ''}{text(f)};\n" for n, f in enumerate(fs))
        m = "".join(f"{n}:{c}\n" for n, c in zip(names, cols))
        key = f"columns {cols} labels {[l for l in labels if l]} {' '.join(opts)}: " + "; ".join(text(f) for f in fs)
        r = build_spec(t, None, list(opts), map_text=m)
        mk = lambda: monitor_harness(r.bin, {n: f for n, f in enumerate(fs)}, nv, steps_for(fs, 4, 6, 12), timely=False, order=False, idx=cols[:nv], pre="mon.out_file = VS_FILE;" if aux else "")
    elif kind == "agc":
        _, cs, more, opts = job
        aux = True
        fs = [g for a, b in cs for g in (a, I(a, b), A(a, b))] + more
        nv = max(nvars(f) for f in fs)
        names = [f"a{i}" for i in range(nv)]
        t = "INPUT " + ", ".join(names) + ": bool;\nFTSPEC\n" + "".join(f"  c{n}: ({text(a)}) => ({text(b)});\n" for n, (a, b) in enumerate(cs)) + "".join(f"  {text(f)};\n" for f in more)
        key = "contracts " + "; ".join(f"({text(a)}) => ({text(b)})" for a, b in cs) + f" {len(more)} " + " ".join(opts)
        r = build_spec(t, names, list(opts))
        mk = lambda: monitor_harness(r.bin, {n: f for n, f in enumerate(fs)}, nv, steps_for(fs, 3, 5, 9), timely=False, order=False, pre="mon.out_file = VS_FILE;")
    else:
        _, fs, es, sp, opts = job
        aux = bool(sp)
        P = Prog(fs, es)
        if sp:
            P = Prog(fs, es, cols=dict(zip(P.vars, sparse(len(P.vars)))))
        key = f"bz {sorted(P.cols.values())}: " + "; ".join(text(f, ["(" + btext(e) + ")" for e in es]) for f in fs) + " " + " ".join(opts)
        r = build_spec(P.spec(), None, ["-bz"] + list(opts), map_text=P.map())
        mk = lambda: P.harness(r.bin, 3, order=False, pre="mon.out_file = VS_FILE;" if aux else "")
    if not r.ok:
        chk.count("not_accepted_by_compiler")
        if os.environ.get("C_DEBUG"): print("REJ", key, r.err.strip().splitlines()[:2])
        return
    decide(chk, key, mk(), flags=bounds_flags(r.bounds) + (AUX if aux else []), sample={"program": key} if len(chk.samples) < 6 else None)
pmap(guarded(chk, go), jobs)
chk.assume += ["programs of the seeded families, traces of 3-12 steps", "integer widths and alignment as on this platform"]
chk.finish()
