import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from mcfam import *
chk = Check("C04", "other")
chk.cov["explanation"] = ("Multi-formula programs are compiled with common-subexpression elimination and rewriting each on and off (and with definitions, labels, longer "
    "queues and the MLTL-standard input format); each resulting binary is run in the symbolically executed real C monitor and z3 decides, for every trace of the stated length, "
    "that the verdicts reported under each formula number are those of the formula written at that position. Counterexamples are replayed natively.")
quick = TIER != "thorough"
rng = random.Random(SEED * 7919 + 4)

def rewrite_shapes(r, kind):
    """programs made of the shapes the rewriter and the sharing pass look for, with bounds that make them just (not) apply"""
    un = (F, G) if kind == "f" else (O, H)
    bi = (U, R) if kind == "f" else (S, T)
    def iv(m=4):
        l = r.randrange(0, m); return l, r.randrange(l, m + 1)
    a, b, c = V(0), V(1), V(2)
    x = r.choice([a, N(a), A(a, b), D(a, c)])
    y = r.choice([b, N(c), X(b, c), x])
    o = r.choice(un)
    sh = [
        lambda: A(o(*iv(), x), o(*iv(), y)), lambda: D(o(*iv(), x), o(*iv(), y)),
        lambda: A(un[0](*iv(), x), un[0](*iv(), x)), lambda: D(un[1](*iv(), x), un[1](*iv(), x)),
        lambda: A(un[1](*iv(), x), un[1](*iv(), x)), lambda: D(un[0](*iv(), x), un[0](*iv(), x)),
        lambda: o(*iv(2), r.choice(un)(*iv(3), x)), lambda: o(0, 0, r.choice(un)(*iv(), x)),
        lambda: A(bi[0](*iv(), x, b), bi[0](*iv(), a, b)), lambda: A(bi[0](*iv(), x, b), bi[0](*iv(), x, c)),
        lambda: D(bi[0](*iv(), x, y), bi[0](*iv(), x, c)), lambda: bi[0](*iv(), x, un[0](*iv(2), y)), lambda: bi[0](*iv(), x, bi[0](*iv(2), x, y)),
        lambda: bi[1](*iv(), x, un[1](*iv(2), y)), lambda: N(o(*iv(), N(x))), lambda: N(N(o(*iv(), x))), lambda: N(bi[0](*iv(), N(x), N(y))),
        lambda: o(*iv(), TT), lambda: bi[0](*iv(), x, TT), lambda: bi[0](*iv(), TT, x), lambda: bi[1](*iv(), FF, x), lambda: bi[0](*iv(), x, x),
        lambda: A(x, TT, y), lambda: D(x, FF, y), lambda: I(x, FF), lambda: I(TT, y), lambda: E(x, TT), lambda: E(FF, y), lambda: X(x, TT), lambda: A(x, N(x)), lambda: D(y, N(y)),
        lambda: A(x, y, o(*iv(), x)), lambda: D(o(*iv(), x), o(*iv(), y), o(*iv(), c)), lambda: A(o(*iv(), x), o(*iv(), y), o(*iv(), c)),
        lambda: I(o(*iv(), x), o(*iv(), x)), lambda: E(o(*iv(), x), o(*iv(), x)), lambda: X(o(*iv(), x), bi[0](*iv(), x, y)),
    ]
    k = r.randrange(2, 6)
    fs = []
    for _ in range(k):
        f = r.choice(sh)()
        if r.random() < .3:
            f = r.choice([A(f, V(3)), D(V(3), f), N(f), X(f, V(3))])
        # a formula the compiler folds to a constant is documented as unsupported: keep it from being one
        if r.random() < .5 and fs:
            f = A(D(f, V(3)), fs[-1]) if r.random() < .5 else D(f, fs[0])
        fs.append(f)
    if r.random() < .4:
        fs.append(fs[0])
    return fs
def taut(f):
    """constant formulas are (documented as) unsupported"""
    import z3
    Z = z3ops(z3)
    atoms = {}
    s = Sem(lambda k, t: atoms.setdefault((k, t), z3.Bool(f"v{k}_{t}")), Z)
    T0 = past(f)
    e = s.at(f, T0)
    for g in (e, z3.Not(e)):
        q = z3.Solver(); q.add(g)
        if q.check() == z3.unsat:
            return True
    return False
def go(job):
    fs, mode, opts = job
    kinds = None
    nv = max([nvars(f) for f in fs] + [1])
    names = [f"a{i}" for i in range(nv)]
    kind = "PTSPEC" if any(is_pt(f) for f in fs) else "FTSPEC"
    kw = {}
    if mode == "mltl":
        t = "".join(mltl(f) + "\n" for f in fs)
        r = build_spec(t, None, list(opts), ext=".mltl")
    elif mode == "split":
        h = len(fs) // 2 or 1
        # definitions hold state expressions only: the compiler takes no future operators there
        q = X(V(0), V(1)) if nv > 1 else N(V(0))
        un = "O[0,2]" if kind == "PTSPEC" else "F[0,2]"
        t = "INPUT " + ", ".join(names) + ": bool;\nDEFINE d0 := %s; d1 := (d0) || %s;\n%s\n" % (text(q), names[-1], kind) + "".join(f"  {text(f)};\n" for f in fs[:h]) + kind + "\n" + "".join(f"  l{i}: {text(f)};\n" for i, f in enumerate(fs[h:])) + f"  {un} d1;\n  d0;\n"
        fs = fs + [(un[0], 0, 2, D(q, V(nv - 1))), q]
        r = build_spec(t, names, list(opts))
    elif mode == "named":
        # subformulas behind definitions and labels, so that the compiler puts them in place only after building what contains them
        r_ = random.Random(repr(fs)); defs = []; memo = {}; labels = {}
        def nm(f, root=False):
            if f in labels: return labels[f]
            if f in memo: return memo[f]
            if f[0] in "vtf": return text(f, names)
            ks = [nm(k) for k in kids(f)]
            g = f[:3] + tuple(V(i) for i in range(len(ks))) if f[0] in UN + BIN else f[:1] + tuple(V(i) for i in range(len(ks)))
            s_ = text(g, [k if re.fullmatch(r"\w+", k) else f"({k})" for k in ks])
            if not root and r_.random() < .6:
                defs.append(f"d{len(defs)} := {s_};")
                s_ = memo[f] = f"d{len(defs) - 1}"
            return s_
        ts = []
        for i, f in enumerate(fs):
            ts.append(f"l{i}: {nm(f, True)};")
            if r_.random() < .5: labels.setdefault(f, f"l{i}")
        t = "INPUT " + ", ".join(names) + ": bool;\n" + ("DEFINE " + " ".join(defs) + "\n" if defs else "") + kind + "\n  " + "\n  ".join(ts) + "\n"
        r = build_spec(t, names, list(opts))
    elif mode == "mix":
        # future-time and past-time formulas in one program, sharing definitions and labels
        nv = max(nv, 2); names = [f"a{i}" for i in range(nv)]
        q = X(V(0), V(1))
        d1 = D(q, V(nv - 1))
        ff = [f for f in fs if not is_pt(f)] + [F(0, 2, d1), q]
        pf = [f for f in fs if is_pt(f)] + [S(0, 2, d1, q), d1]
        secs = [("FTSPEC", ff, [text(f) for f in ff[:-2]] + ["F[0,2] d1", "d0"]), ("PTSPEC", pf, [text(f) for f in pf[:-2]] + ["d1 S[0,2] d0", "d1"])]
        if "--no-cse" in opts: secs.reverse()
        t = "INPUT " + ", ".join(names) + ": bool;\nDEFINE d0 := %s; d1 := (d0) || %s;\n" % (text(q), names[-1])
        for n_, _, ts in secs: t += n_ + "\n" + "".join(f"  {x};\n" for x in ts)
        fs = [f for _, l, _ in secs for f in l]
        r = build_spec(t, names, list(opts))
    elif mode == "data":
        # every variable is a comparison of an integer, so the Booleanizer computes it
        t = "INPUT " + ", ".join(f"i{k}" for k in range(nv)) + f": int;\n{kind}\n" + "".join(f"  {text(f, [f'(i{k} > 0)' for k in range(nv)])};\n" for f in fs)
        r = build_spec(t, [f"i{k}" for k in range(nv)], ["-bz"] + list(opts))
        kw["loads"] = "".join(f"    r2u2_load_int_signal(&mon, {k}, in[t][{k}] ? 5 : -3);\n" for k in range(nv))
    else:
        t, _ = spec_text(fs, nv)
        r = build_spec(t, names, list(opts))
    key = f"[{mode} {' '.join(opts)}] " + "; ".join(text(f) for f in fs)
    if not r.ok:
        chk.count("not_accepted_by_compiler")
        if os.environ.get("C_DEBUG"): print("REJ", r.rc, key, "::", (r.err+r.out).strip()[-200:].replace(chr(10)," | "))
        return
    N_ = steps_for(fs, 4, 6, 14 if mode != "mix" else 9)
    h = monitor_harness(r.bin, {i: f for i, f in enumerate(fs)}, nv, N_, timely=False, correct=True, order=False, **kw)
    decide(chk, key, h, timeout=60 if quick else 300, sample={"program": key, "steps": N_} if len(chk.samples) < 6 else None)
def mltl(f):
    o = f[0]
    t = lambda k: mltl(k) if k[0] in "vtf" else "(" + mltl(k) + ")"
    if o == "v": return f"a{f[1]}"
    if o in "tf": return "true" if o == "t" else "false"
    if o == "!": return "!" + t(f[1])
    if o in UN: return f"{o}[{f[1]},{f[2]}] {t(f[3])}"
    if o in BIN: return f"{t(f[3])} {o}[{f[1]},{f[2]}] {t(f[4])}"
    op = {"&": "&", "|": "|", "->": "->", "<->": "<->", "^": "^"}[o]
    return f" {op} ".join(t(k) for k in f[1:])
def has_xor(f): return f[0] == "^" or any(has_xor(k) for k in kids(f))
n = 70 if quick else 700
jobs = []
progs = []
while len(progs) < n:
    kind = rng.choice("ffp")
    fs = rewrite_shapes(rng, kind) if rng.random() < .7 else rng.choice(multi(rng.randrange(1 << 30), 3, kind) or [None])
    if not fs or any(f[0] in "vtf" or horizon(f) > 8 or past(f) > 8 for f in fs):
        continue
    fs = [f for f in fs if not taut(f)]
    if fs:
        progs.append(fs)
for i, fs in enumerate(progs):
    for cse in ("--cse", "--no-cse"):
        for rw in ("--rewrite", "--no-rewrite"):
            jobs.append((fs, "plain", (cse, rw)))
    jobs.append((fs, "split", ("--cse", "--rewrite", "--scq-constant", "2") if i % 2 else ("--no-cse", "--rewrite")))
    jobs.append((fs, "named", (("--cse", "--no-cse")[i % 2], ("--rewrite", "--no-rewrite")[i // 2 % 2])))
    if i % 2 and i:
        other = next((g for g in progs[i:] + progs[:i] if any(map(is_pt, g)) != any(map(is_pt, fs))), None)
        if other:
            jobs.append((fs[:2] + other[:2], "mix", rng.choice([("--cse",), ("--no-cse",), ("-bz",), ("-bz", "--no-cse"), ("--no-rewrite",)])))
    if not any(has_xor(f) for f in fs):
        jobs.append((fs, "mltl", ("--no-rewrite",) if i % 2 else ()))
    if i % 2 == 0:
        jobs.append((fs, "data", rng.choice([("--cse",), ("--no-cse",), ("--no-rewrite",)])))
# delays that only appear once a definition is in place
for f in (A(V(1), U(0, 2, V(0), U(0, 5, V(0), V(1)))), D(U(0, 1, V(1), V(0)), R(1, 3, V(2), U(2, 4, V(0), V(1)))), A(V(0), S(0, 2, V(1), S(1, 3, V(0), V(1)))), U(0, 3, V(0), A(V(1), R(0, 3, V(0), V(1)))),
          A(V(2), O(0, 3, H(1, 2, V(0)))), X(V(1), G(1, 2, F(0, 4, V(0)))), E(S(0, 3, V(0), V(1)), T(2, 4, V(1), D(V(0), V(2)))), S(0, 2, O(2, 3, V(0)), H(0, 1, V(1)))):
    for g in (f, N(f), A(f, V(2))):
        jobs.append(([g], "named", ("--no-rewrite",))); jobs.append(([g, f], "named", ("--no-cse",)))
# one subexpression in every operand place of an operator
a, b = V(0), V(1)
for x in (a, A(a, b), N(a), F(0, 2, a), O(1, 2, a)):
    for y in (U(0, 1, x, x), R(1, 2, x, x), S(0, 1, x, x), T(1, 2, x, x), A(x, x), X(x, D(x, b)), I(x, A(x, b)), E(x, A(b, x)), U(0, 2, A(x, x), x), S(0, 2, x, D(x, x)), D(x, b, x)):
        if is_pt(y) and is_ft(y) or taut(y): continue
        fs = [y, x]
        for opts in ((), ("--no-cse",), ("--no-rewrite",)):
            jobs.append((fs, "data" if opts != () or x in (a, N(a)) else "plain", opts))
pmap(guarded(chk, go), jobs)
chk.assume += ["programs of the seeded families; traces up to the stated length", "the monitor itself is decided by C01-C03", "extended operators in the binary (--extops) are not implemented by the C monitor and not covered"]
chk.finish()
