import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pyeq import *
from mcfam import *
from bz import *
chk = Check("C14", "other")
chk.cov["explanation"] = ("Programs of formulas that differ from each other in a single place (one bound, the order of operands, one operator, one variable, the nesting, one negation) are given to the real "
    "sharing command, alone and between other transformations, with every interval bound symbolic; for each path z3 decides for all bounds up to the limit and all traces that every formula of the "
    "program still has the value it was written with. Programs whose data expressions differ in one place (constant, type, operator, operand order, previous-value initialiser) are compiled with and "
    "without sharing and decided on the real monitor executed symbolically.")
quick = TIER != "thorough"
rng = random.Random(SEED * 1009 + 14)
def L(n): return (("lb", n), ("ub", n))
DUAL = {"F": "G", "G": "F", "U": "R", "R": "U", "O": "H", "H": "O", "S": "T", "T": "S", "&": "|", "|": "&", "^": "<->", "<->": "^", "->": "<->"}
def rec(f, path, fn):
    if not path: return fn(f)
    i, rest = path[0], path[1:]
    return f[:i] + (rec(f[i], rest, fn),) + f[i + 1:]
def paths(f, p=()):
    yield p, f
    for i, x in enumerate(f):
        if isinstance(x, tuple) and x[0] in ("v", "t", "f", "!", "&", "|", "^", "->", "<->") + UN + BIN: yield from paths(x, p + (i,))
def variants(f, new):
    out = []
    for p, g in paths(f):
        o = g[0]
        if o == "v": out.append(rec(f, p, lambda g: V((g[1] + 1) % 3))); continue
        if o in UN + BIN:
            h = new()
            out.append(rec(f, p, lambda g: (g[0], g[1], ("ub", h)) + g[3:])); out.append(rec(f, p, lambda g: (g[0], ("lb", h), g[2]) + g[3:]))
        if o in DUAL: out.append(rec(f, p, lambda g: (DUAL[g[0]],) + g[1:]))
        ks = kids(g)
        if len(ks) >= 2: out.append(rec(f, p, lambda g: g[:len(g) - len(kids(g))] + kids(g)[1:] + kids(g)[:1]))
        if o in ("&", "|"):
            out.append(rec(f, p, lambda g: g + (V(2),)))
            if len(g) == 4: out += [rec(f, p, lambda g: (g[0], (g[0], g[1], g[2]), g[3])), rec(f, p, lambda g: (g[0], g[1], (DUAL[g[0]], g[2], g[3])))]
        if o == "!": out.append(rec(f, p, lambda g: g[1]))
        else: out.append(rec(f, p, lambda g: N(g)))
    return out
a, b_, c = V(0), V(1), V(2)
def shapes(kind):
    F_, G_, U_, R_ = ("F", "G", "U", "R") if kind == "f" else ("O", "H", "S", "T")
    l1, l2 = L(1), L(2)
    return [(F_,) + l1 + (a,), (G_,) + l1 + (N(a),), (U_,) + l1 + (a, b_), (R_,) + l1 + (a, b_), A(a, b_), D(a, b_, c), A(a, b_, c), I(a, b_), E(a, b_), X(a, b_),
            (F_,) + l1 + (A(a, b_),), (G_,) + l1 + ((F_,) + l2 + (a,),), (U_,) + l1 + ((G_,) + l2 + (a,), b_), A((F_,) + l1 + (a,), (G_,) + l2 + (b_,)), N((U_,) + l1 + (a, D(b_, c))),
            I((F_,) + l1 + (a,), (F_,) + l2 + (a,)), (R_,) + l1 + (N(a), (U_,) + l2 + (b_, c))]
STEPS = [["optimize_cse"], ["optimize_cse"], ["to_nnf", "optimize_cse"], ["optimize_cse", "remove_extended_operators"], ["optimize_cse", "multi_operators_to_binary", "optimize_cse"], ["optimize_rewrites", "optimize_cse"], ["flatten_multi_operators", "optimize_cse"], ["sort_operands_by_pd", "optimize_cse"]]
jobs = []
for kind in "fp":
    for f in shapes(kind):
        k = [10]
        def new(): k[0] += 1; return k[0]
        vs = variants(f, lambda: 11)
        if kind == "p": vs = vs[::2] if quick else vs
        for n, v in enumerate(vs):
            jobs.append(([f, v], STEPS[0], 6, False))
        for n in range(3 if quick else 25):
            g = [f] + rng.sample(vs, min(len(vs), 2))
            g.insert(rng.randrange(len(g)), rng.choice([f, N(f), A(f, rng.choice(vs))]))
            st = rng.choice(STEPS)
            while "to_nnf" in st and any(n[0] == "^" for h in g for n in walk(h)): st = rng.choice(STEPS)  # !(p xor q) is C12's known finding
            jobs.append((g, st, 3, False))
only = os.environ.get("C_T")
if only != "bz":
    N_ = int(os.environ.get("C_N", 0)) or len(jobs)
    fmap(chk, multi_job, jobs[:N_], limit=90 if quick else 300)
# data expressions that differ in one place
i, j, x, y, p, q = ("iv", 0), ("iv", 1), ("xv", 0), ("xv", 1), ("pv", 0), ("pv", 1)
ic, fc = lambda n: ("ic", n), lambda v: ("fc", v)
NEAR = [
    [(">", i, ic(1)), (">", i, ic(-1)), (">", i, ic(10)), (">", i, ic(0))],
    [(">", ("-", i, j), ic(0)), (">", ("-", j, i), ic(0)), (">", ("+", i, ("neg", j)), ic(0)), (">", ("neg", i), ic(0))],
    [("<", x, fc(1.5)), ("<", x, fc(1.50001)), ("<", x, fc(1.5000000001)), ("<", x, fc(-1.5))],
    [("<", x, fc(1.0)), ("<", i, ic(1)), ("<", x, fc(10.0)), ("<", x, fc(0.1))],
    [("<", x, y), (">", x, y), ("<=", x, y), ("<", y, x)],
    [("==", ("&", i, j), ic(3)), ("==", ("|", i, j), ic(3)), ("==", ("^", i, j), ic(3)), ("==", ("&", i, ("~", j)), ic(3))],
    [("==", ("*", ("+", i, j), i), ic(6)), ("==", ("+", ("*", i, j), i), ic(6)), ("==", ("+", i, ("*", j, i)), ic(6)), ("==", ("*", i, ("+", j, i)), ic(6))],
    [("==", ("prev", ic(1), i), j), ("==", ("prev", ic(2), i), j), ("==", i, ("prev", ic(1), j)), ("==", ("prev", ic(1), j), j)],
    [("prev", ("bc", True), p), ("prev", ("bc", False), p), p, ("prev", ("bc", True), q)],
    [("sum", "foratleast", 1, [p, q, ("pv", 2)]), ("sum", "foratleast", 2, [p, q, ("pv", 2)]), ("sum", "foratmost", 1, [p, q, ("pv", 2)]), ("sum", "forexactly", 1, [p, q, ("pv", 2)])],
    [("sum", "forexactly", 1, [p, q]), ("sum", "forexactly", 1, [p, p]), ("sum", "forexactly", 1, [q, p]), ("sum", "forexactly", 1, [p, q, q])],
    [(">", ("%", i, ic(3)), ic(0)), (">", ("/", i, ic(3)), ic(0)), (">", ("%", i, ic(-3)), ic(0)), (">", ("%", j, ic(3)), ic(0))],
    [("<=", ("tau",), i), ("<=", i, ("tau",)), ("<", ("tau",), i), ("==", ("tau",), i)],
    [(">", ("abs", ("-", i, j)), ic(2)), (">", ("-", ("abs", i), j), ic(2)), (">", ("-", i, ("abs", j)), ic(2)), (">", ("abs", i), ic(2))],
    [("==", p, q), ("!=", p, q), ("==", p, ("bc", True)), ("==", p, ("bc", False))],
    [("==", i, j), ("==", x, y), ("!=", i, j), ("!=", x, y)],
]
FT4 = [[V(0), V(1), V(2), V(3)], [F(0, 1, V(0)), G(0, 1, V(1)), F(0, 1, V(2)), F(0, 2, V(3))], [A(V(0), V(1)), D(V(1), V(2)), A(V(1), V(0)), A(V(0), V(3))],
       [U(0, 1, V(0), V(1)), U(0, 1, V(1), V(0)), U(0, 1, V(2), V(3)), V(0)], [O(0, 1, V(0)), H(0, 1, V(1)), O(0, 1, V(2)), O(0, 2, V(3))]]
def bzgo(job):
    fs, es, opts = job
    P = Prog(fs, es)
    key = "data expressions: " + "; ".join(text(f, ["(" + btext(e) + ")" for e in es]) for f in fs) + " " + " ".join(opts)
    r = build_spec(P.spec(), None, ["-bz"] + list(opts), map_text=P.map())
    if not r.ok:
        chk.count("not_accepted_by_compiler")
        if os.environ.get("C_DEBUG"): print("REJ", key, r.err.strip().splitlines()[:2])
        return
    decide(chk, key, P.harness(r.bin, 3, timely=False, order=False), sample={"program": key} if len(chk.samples) < 9 else None)
bjobs = []
for es in NEAR:
    for fs in (FT4[:2] + [rng.choice(FT4[2:])] if quick else FT4):
        bjobs.append((fs, es, ()))
    bjobs.append((FT4[0], rng.sample(es, 4), ()))
for n in range(20 if quick else 200):
    bjobs.append((rng.choice(FT4), [rng.choice(rng.choice(NEAR)) for _ in range(4)], rng.choice([(), ("--no-rewrite",)])))
pmap(guarded(chk, bzgo), bjobs)
chk.assume += ["interval bounds up to the stated limit; shapes of the enumerated families", "32-bit integers and doubles; integer texts of different values differ (Python's own formatting)"]
chk.finish()
