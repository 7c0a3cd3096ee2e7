import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pyeq import *
import itertools
chk = Check("C16", "other")
chk.cov["explanation"] = ("The real equivalence check (parser of .equiv files and of C2PO programs, encoders, solver call, summary) is run on lists of formulas, with symbolic interval bounds under constraints, mission-time bounds and fixed bounds; "
    "the solver decides, over all traces and all bounds up to the limit that satisfy the constraints, whether adjacent formulas differ, by an encoding of the documented semantics of its own. "
    "'equiv' may not meet a trace that tells two neighbours apart; 'not-equiv' needs one (where there is none within the limit, the bounds the tool's own encoding allows are taken and the pair decided for them). Lists are laws of the logic and near misses of these.")
quick = TIER != "thorough"
rng = random.Random(SEED * 59 + 16)
Z = z3ops(z3)
K = 5 if quick else 7
# ---- terms over the bounds: tuples --------------------------------------------------------------
def b(k): return ("b", k)
M = ("M",)
def tt(e):
    if isinstance(e, int): return str(e)
    if e[0] == "b": return f"b{e[1]}"
    if e[0] == "M": return "M"
    if e[0] in ("min", "max"): return f"{e[0]}({tt(e[1])},{tt(e[2])})"
    p = {"+": 1, "-": 1, "*": 2, "/": 2}
    q = {"=": 0, "!=": 0, "<": 0, "<=": 0, ">": 0, ">=": 0, **p}
    l, r = tt(e[1]), tt(e[2])
    if isinstance(e[1], tuple) and e[1][0] in q and (q[e[1][0]] < q[e[0]]): l = f"({l})"
    if isinstance(e[2], tuple) and e[2][0] in q and (q[e[2][0]] <= q[e[0]]): r = f"({r})"
    return f"{l} {e[0]} {r}"
def tv(e, env):
    if isinstance(e, int): return z3.IntVal(e)
    if e[0] == "b": return env(f"b{e[1]}")
    if e[0] == "M": return env("M")
    x, y = tv(e[1], env), tv(e[2], env)
    return {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y, "min": lambda: z3.If(x <= y, x, y), "max": lambda: z3.If(x >= y, x, y),
            "=": lambda: x == y, "!=": lambda: x != y, "<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y}[e[0]]()
def has_m(e): return isinstance(e, tuple) and (e[0] == "M" or any(has_m(x) for x in e[1:]))
def ftext(f):
    o = f[0]
    if o == "v": return f"a{f[1]}" if f[1] < 50 else f"p{f[1] - 50}"
    if o in "tf": return "true" if o == "t" else "false"
    if o == "!": return f"!({ftext(f[1])})" if f[1][0] != "v" else "!" + ftext(f[1])
    if o in UN: return f"{o}[{tt(f[1])},{tt(f[2])}] ({ftext(f[3])})"
    if o in BIN: return f"({ftext(f[3])}) {o}[{tt(f[1])},{tt(f[2])}] ({ftext(f[4])})"
    return f" {o} ".join(f"({ftext(k)})" for k in f[1:])
def ivals(f):
    return [(n[1], n[2]) for n in walk(f) if n[0] in FT]
# ---- the documented meaning -----------------------------------------------------------------------
class TSem:
    """bounds are z3 terms or ints, at most cap; n: length of the trace (None: long enough); cut: positions past the end are left out of windows"""
    def __init__(self, var, env, cap, n=None, cut=0): self.var, self.env, self.cap, self.n, self.cut, self.memo, self.keep = var, env, cap, n, cut, {}, []
    def at(self, f, t):
        k = (id(f), t)
        if k not in self.memo: self.keep.append(f); self.memo[k] = self._at(f, t)
        return self.memo[k]
    def _at(self, f, t):
        o = f[0]
        if o == "v": return self.var(f[1], t) if self.n is None else z3.And(t < self.n, self.var(f[1], t))
        if o in "tf": return z3.BoolVal(o == "t")
        if o == "!": return z3.Not(self.at(f[1], t))
        if o == "&": return z3.And(*[self.at(k, t) for k in f[1:]])
        if o == "|": return z3.Or(*[self.at(k, t) for k in f[1:]])
        if o == "<->": return self.at(f[1], t) == self.at(f[2], t)
        if o == "->": return z3.Implies(self.at(f[1], t), self.at(f[2], t))
        L, H = tv(f[1], self.env), tv(f[2], self.env)
        rng_ = []
        for k in range(self.cap + 1):
            g = z3.And(L <= k, k <= H)
            if self.n is not None and self.cut: g = z3.And(g, t + k < self.n)
            g = z3.simplify(g)
            if not z3.is_false(g): rng_.append((k, g))
        if o in ("F", "U"): r = z3.BoolVal(False)
        else: r = z3.BoolVal(True)
        for k, g in reversed(rng_):
            y = self.at(f[3 if o in UN else 4], t + k)
            if o == "F": r = z3.Or(z3.And(g, y), r)
            elif o == "G": r = z3.And(z3.Implies(g, y), r)
            else:
                x = self.at(f[3], t + k)
                r = z3.If(g, z3.Or(y, z3.And(x, r)) if o == "U" else z3.And(y, z3.Or(x, r)), r)
        if self.n is not None: r = z3.If(self.n <= t + L, z3.BoolVal(o in "GR"), r)
        return r
def differ(fs, cons, cap, fixed=None, strict=False, mission=False):
    """per reading: is there a trace (and bounds <= cap) on which two neighbours differ: list of (z3 result, model)"""
    env = (lambda s: z3.IntVal(fixed[s])) if fixed is not None else z3.Int
    syms = sorted({x for f in fs for lo, hi in ivals(f) for e in (lo, hi) for x in re.findall(r"\bb\d+\b", tt(e))} | {x for c in cons for x in re.findall(r"\bb\d+\b", tt(c))})
    var = lambda k, t: z3.Bool(f"a{k}_{t}")
    base = [tv(c, env) for c in cons] + [z3.And(0 <= z3.Int(s), z3.Int(s) <= cap) for s in syms if fixed is None]
    if fixed is None: base += [z3.And(0 <= z3.Int("M"), z3.Int("M") <= cap)]
    def wf(f):
        r = []
        for lo, hi in ivals(f): r += [0 <= tv(lo, env), tv(lo, env) <= tv(hi, env), tv(hi, env) <= cap]
        return r
    out = []
    for n, cut in ([(None, 0)] if not mission else [(env("M") + 1, 0), (env("M") + 1, 1)]) + ([(z3.Int("len"), 0), (z3.Int("len"), 1)] if strict else []):
        s = z3.Solver(); s.set("timeout", 40000)
        S = TSem(var, env, cap, n, cut)
        s.add(*base)
        if n is not None and not mission: s.add(n >= 0)
        s.add(z3.Or(*[z3.And(*wf(f), *wf(g), S.at(f, 0) != S.at(g, 0)) for f, g in zip(fs, fs[1:])]))
        r = s.check()
        out.append((str(r), str(s.model())[:600] if r == z3.sat else ""))
    return out
def judge(what, fs, cons, got, lines, text_, mode, out):
    """(violation or None)"""
    mission = mode != "fixed" and (any(has_m(e) for f in fs for i in ivals(f) for e in i) or any(has_m(c) for c in cons))
    cap = K if mode != "fixed" else max([h for f in fs for _, h in ivals(f)] + [0])
    strict = "strict" in lines
    rs = differ(fs, cons, cap, strict=strict, mission=mission)
    info = f"{text_}\ncommands: {lines}\noutput: {out[-600:]}\n"
    if got == "equiv":
        sure = rs if mission else rs[:1]     # every reading must tell them apart
        if all(r == "sat" for r, _ in sure): return (what, "answers equiv, but a trace tells two neighbours apart", info + "distinguished by: " + sure[0][1])
    if got == "not-equiv" and all(r == "unsat" for r, _ in rs):
        if mode == "fixed": return (what, "answers not-equiv, but the formulas agree on every trace", info)
        # the bounds the tool's own encoding allows
        con = Con()
        for l in lines.split("\n")[:-1]: con.must(l)
        d = str(scratch()) + f"/enc{os.getpid()}"; os.makedirs(d, exist_ok=True)
        con(f"write_equiv_smt_encoding {d} uflia")
        ok = False
        for fn in sorted(os.listdir(d)):
            s = z3.Solver(); s.set("timeout", 20000)
            s.from_string(open(f"{d}/{fn}").read().replace("(check-sat)", "")); os.unlink(f"{d}/{fn}")
            r = s.check()
            if r == z3.unknown: return "undecided"
            if r == z3.unsat: continue
            m = s.model()
            fixed = {x.name(): m[x].as_long() for x in m.decls() if re.fullmatch(r"b\d+|M", x.name())}
            import collections
            fixed = collections.defaultdict(int, fixed)
            big = max([0] + [z3.simplify(tv(h, lambda q: z3.IntVal(fixed[q]))).as_long() for f in fs for _, h in ivals(f)])
            if big > 40: return "undecided"
            if any(x == "sat" for x, _ in differ(fs, cons, big, fixed, strict, mission)): ok = True
            else: info += f"the tool's counterexample: {dict(fixed)}\n"
        if not ok: return (what, "answers not-equiv, but no trace and bounds tell neighbours apart", info)
    return None
def job(j):
    kind, fs, cons, th, strict, steps = j
    viol, cnt, und = [], {"programs": 1, "queries": 2 if strict else 1}, None
    con = Con()
    if kind == "equiv":
        t = "".join(f"c: {tt(c)}\n" for c in cons) + "".join(ftext(f) + "\n" for f in fs)
        lines = [f"parse_equiv {tmp('s.equiv', t)}", "type_check"]
        mode = "sym"
    else:
        specs = "".join(f"  {text(f)};\n" for f in fs)
        t = "INPUT\n  a0, a1, a2, a3: bool;\nFTSPEC\n" + specs
        lines = [f"parse_c2po {tmp('s.c2po', t)}", "type_check", "desugar"] + steps
        mode = "fixed"
    for l in lines: con.must(l)
    cmd = f"check_equiv {th}" + (" --strict" if strict else "") + " --smt-max-time 8"
    con(cmd)
    got = re.findall(r"^(equiv|not-equiv|unknown)$", con.out, re.M)
    what = f"[{kind} {th}{' strict' if strict else ''}{' ' + ' '.join(steps) if steps else ''}] {'; '.join(tt(c) for c in cons)} | " + " == ".join(ftext(f) if kind == "equiv" else text(f) for f in fs)
    if "unexpected error" in con.out: return {"count": cnt, "viol": [(what, "the check fails with an internal error", t + con.out[-1500:])]}
    if len(got) != 1: return {"count": {**cnt, "no_answer": 1}}
    cnt[f"{kind} {th} {got[0]}"] = 1
    v = judge(what, fs, cons, got[0], "\n".join(lines + [cmd]), t, mode, con.out)
    if v == "undecided": cnt["undecided"] = 1
    elif v: viol.append(v)
    return {"count": cnt, "viol": viol}
# ---- laws with symbolic bounds, and near misses -----------------------------------------------------
p, q, r_ = V(0), V(1), V(2)
b0, b1, b2, b3, b4 = [b(k) for k in range(5)]
add = lambda x, y: ("+", x, y)
sub = lambda x, y: ("-", x, y)
mx = lambda x, y: ("max", x, y)
mn = lambda x, y: ("min", x, y)
LAWS = [
 ([], [F(b0, b1, F(b2, b3, p)), F(add(b0, b2), add(b1, b3), p)]),
 ([], [G(b0, b1, G(b2, b3, p)), G(add(b0, b2), add(b1, b3), p)]),
 ([("<=", b0, b2), ("<=", b2, add(b1, 1))], [D(F(b0, b1, p), F(b2, b3, p)), F(b0, mx(b1, b3), p)]),
 ([("<=", b0, b2), ("<=", b2, add(b1, 1)), ("=", b4, mx(b1, b3))], [A(G(b0, b1, p), G(b2, b3, p)), G(b0, b4, p)]),
 ([("<=", b0, b2), (">=", b1, b3)], [A(G(b0, b1, p), G(b2, b3, p)), G(b0, b1, p)]),
 ([("<=", b0, b2), (">=", b1, b3)], [D(G(b0, b1, p), G(b2, b3, p)), G(b2, b3, p)]),
 ([], [N(U(b0, b1, p, q)), R(b0, b1, N(p), N(q))]),
 ([], [N(R(b0, b1, p, q)), U(b0, b1, N(p), N(q))]),
 ([], [U(b0, b1, TT, p), F(b0, b1, p), N(G(b0, b1, N(p)))]),
 ([], [R(b0, b1, FF, p), G(b0, b1, p)]),
 ([], [A(G(b0, b1, p), G(b0, b1, q)), G(b0, b1, A(p, q))]),
 ([], [D(F(b0, b1, p), F(b0, b1, q)), F(b0, b1, D(p, q))]),
 ([], [U(b0, b1, p, q), F(b0, b0, U(0, sub(b1, b0), p, q))]),
 ([], [R(b0, b1, p, q), G(b0, b0, R(0, sub(b1, b0), p, q))]),
 ([], [A(U(b0, b1, p, r_), U(b0, b1, q, r_)), U(b0, b1, A(p, q), r_)]),
 ([], [D(U(b0, b1, r_, p), U(b0, b1, r_, q)), U(b0, b1, r_, D(p, q))]),
 ([], [F(b0, b0, p), G(b0, b0, p)]),
 ([("<=", b0, b1), ("<", b1, b2)], [F(b0, b2, p), D(F(b0, b1, p), F(add(b1, 1), b2, p))]),
 ([("<=", b0, b1), ("<", b1, b2)], [G(b0, b2, p), A(G(b0, b1, p), G(add(b1, 1), b2, p))]),
 ([("=", b2, add(b0, b1))], [F(b0, b0, G(0, b1, p)), G(b0, b2, p)]),
 ([("=", b2, ("*", b0, 2))], [F(b0, b0, F(b0, b0, p)), F(b2, b2, p)]),
 ([("=", b2, add(b0, ("*", 2, b1)))], [F(b0, b0, F(b1, b1, F(b1, b1, p))), G(b2, b2, p)]),
 ([("=", b2, ("/", add(b0, b0), 2))], [F(b2, b1, p), F(b0, b1, p)]),
 ([], [F(("/", b0, 2), b0, p), D(F(("/", b0, 2), ("/", b0, 2), p), F(("/", b0, 2), b0, p))]),
 ([("=", b1, sub(sub(b0, 1), 1))], [F(b1, b0, p), D(F(b1, b1, p), F(add(b1, 1), add(b1, 1), p), F(b0, b0, p))]),
 ([], [F(sub(b0, b1), 0, p), p]),
 ([], [G(sub(b0, b1), sub(b0, b1), p), F(sub(b0, b1), sub(b0, b1), p)]),
 ([], [F(mn(b0, b1), mx(b0, b1), p), F(mn(b1, b0), mx(b1, b0), p)]),
 ([("<=", b0, b1)], [F(mn(b0, b1), mx(b0, b1), p), F(b0, b1, p)]),
 ([("!=", b0, b1), ("<=", b0, 1), ("<=", b1, 1)], [F(mn(b0, b1), mx(b0, b1), p), F(0, 1, p)]),
 ([(">", b0, b1)], [F(b0, b1, p), FF]),
 ([("=", b0, 0)], [G(b0, b0, p), p]),
 ([], [E(F(b0, b1, p), F(b0, b1, q)), A(I(F(b0, b1, p), F(b0, b1, q)), I(F(b0, b1, q), F(b0, b1, p)))]),
 ([], [I(G(b0, b1, p), F(b0, b1, p)), TT]),
 ([], [I(F(b0, b1, p), G(b0, b1, p)), D(F(b0, b1, N(p)), G(b0, b1, p))]),
 ([("<=", b2, b3)], [G(b0, b1, F(b2, b3, p)), N(F(b0, b1, G(b2, b3, N(p))))]),
 ([], [F(1, 1, F(0, M, p)), F(1, M, p)]),
 ([], [G(0, M, p), N(F(0, M, N(p)))]),
 ([("<=", b0, M)], [F(0, b0, p), D(p, F(0, b0, p))]),
 ([("<=", b1, M), ("<=", b0, b1)], [U(b0, b1, p, q), N(R(b0, b1, N(p), N(q)))]),
 ([("<", add(b0, b1), M)], [F(b0, b0, F(b1, b1, p)), F(add(b0, b1), add(b0, b1), p)]),
 ([], [D(V(50), p), D(p, V(50)), N(A(N(p), N(V(50))))]),
 ([], [F(b0, b1, V(50)), U(b0, b1, TT, V(50))]),
]
def mutate(r, cons, fs):
    """a near miss: one term of one interval or constraint, or one operator, changed"""
    fs, cons = list(fs), list(cons)
    if cons and r.random() < 0.3:
        k = r.randrange(len(cons)); c = cons[k]
        m = r.choice(["drop", "op", "inc", "dec"])
        if m == "drop": cons.pop(k)
        elif m == "op": cons[k] = (r.choice(["<=", "<", "=", ">="]),) + c[1:]
        elif m == "inc": cons[k] = (c[0], c[1], add(c[2], 1))
        else: cons[k] = (c[0], add(c[1], 1), c[2])
        return cons, fs
    i = r.randrange(len(fs))
    ns = [n for n in walk(fs[i]) if n[0] in FT]
    if not ns: return cons, fs[:i] + [N(fs[i])] + fs[i + 1:]
    n = r.choice(ns); lo, hi = n[1], n[2]
    ch = [(n[0], lo, add(hi, 1)) + n[3:], (n[0], add(lo, 1), add(hi, 1)) + n[3:], (n[0], add(lo, 1), hi) + n[3:], ({"F": "G", "G": "F", "U": "R", "R": "U"}[n[0]],) + n[1:], (n[0], 0, hi) + n[3:]]
    if n[0] in BIN: ch.append(n[:3] + (n[4], n[3]))
    sw = lambda e: ("min" if e[0] == "max" else "max",) + e[1:] if isinstance(e, tuple) and e[0] in ("min", "max") else e
    if sw(hi) != hi or sw(lo) != lo: ch.append((n[0], sw(lo), sw(hi)) + n[3:])
    m = r.choice(ch)
    def go(x):
        if x == n: return m
        if x[0] in "vtf": return x
        ks = tuple(go(k) for k in kids(x))
        return x[:3] + ks if x[0] in UN + BIN else x[:1] + ks
    return cons, fs[:i] + [go(fs[i])] + fs[i + 1:]
jobs = []
for cons, fs in LAWS:
    jobs.append(("equiv", fs, cons, "uflia", 0, []))
    jobs.append(("equiv", fs, cons, "uflia", 1, []))
    for k in range(5 if quick else 40):
        c, g = mutate(rng, cons, fs)
        if k % 5 == 4: c, g = mutate(rng, c, g)
        jobs.append(("equiv", g, c, "uflia", k % 4 == 3, []))
    x = list(fs); x.insert(rng.randrange(len(x) + 1), rng.choice([fs[0], mutate(rng, cons, fs)[1][0]]))
    jobs.append(("equiv", x, cons, "uflia", 0, []))
# fixed bounds
def expand(f):
    if f[0] in "vtf": return f
    ks = [expand(k) for k in kids(f)]
    if f[0] not in FT: return f[:1] + tuple(ks)
    nx = lambda k, x: F(k, k, x) if k % 2 else G(k, k, x)
    lb, ub = f[1], f[2]
    if f[0] in "FG": return (D if f[0] == "F" else A)(*[nx(k, ks[0]) for k in range(lb, ub + 1)]) if lb < ub else nx(lb, ks[0])
    r = nx(ub, ks[1])
    for k in range(ub - 1, lb - 1, -1): r = D(nx(k, ks[1]), A(nx(k, ks[0]), r)) if f[0] == "U" else A(nx(k, ks[1]), D(nx(k, ks[0]), r))
    return r
def plain(f):
    if f[0] in "vtf": return f
    ks = tuple(plain(k) for k in kids(f))
    if f[0] == "^": return N(E(*ks))
    if f[0] == "R": return N(U(f[1], f[2], N(ks[0]), N(ks[1])))
    if f[0] == "->": return D(N(ks[0]), ks[1])
    return f[:3] + ks if f[0] in UN + BIN else f[:1] + ks
def nudge(r, f):
    c, g = mutate(r, [], [f])
    ev = lambda e: e if isinstance(e, int) else ev(e[1]) + ev(e[2])
    def go(x):
        if x[0] in "vtf": return x
        ks = tuple(go(k) for k in kids(x))
        return (x[0], min(ev(x[1]), ev(x[2])), ev(x[2])) + ks if x[0] in UN + BIN else x[:1] + ks
    return go(g[0])
STEPS = [[], ["optimize_rewrites"], ["optimize_cse"], ["to_nnf"], ["remove_extended_operators"], ["multi_operators_to_binary"], ["optimize_rewrites", "optimize_cse"], []]
for k, f in enumerate(family(rng.randrange(1 << 30), 80 if quick else 900, 3, 3, FTOPS, 5, 10)):
    f = plain(f); x = plain(expand(f)); g = nudge(rng, f)
    if any(h[1] > h[2] for h in walk(g) if h[0] in FT): continue
    th = ("uflia", "qf_uflia", "qf_bv")[k % 3]
    st = STEPS[k % 8]
    for t_ in ("uflia", "qf_uflia", "qf_bv"): jobs.append(("c2po", [f, x], [], t_, 0, []))
    jobs.append(("c2po", [f, x, g], [], th, 0, st))
    jobs.append(("c2po", [g, f], [], th, 0, st))
    jobs.append(("c2po", [f, plain(expand(g))], [], ("qf_uflia", "qf_bv", "uflia")[k % 3], 0, []))
    jobs.append(("c2po", [f, f, x], [], th, 1, []))
    jobs.append(("c2po", [f, g, x], [], th, 0, []))
    jobs.append(("equiv", [f, x], [], "uflia", 0, []))
    jobs.append(("equiv", [f, g], [], "uflia", 1, []))
lim = int(os.environ.get("C_N", 0))
if lim: jobs = rng.sample(jobs, lim)
fmap(chk, lambda k: job(jobs[k]), range(len(jobs)), limit=200 if quick else 600)
# formulas no encoding takes must not be called equivalent
def refused(k):
    t, th, fmt = [("INPUT a0, a1: bool;\nPTSPEC\n  O[0,3] a0;\n  a1;\n", "uflia", "c2po"), ("INPUT a0, a1: bool;\nFTSPEC\n  F[0,3] a0;\nPTSPEC\n  H[0,3] a1;\n", "uflia", "c2po"),
        ("INPUT a0, a1: bool;\nFTSPEC\n  a0 xor a1;\n  a0 R[0,2] a1;\n", "qf_bv", "c2po"), ("INPUT a0, a1: bool;\nFTSPEC\n  a0 R[0,2] a1;\n  a0;\n", "qf_uflia", "c2po"), ("INPUT x: float; a0: bool;\nFTSPEC\n  x > 1.0;\n  a0;\n", "uflia", "c2po"),
        ("F[0,b0] a0\nG[0,b0] a1\n", "qf_bv", "equiv"), ("F[0,b0] a0\nG[0,b0] a1\n", "qf_uflia", "equiv"), ("INPUT i: int; a0: bool;\nFTSPEC\n  i > 1;\n  a0;\n", "qf_bv", "c2po")][k]
    con = Con()
    con("enable_booleanizer")
    for l in [f"parse_{fmt} {tmp('s.' + fmt, t)}", "type_check"] + (["desugar"] if fmt == "c2po" else []): con.must(l)
    con(f"check_equiv {th} --smt-max-time 5")
    v = [] if not re.search(r"^equiv$", con.out, re.M) else [(f"refused {k}", "formulas the encoding refuses are called equivalent", t + con.out)]
    return {"count": {"programs": 1}, "viol": v}
if not lim: fmap(chk, refused, range(8), limit=60)
chk.assume += ["with a mission time M traces have M + 1 positions and truncated traces are read in either of the two published ways; without one, traces cover every horizon", "'unknown' is not an answer", "intervals are taken to be well-formed (0 <= lower <= upper), as the tool does",
               "z3 decides both sides; the text of the encoding goes to the solver the tool finds"]
chk.cov["bounds"] = {"symbolic bounds up to": K, "symbolic bounds": 5, "nesting": 3}
chk.finish()
