import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pyeq import *
from comp import c2po as run_c2po
chk = Check("C15", "other")
chk.cov["explanation"] = ("The real satisfiability check (its encoders, its solver call and its reading of the answer) is run on families of formulas and whole programs in each encoding and mode; "
    "the solver decides, over all traces, the documented semantics of the same formula (all atoms at all positions up to the horizon are unknowns; integer inputs are unbounded or 32-bit integers), and the two verdicts must agree. "
    "Formulas are built so that a small error in an encoding changes the answer: negated equivalences between a formula and its step-by-step expansion, and near misses of these. In strict mode, where traces may be shorter than the horizon, "
    "'sat' needs a trace of some length under one of the two published readings and 'unsat' may not contradict a trace that covers the horizon.")
quick = TIER != "thorough"
rng = random.Random(SEED * 53 + 15)
Z = z3ops(z3)
# ---- the documented meaning ----------------------------------------------------------------------
class FSem:
    """finite traces of length n; cut: positions past the end are left out of the windows (else atoms are false there)"""
    def __init__(self, var, n, cut): self.var, self.n, self.cut, self.memo = var, n, cut, {}
    def at(self, f, t):
        k = (f, t)
        if k not in self.memo: self.memo[k] = self._at(f, t)
        return self.memo[k]
    def _at(self, f, t):
        o = f[0]
        if o == "v": return self.var(f[1], t) if t < self.n else Z.F
        if o in "tf": return Z.T if o == "t" else Z.F
        if o == "!": return Z.not_(self.at(f[1], t))
        if o == "&": return Z.and_([self.at(k, t) for k in f[1:]])
        if o == "|": return Z.or_([self.at(k, t) for k in f[1:]])
        if o == "^": return Z.not_(self.at(f[1], t) == self.at(f[2], t))
        if o == "<->": return self.at(f[1], t) == self.at(f[2], t)
        if o == "->": return Z.or_([Z.not_(self.at(f[1], t)), self.at(f[2], t)])
        lb, ub = t + f[1], t + f[2]
        if self.n <= lb: return Z.T if o in ("G", "R") else Z.F
        js = [j for j in range(lb, ub + 1) if not self.cut or j < self.n]
        if o == "F": return Z.or_([self.at(f[3], j) for j in js])
        if o == "G": return Z.and_([self.at(f[3], j) for j in js])
        r = Z.F if o == "U" else Z.T
        for j in reversed(js):
            r = Z.or_([self.at(f[4], j), Z.and_([self.at(f[3], j), r])]) if o == "U" else Z.and_([self.at(f[4], j), Z.or_([self.at(f[3], j), r])])
        return r
class Data:
    """comparisons of integer expressions as atoms of a formula: ("v", 100 + n)"""
    def __init__(self): self.atoms, self.side, self.k = [], [], 0
    def atom(self, rel, a, b):
        self.atoms.append((rel, a, b)); return V(99 + len(self.atoms))
def iexp(r, d):
    if d == 0: return r.choice(["i", "j", "i", r.choice([0, 1, 2, 3, 7, -1, -4, 10])])
    o = r.choice("+-*/%n+-/%")
    if o == "n": return (o, iexp(r, d - 1))
    if o in "*/%": return (o, iexp(r, d - 1), r.choice([2, 3, 5, -2, -3, 4]))
    return (o, iexp(r, d - 1), iexp(r, d - 1))
def itext(e):
    if isinstance(e, tuple): return f"(-{itext(e[1])})" if e[0] == "n" else f"({itext(e[1])} {e[0]} {itext(e[2])})"
    return str(e) if not isinstance(e, int) or e >= 0 else f"({e})"
def ival(e, t, side, n):
    if isinstance(e, int): return z3.IntVal(e)
    if isinstance(e, str): return z3.Int(f"{e}_{t}")
    a = ival(e[1], t, side, n)
    if e[0] == "n": r = -a
    else:
        b = ival(e[2], t, side, n)
        if e[0] in "/%":
            q, m = z3.Int(f"q{next(n)}"), z3.Int(f"m{next(n)}")
            side += [a == b * q + m, z3.If(b > 0, z3.And(-b < m, m < b), z3.And(b < m, m < -b)), z3.Implies(a >= 0, m >= 0), z3.Implies(a <= 0, m <= 0)]
            r = q if e[0] == "/" else m
        else: r = a + b if e[0] == "+" else a - b if e[0] == "-" else a * b
    side.append(("range", r))
    return r
REL = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}
def verdicts(f, data=None, strict=False):
    """(a trace that covers the horizon satisfies f with 32-bit inputs, some trace of the mode does with any integers), each sat/unsat"""
    side, n, cache = [], itertools.count(), {}
    def var(k, t):
        if k < 100: return z3.Bool(f"a{k}_{t}")
        if (k, t) not in cache:
            rel, a, b = data.atoms[k - 100]
            cache[k, t] = REL[rel](ival(a, t, side, n), ival(b, t, side, n))
        return cache[k, t]
    full = Sem(var, Z).at(f, 0)
    wide = [full]
    if strict:
        for L in range(0, horizon(f) + 2):
            for cut in (0, 1): wide.append(FSem(var, L, cut).at(f, 0))
    eqs = [x for x in side if not isinstance(x, tuple)]
    rng_ = [z3.And(-2**31 <= x[1], x[1] < 2**31) for x in side if isinstance(x, tuple)] + [z3.And(-2**31 <= z3.Int(f"{v}_{t}"), z3.Int(f"{v}_{t}") < 2**31) for v in "ij" for t in range(horizon(f) + 1)] if data else []
    out = []
    for g, extra in ((full, rng_), (z3.Or(*wide), [])):
        s = z3.Solver(); s.set("timeout", 30000)
        s.add(g, *eqs, *extra)
        out.append(str(s.check()))
    return out
import itertools
THEORIES = ("uflia", "qf_uflia", "qf_bv")
def job(j):
    fs, data, named, steps, modes = j
    viol, cnt = [], {"programs": 1}
    names = [f"a{k}" for k in range(4)] + [None] * 96 + [f"({itext(a)} {r} {itext(b)})" for r, a, b in (data.atoms if data else [])]
    defs = []
    def tx(f, root=True):
        if f[0] == "v": return names[f[1]]
        ks = [tx(k, False) for k in kids(f)]
        g = f[:3] + tuple(V(i) for i in range(len(ks))) if f[0] in UN + BIN else f[:1] + tuple(V(i) for i in range(len(ks)))
        s_ = text(g, [k if re.fullmatch(r"\w+", k) else f"({k})" for k in ks])
        if named and not root and f[0] in FT and (len(defs) + len(s_)) % 3:
            defs.append(f"  d{len(defs)} := {s_};\n")
            return f"d{len(defs) - 1}"
        return s_
    specs = "".join(f"  {tx(f)};\n" for f in fs)
    t = "INPUT\n  a0, a1, a2, a3: bool;\n" + ("  i, j: int;\n" if data else "") + ("DEFINE\n" + "".join(defs) if defs else "") + "FTSPEC\n" + specs
    exp = list(fs) + ([("&",) + tuple(fs)] if len(fs) > 1 else [])
    for strict in sorted({m[1] for m in modes}):
        want = [verdicts(f, data, strict) for f in exp]
        cnt["queries"] = cnt.get("queries", 0) + 2 * len(want)
        for th in [m[0] for m in modes if m[1] == strict]:
            con = Con()
            lines = (["enable_booleanizer"] if data else []) + [f"parse_c2po {tmp('s.c2po', t)}", "type_check", "desugar"] + steps
            for l in lines: con.must(l)
            con(f"check_sat {th} --print --smt-max-time 20" + (" --strict" if strict else ""))
            got = re.findall(r" : (sat|unsat|unknown)$", con.out, re.M)
            if "unexpected error" in con.out: viol.append((f"{th}: crash on {text(fs[0], names)}", "the check fails with an internal error", t + "\n" + con.out[-1500:])); continue
            if len(got) < len(want): cnt["no answer: " + th] = cnt.get("no answer: " + th, 0) + 1
            for f, g, (full, wide) in zip(exp, got, want):
                k = f"{th}{' strict' if strict else ''} {g}"
                cnt[k] = cnt.get(k, 0) + 1
                if g == "unsat" and full == "sat" or g == "sat" and wide == "unsat":
                    what = f"[{th}{' strict' if strict else ''}{' ' + ' '.join(steps) if steps else ''}] {text(f, names)}"
                    viol.append((what, f"answers {g}, but " + ("a trace satisfies it" if g == "unsat" else "no trace satisfies it"), f"{t}\nscript: {lines[-1 - len(steps):]} check_sat {th} --print{' --strict' if strict else ''}\noutput:\n{con.out[-800:]}"))
    return {"count": cnt, "viol": viol}
# ---- families ------------------------------------------------------------------------------------
def expand(f):
    """step by step, with no interval longer than one step"""
    if f[0] in "vtf": return f
    ks = [expand(k) for k in kids(f)]
    if f[0] not in FT: return f[:1] + tuple(ks)
    nx = lambda k, x: F(k, k, x) if k % 2 else G(k, k, x)
    lb, ub = f[1], f[2]
    if f[0] == "F": return D(*[nx(k, ks[0]) for k in range(lb, ub + 1)]) if lb < ub else nx(lb, ks[0])
    if f[0] == "G": return A(*[nx(k, ks[0]) for k in range(lb, ub + 1)]) if lb < ub else nx(lb, ks[0])
    r = nx(ub, ks[1])
    for k in range(ub - 1, lb - 1, -1): r = D(nx(k, ks[1]), A(nx(k, ks[0]), r)) if f[0] == "U" else A(nx(k, ks[1]), D(nx(k, ks[0]), r))
    return r
def noxor(f):
    if f[0] in "vtf": return f
    ks = tuple(noxor(k) for k in kids(f))
    if f[0] == "^": return N(E(*ks))
    return f[:3] + ks if f[0] in UN + BIN else f[:1] + ks
def bvable(f):
    """only operators the bit-vector encoding takes"""
    if f[0] in "vtf": return f
    ks = tuple(bvable(k) for k in kids(f))
    if f[0] == "R": return N(U(f[1], f[2], N(ks[0]), N(ks[1])))
    if f[0] == "->": return D(N(ks[0]), ks[1])
    return f[:3] + ks if f[0] in UN + BIN else f[:1] + ks
def nudge(r, f):
    """the same formula with one interval end moved or one operator exchanged"""
    ns = [n for n in walk(f) if n[0] in FT]
    if not ns: return N(f)
    n = r.choice(ns)
    lb, ub = n[1], n[2]
    m = r.choice([(n[0], lb, ub + 1) + n[3:], (n[0], lb + 1, ub + 1) + n[3:], (n[0], max(0, lb - 1), ub) + n[3:], ({"F": "G", "G": "F", "U": "R", "R": "U"}[n[0]],) + n[1:]])
    def go(x):
        if x == n: return m
        if x[0] in "vtf": return x
        ks = tuple(go(k) for k in kids(x))
        return x[:3] + ks if x[0] in UN + BIN else x[:1] + ks
    return go(f)
BOTH = [(th, s) for th in THEORIES for s in (0, 1)]
jobs = []
base = [V(0), N(V(0)), TT, FF, A(V(0), N(V(0))), D(V(0), N(V(0))), A(V(0), V(1), N(V(0))), E(V(0), N(V(0)))]
for l, u in [(0, 0), (1, 1), (0, 1), (1, 2), (0, 3), (2, 5), (3, 3), (0, 7), (4, 11), (1, 8)] + ([] if quick else [(a, b) for a in range(7) for b in range(a, 17)]):
    for f in (F(l, u, V(0)), G(l, u, V(0)), U(l, u, V(0), V(1)), R(l, u, V(0), V(1)), U(l, u, V(0), F(0, 2, V(1))), G(l, u, U(1, 3, V(0), V(1))), F(l, u, G(0, 1, V(0))), R(l, u, F(1, 1, V(0)), V(1))):
        x = expand(f)
        fam = [f, N(E(f, x)), N(E(f, bvable(x))), A(f, N(x)), A(N(f), x)] + [A(f, N(expand(nudge(rng, f)))) for _ in range(2)] + [A(expand(nudge(rng, f)), N(f)) for _ in range(2)]
        for g in fam:
            jobs.append(([g], None, 0, [], [(t, 0) for t in THEORIES] + ([(t, 1) for t in THEORIES] if g is f else [])))
            b = bvable(g)
            if b != g: jobs.append(([b], None, 0, [], [("qf_bv", 0), ("qf_uflia", 0)]))
        for c in (FF, TT):
            g = f[:3] + (c,) + ((V(1),) if f[0] in BIN else ())
            for h in (g, N(g)): jobs.append(([h], None, 0, [], BOTH))
for f in base: jobs.append(([f], None, 0, [], BOTH))
n = 60 if quick else 600
for k, f in enumerate(family(rng.randrange(1 << 30), n, 3, 3, FTOPS, 5, 12)):
    f = noxor(f)
    g = bvable(f) if k % 2 else f
    h = noxor(nudge(rng, f))
    jobs.append(([g], None, 0, [], BOTH))
    jobs.append(([A(f, N(expand(f)))], None, k % 3 == 0, [], [("uflia", 0)]))
    jobs.append(([N(E(g, expand(g)))], None, k % 3 == 1, [], [("qf_uflia", 0), ("qf_bv", 0)]))
    jobs.append(([A(g, N(expand(bvable(h))))], None, k % 2, [], [("qf_uflia", 0), ("qf_bv", 0), ("uflia", 0)]))
    st = [["optimize_rewrites"], ["optimize_cse"], ["optimize_rewrites", "optimize_cse"], ["to_nnf"], ["remove_extended_operators"], ["multi_operators_to_binary"]][k % 6]
    jobs.append(([g, N(g)] if k % 2 else [g, h, f], None, 0, st, [(t, 0) for t in THEORIES]))
    jobs.append(([g, h, D(N(V(0)), N(g))], None, 1, [], [(t, 0) for t in THEORIES]))
    jobs.append(([F(0, k % 9, V(0)), g, G(k % 4, 9, V(1)), F(0, 9 + k % 5, N(V(1))), V(2)], None, k % 2, [], [(t, 0) for t in THEORIES]))
# distinct ends near powers of two
for l in (0, 1, 3, 5):
    for w in (1, 2, 3, 4, 6, 7, 8, 14, 15, 16, 30, 31, 32):
        for f in (F(l, l + w, V(0)), G(l, l + w, V(0)), U(l, l + w, V(0), V(1))):
            far = l + w
            jobs.append(([A(f, N(F(0, far - 1, V(0)))) if f[0] == "F" else A(f, F(far, far, N(V(0)))) if f[0] == "G" else A(f, G(l, far - 1, N(V(1))), N(G(0, far, V(0))))], None, 0, [], [("qf_bv", 0), ("qf_uflia", 0), ("uflia", 0)]))
            jobs.append(([A(f, N(F(0, far, V(0)))) if f[0] == "F" else A(f, F(far + 1, far + 1, N(V(0)))) if f[0] == "G" else A(f, G(l, far, N(V(1))))], None, 0, [], [("qf_bv", 0), ("qf_uflia", 0), ("uflia", 0)]))
# comparisons of integers
for k in range(120 if quick else 1200):
    d = Data()
    at = lambda: d.atom(rng.choice(list(REL)), iexp(rng, rng.choice([0, 1, 1, 2])), rng.choice([iexp(rng, 0), iexp(rng, 1)]))
    a, b, c = at(), at(), at()
    l = rng.randrange(3); u = l + rng.randrange(3)
    f = rng.choice([lambda: A(a, b, c), lambda: A(G(l, u, a), F(l, u, b)), lambda: U(l, u, a, A(b, c)), lambda: A(R(l, u, a, b), c), lambda: N(I(A(a, b), c)), lambda: A(a, b, N(c)), lambda: G(l, u, A(a, N(b))), lambda: A(F(u, u, a), G(0, u, E(b, c)))])()
    st = [[], [], ["optimize_rewrites"], ["optimize_cse"]][k % 4]
    jobs.append(([f], d, k % 2, st, [("uflia", 0), ("qf_uflia", 0)] + ([("uflia", 1)] if k % 3 == 0 else [])))
for op in "/%":
    for b in (2, 3, -2, -3, 7):
        for v in (-7, -3, -2, -1, 0, 1, 2, 5):
            d = Data()
            f = A(d.atom("==", (op, "i", b), v), d.atom("<", "i", 0) if v % 2 else d.atom(">", "i", 0))
            jobs.append(([f], d, 0, [], [("uflia", 0), ("qf_uflia", 0)]))
lim = int(os.environ.get("C_N", 0))
if lim: jobs = rng.sample(jobs, lim)
fmap(chk, lambda k: job(jobs[k]), range(len(jobs)), limit=150 if quick else 600)
# the command line's own way to the check
def cli(k):
    cnt, viol = {"command_line_runs": 3}, []
    fs = [bvable(noxor(f)) for f in family(k + SEED * 1000, 3, 2, 2, FTOPS, 4, 8)]
    fs = [f for f in fs if horizon(f) < 9] + [A(F(0, 2, V(0)), G(0, 3, N(V(0))))]
    t = "INPUT\n  a0, a1: bool;\nFTSPEC\n" + "".join(f"  l{i}: {text(f)};\n" for i, f in enumerate(fs))
    for th in THEORIES:
        x = run_c2po({"s.c2po": t, "s.map": "a0: 0\na1: 1\n"}, ["--check-sat", "--smt-encoding", th, "--smt-max-time", "20", "--map", "s.map", "--output", "o.bin", "--spec", "s.c2po"])
        got = re.findall(r"^(\w+) : (sat|unsat)$", x.out, re.M)
        for n_, g in got:
            f = ("&",) + tuple(fs) if n_ == "program" else fs[int(n_[1:])]
            w = verdicts(f)[0]
            if g != w: viol.append((f"[command line {th}] {text(f)}", f"answers {g}, but it is {w}", t + x.out + x.err))
    return {"count": cnt, "viol": viol}
if not lim: fmap(chk, cli, range(4 if quick else 16), limit=300)
chk.assume += ["integer inputs are mathematical integers to the checker: an answer counts as wrong only if it is wrong for both 32-bit inputs without overflow and for unbounded ones", "'unknown', time-outs and refusals are not answers; operators an encoding refuses are counted as no answer",
               "in strict mode the truncated traces are read in either of the two published ways", "z3 decides both sides; the text of the encoding goes to the solver the tool finds"]
chk.cov["bounds"] = {"horizon": 48, "operators": "up to 5 nested"}
chk.finish()
