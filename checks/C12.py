import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pyeq import *
import C11 as rw
chk = Check("C12", "other")
chk.cov["explanation"] = ("The compiler's real transformation commands (and the unrolling and interval-decomposition functions) run symbolically (pysym) on syntax trees whose interval bounds are symbolic integers, alone, in sequences and on "
    "trees with shared nodes; every feasible path is covered, and for each z3 decides, for all bounds satisfying the path condition and all traces, that intervals stay well-formed and the value is the original's; the result must contain only the operators the form allows.")
quick = TIER != "thorough"
rng = random.Random(SEED * 29 + 12)
B = 4 if quick else 6
MLTL = ("F", "G", "U", "R")
def ops(f): return {n[0] for n in walk(f)}
def only(*allowed):
    return lambda g: (lambda bad: f"contains {sorted(bad)}" if bad else None)(ops(g) - set(allowed) - {"v", "t", "f"})
def no(*forb):
    return lambda g: (lambda bad: f"still contains {sorted(bad)}" if bad else None)(ops(g) & set(forb))
def binary(g):
    return "has an operator with more than two operands" if any(n[0] in "&|^" and len(n) != 3 for n in walk(g)) else None
def both(*fs): return lambda g: next((w for w in (f(g) for f in fs) if w), None)
def nnf(g):
    for n in walk(g):
        if n[0] in ("->", "^"): return f"contains {n[0]}"
        if n[0] == "!" and n[1][0] not in ("v", "t", "f"): return f"negates {n[1][0]}"
def apply_fn(name):
    def step(con):
        s = con.program.get_specs()[0]
        fn = getattr(cpt, name)
        s.children[0] = fn(s.children[0], con.context)
    step.__name__ = name
    return step
unroll, decomp = apply_fn("unroll_temporal_operators"), apply_fn("decompose_intervals")
def unit(g):
    for n in walk(g):
        if n[0] in ("F", "G") and not (n[1] is n[2] or not isinstance(n[1], SymI) and not isinstance(n[2], SymI) and n[1] == n[2]):
            return None     # equality of symbolic bounds is part of the equivalence query
        if n[0] == "U": return "contains U"
EXT = both(no("^", "->", "F", "G", "O", "H"), binary)
# (tag, steps, form over future formulas, form over past formulas, grow, only-future?)
FORMS = [
    ("to_bnf", ["to_bnf"], only("!", "&", "U"), None),
    ("to_nnf", ["to_nnf"], nnf, nnf),
    ("multi_operators_to_binary", ["multi_operators_to_binary"], binary, binary),
    ("flatten_multi_operators", ["flatten_multi_operators"], None, None),
    ("remove_extended_operators", ["remove_extended_operators"], EXT, EXT),
    ("sort_operands_by_pd", ["sort_operands_by_pd"], None, None),
    ("remove_release_operators", ["remove_release_operators"], no("R"), no("R")),
]
CSE = "optimize_cse"
SEQS = [[a, b] for a, b in [("to_nnf", "to_nnf"), ("to_nnf", "to_bnf"), ("to_bnf", "to_nnf"), ("flatten_multi_operators", "to_nnf"), ("flatten_multi_operators", "multi_operators_to_binary"), ("flatten_multi_operators", "sort_operands_by_pd"),
        ("remove_extended_operators", "remove_release_operators"), ("remove_release_operators", "flatten_multi_operators"), ("remove_extended_operators", "to_nnf"), ("to_nnf", "remove_extended_operators"), ("remove_release_operators", "to_bnf"), ("to_bnf", "flatten_multi_operators")]]
SEQS += [[CSE] + t[1] for t in FORMS] + [t[1] + [CSE] for t in FORMS] + [[CSE, "to_nnf", "sort_operands_by_pd", CSE], ["optimize_rewrites", CSE, "to_nnf"], ["flatten_multi_operators", CSE, "remove_extended_operators"], [CSE, "to_bnf", "to_nnf", "to_bnf"], ["flatten_multi_operators", "optimize_rewrites"]]
FDICT = {t[0]: t for t in FORMS}
def basics():
    c = [0]
    p, q, r = V(0), V(1), V(2)
    def u(o, x):
        i = c[0]; c[0] += 1
        return (o, ("lb", i), ("ub", i), x)
    def b(o, x, y):
        i = c[0]; c[0] += 1
        return (o, ("lb", i), ("ub", i), x, y)
    out = []
    def add(f): out.append(f); c[0] = 0
    for k in (0, 1, 2, 3, 4):
        def ng(f): 
            for _ in range(k): f = N(f)
            return f
        for x in (p, TT, FF): add(ng(x))
        for o in ("&", "|"):
            add(ng((o, p, q))); add(ng((o, p, q, r))); add(ng((o, (o, p, q), r))); add(ng((o, p, (o, N(q), r)))); add(ng((o, N(p), N(N(q))))); add(ng((o, N((o, p, q)), r)))
            x4 = (o, p, q, r, N(p)); add(ng(x4)); add(ng((o, N(r), N(p), q, p, r, N(q))))
            add(ng((o, u("F", p), q, N(r), u("G", q)))); add(ng((o, u("O", p), q, r, N(r), u("H", q)))); add(ng((o, q, x4, N(q), r)))
            add(ng((o, p, p))); add(ng((o, (o, p, q), (o, q, r), p))); add(ng((o, (o, (o, p, q), r), (o, p, (o, q, r)))))
            add(ng((o, u("F", p), u("G", q)))); add(ng((o, u("F", p), u("G", q), q))); add(ng((o, u("H", p), u("O", q), b("S", p, q))))
        for o in ("^", "->", "<->"):
            add(ng((o, p, q))); add(ng((o, p, p))); add(ng((o, N(p), q))); add(ng((o, p, N(q)))); add(ng((o, (o, p, q), r))); add(ng((o, p, (o, q, r)))); add(ng((o, u("F", p), u("G", q)))); add(ng((o, A(p, q), N(D(q, r)))))
            add(ng((o, b("U", p, q), b("R", q, r)))); add(ng((o, u("O", p), b("S", q, r)))); add(ng((o, u("H", p), b("T", q, r)))); add(ng((o, I(p, q), E(q, r)))); add(ng((o, X(p, q), N(X(q, r)))))
        for o in ("F", "G", "O", "H"):
            add(ng(u(o, p))); add(ng(u(o, N(p)))); add(ng(u(o, N(N(p))))); add(ng(u(o, A(p, N(q))))); add(ng(u(o, I(p, q)))); add(ng(u(o, X(p, q)))); add(ng(u(o, E(p, q)))); add(ng(u(o, N(u(o, p)))))
            add(ng(u(o, TT))); add(ng(u(o, D(p, q, r))))
        for o in ("U", "R", "S", "T"):
            add(ng(b(o, p, q))); add(ng(b(o, N(p), q))); add(ng(b(o, p, N(q)))); add(ng(b(o, N(b(o, p, q)), r))); add(ng(b(o, p, N(b(o, q, r))))); add(ng(b(o, p, p))); add(ng(b(o, A(p, q), I(q, r)))); add(ng(b(o, TT, q))); add(ng(b(o, FF, q)))
            o2 = "F" if o in "UR" else "O"; o3 = "G" if o in "UR" else "H"
            add(ng(b(o, N(u(o2, p)), u(o3, q)))); add(ng(u(o2, N(b(o, p, q))))); add(ng(u(o3, N(b(o, p, N(q))))))
    return out
def fut(f): return not any(n[0] in PT for n in walk(f))
def job(j):
    f, tag, steps, form, kw = j
    r = equiv_job(f, steps, form=form, tag=tag, **kw)
    if r.get("viol") and ":" not in r["viol"][0][0] and "to_nnf" in steps and not {"to_bnf", "remove_extended_operators"} & set(steps[:steps.index("to_nnf")]):
        d = negxor(f)
        if d != f:
            # the recorded finding: is it the only thing wrong with the result?
            r2 = equiv_job(f, steps, form=form, tag=tag, ref=d, **kw)
            if not r2.get("viol") and not r2.get("undecided"): r["viol"] = [("to_nnf !(p xor q)", "to_nnf turns a negated xor into (!p && q) && (p && !q), which is never true: " + r["viol"][0][1], r["viol"][0][2])]
    return r
def negxor(f, neg=False):
    """f with false in place of each exclusive or that to_nnf meets negated"""
    o = f[0]
    if o == "!": 
        r = negxor(f[1], not neg)
        return N(r)
    if o == "^" and len(f) == 3:
        if neg: return N(FF)                # its negation is what becomes false
        a, b = f[1:]
        return D(A(negxor(a), N(negxor(b, True))), A(N(negxor(a, True)), negxor(b)))
    if o == "->": return I(negxor(f[1], not neg), negxor(f[2], neg))
    if o == "<->":
        if not neg: return E(negxor(f[1]), negxor(f[2]))
        a, b = f[1:]
        return N(D(A(negxor(a), N(negxor(b, True))), A(N(negxor(a, True)), negxor(b))))
    return f[:1] + tuple(negxor(k, neg) if isinstance(k, tuple) and k[0] not in ("lb", "ub") else k for k in f[1:])
if __name__ == "__main__":
    basic = basics()
    rand = []
    for k in range(60 if quick else 500):
        rand.append(rw.rshape(rng, rng.choice([2, 3, 3]), rng.choice("ffp"), rng.choice([1, 2, 2])))
    seen, pool = set(), []
    for f in basic + rand:
        if show(f) not in seen and depth(f) <= 3: seen.add(show(f)); pool.append(f)
    js = []
    for tag, steps, ff, pf in FORMS:
        for f in pool: js.append((f, tag, steps, ff if fut(f) else pf, {"B": B}))
    for k, steps in enumerate(SEQS):
        last = FDICT.get(steps[-1])
        n = 16 if quick else 300
        for f in rng.sample(pool, min(n, len(pool))):
            js.append((f, " ".join(map(str, steps)), steps, None if not last else last[2] if fut(f) else last[3], {"B": B if depth(f) < 2 else 3}))
    for f in pool:
        if fut(f) and "R" not in ops(f) and not any(n[0] in ("t", "f") for n in walk(f)): js.append((f, "unroll_temporal_operators", [unroll], unit, {"B": B if depth(f) < 2 else 3}))
        if fut(f): js.append((f, "decompose_intervals", [decomp], None, {"B": (24 if quick else 40) if len(holes(f)) == 2 else (5 if quick else 9) if len(holes(f)) == 4 else 3}))
    if os.environ.get("C_N"): js = js[:int(os.environ["C_N"])]
    if os.environ.get("C_T"): js = [j for j in js if j[1] == os.environ["C_T"]]
    rng.shuffle(js)
    fmap(chk, job, js, 60 if quick else 200)
    chk.add("functions_encoded", ["c2po.transform.to_bnf", "to_nnf", "multi_operators_to_binary", "flatten_multi_operators", "remove_extended_operators", "sort_operands_by_pd", "remove_release_operators", "c2po.cpt.unroll_temporal_operators", "c2po.cpt.decompose_intervals", "c2po.cse.optimize_cse", "c2po.rewrite.optimize_rewrites"])
    chk.assume += [f"interval bounds 0..{B} (decomposition of one operator: 0..{24 if quick else 40}; several: 0..3 to 9), nesting of up to three temporal operators", "unrolling: without Release, for which the function raises NotImplementedError by design", "base form: over future-time formulas (its operators are negation, conjunction, until)"]
    chk.finish()
