import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pyeq import *
chk = Check("C11", "other")
chk.cov["explanation"] = ("The compiler's real optimize_rewrites command runs symbolically (pysym) on syntax trees whose interval bounds are symbolic integers; every feasible path is covered, and for each z3 decides, "
    "for all bounds satisfying the path condition and all traces, that every interval of the result is well-formed and that the result has the original's value. Counterexamples are replayed with the concrete bounds through the command line.")
quick = TIER != "thorough"
rng = random.Random(SEED * 23 + 11)
B = 5 if quick else 7
def shapes():
    """formula shapes: bounds are numbered holes; equal numbers share a bound"""
    c = [0]
    p, q, r = V(0), V(1), V(2)
    def u(o, x, i=None): 
        if i is None: i = c[0]; c[0] += 1
        return (o, ("lb", i), ("ub", i), x)
    def b(o, x, y, i=None):
        if i is None: i = c[0]; c[0] += 1
        return (o, ("lb", i), ("ub", i), x, y)
    out = []
    def add(f): out.append(f); c[0] = 0
    ts = ["F", "G"]; pts = ["O", "H"]
    for o in ts + pts:
        for x in (p, TT, FF, N(p)): add(u(o, x)); add(N(u(o, x))); add(N(N(u(o, x)))); add(N(u(o, N(u(o, N(x))))))
        for o2 in (ts if o in ts else pts):
            add(u(o, u(o2, p))); add(N(u(o, N(u(o2, p))))); add(u(o, N(u(o2, N(p)))))
            for o3 in (ts if o in ts else pts): add(u(o, u(o2, u(o3, p))))
            for x in (TT, FF): add(u(o, u(o2, x)))
            for cn in "&|":
                for y in (p, q, N(p)):
                    add((cn, u(o, p), u(o2, y)))
                add((cn, u(o, u(o2, p, 9), 0), u(o, u(o2, p, 9), 1))); add((cn, u(o, p, 0), u(o2, p, 0))); add((cn, u(o, p, 0), u(o2, q, 0)))
                add((cn, u(o, A(p, q)), u(o2, A(p, q)))); add((cn, u(o, A(p, q)), u(o2, A(q, p)))); add((cn, u(o, p), u(o2, p), u(o, p))); add((cn, u(o, p), u(o, q), u(o, r)))
                add(u(o, (cn, u(o2, p), u(o2, q)))); add((cn, N(u(o, p)), u(o2, p))); add((cn, N(u(o, N(p))), u(o2, p)))
    for o in ("U", "R"):
        add(b(o, p, q)); add(N(b(o, p, q))); add(N(b(o, N(p), N(q))))
        for o2 in ("U", "R"):
            for cn in "&|":
                for i2 in (0, 1):
                    add((cn, b(o, p, q, 0), b(o2, r, q, i2))); add((cn, b(o, p, q, 0), b(o2, p, r, i2))); add((cn, b(o, p, q, 0), b(o2, q, p, i2))); add((cn, b(o, p, q, 0), b(o2, p, q, i2)))
                # same lower bound, different upper bounds
                add((cn, (o, ("lb", 0), ("ub", 0), p, q), (o2, ("lb", 0), ("ub", 1), r, q)))
            add(b(o, b(o2, p, q), r)); add(b(o, p, b(o2, q, r)))
        for o2 in ts:
            add(u(o2, b(o, p, q))); add(b(o, u(o2, p), q)); add(b(o, p, u(o2, q))); add(A(u(o2, p), b(o, p, q))); add(D(u(o2, p), b(o, p, q)))
            add(u(o2, b(o, TT, q))); add(b(o, FF, u(o2, q)))
    for o in ("S", "T"):
        for o2 in ("S", "T"):
            for cn in "&|":
                add((cn, b(o, p, q, 0), b(o2, r, q, 0))); add((cn, b(o, p, q), b(o2, r, q))); add((cn, (o, ("lb", 0), ("ub", 0), p, q), (o2, ("lb", 0), ("ub", 1), r, q)))
    for x in (TT, FF):
        for cn in ("&", "|", "->", "<->"): add((cn, p, x)); add((cn, x, p)); add((cn, u("F", x), p)); add(N((cn, x, p)))
        add(N(x)); add(N(N(x)))
    add(N(N(p))); add(N(N(N(p)))); add(E(u("F", p), u("G", N(N(q))))); add(X(u("F", p), N(u("G", N(p))))); add(I(u("G", p), u("F", u("F", p))))
    return out
def rshape(rg, depth, kind, nb):
    if depth == 0 or rg.random() < .1: return rg.choice([V(0), V(0), V(1), V(2), V(0), TT, FF] if rg.random() < .3 else [V(0), V(1)])
    s = lambda: rshape(rg, depth - 1, kind, nb)
    o = rg.choice(["!", "&", "|", "&", "|", "->", "<->", "^"] + (["F", "G"] * 3 + ["U", "R"] if kind == "f" else ["O", "H"] * 3 + ["S", "T"]))
    if o == "!": return N(s())
    if o in ("&", "|"):
        a = s(); return (o, a, s() if rg.random() < .6 else a if rg.random() < .2 else s())
    if o in ("->", "<->", "^"): return (o, s(), s())
    i = rg.randrange(nb)
    return (o, ("lb", i), ("ub", i)) + ((s(),) if o in UN else (s(), s()))
if __name__ == "__main__":
    js = shapes()
    n = 250 if quick else 2500
    for k in range(n):
        js.append(rshape(rng, rng.choice([2, 3, 3]), rng.choice("ffp"), rng.choice([1, 2, 2, 3])))
    seen, out = set(), []
    for f in js:
        if show(f) not in seen and depth(f) <= 3: seen.add(show(f)); out.append(f)
    if os.environ.get("C_N"): out = out[:int(os.environ["C_N"])]
    fmap(chk, lambda f: equiv_job(f, ["optimize_rewrites"], B), out, 60 if quick else 200)
    chk.add("functions_encoded", ["c2po.rewrite.optimize_rewrites", "c2po.type_check", "c2po.desugar", "c2po.cpt.Expression.replace", "c2po.cpt.TemporalOperator constructors"])
    chk.assume += [f"interval bounds 0..{B} (0..3 for more than two intervals), nesting of up to three temporal operators; traces as long as the formulas' windows reach", "two bounds print alike only if they are the same variable (shapes with shared bounds are enumerated separately)"]
    chk.finish()
