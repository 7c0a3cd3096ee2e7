"""Specifications over typed data expressions shared by the checks of the Booleanizer"""
from mcfam import *
from bz import *
quick = TIER != "thorough"
rng = random.Random(SEED * 31 + 6)
i, j, k = [("iv", n) for n in range(3)]
x, y, z = [("xv", n) for n in range(3)]
p, q, r = [("pv", n) for n in range(3)]
IC = lambda: ("ic", rng.choice([0, 1, -1, 2, 3, -3, 5, 7, 8, -16, 100, 65535, 65536, -65536, 16777216, 2147483647, -2147483647, -2147483648, 305419896]))
NZ = lambda: ("ic", rng.choice([1, -1, 2, 3, -3, 5, 7, 10, -16, 100, 4096]))
FC = lambda: ("fc", rng.choice([0.0, 1.0, -1.0, 0.5, 0.1, 2.7, -3.3, 1000000.1, 0.00002, 0.000003, 123456.789, -0.75]))
BC = lambda: ("bc", rng.random() < .5)
INV = lambda: rng.choice([i, j, k]); FLV = lambda: rng.choice([x, y, z]); BOV = lambda: rng.choice([p, q, r])
def ie(d, pv=True):
    if d == 0: return rng.choice([INV, INV, INV, IC])()
    o = rng.choice(["+", "-", "*", "/", "%", "&", "|", "^", "~", "neg", "abs", "prev", "+", "-", "tau", "var"])
    if o == "var": return INV()
    if o == "tau": return ("tau",)
    if o in ("/", "%"): return (o, ie(d - 1, pv), NZ())
    if o in ("~", "neg", "abs"): return (o, ie(d - 1, pv))
    if o == "prev": return ("prev", IC(), ie(d - 1, False)) if pv else INV()
    return (o, ie(d - 1, pv), ie(d - 1, pv))
def fe(d, pv=True):
    if d == 0: return rng.choice([FLV, FLV, FLV, FC])()
    o = rng.choice(["+", "-", "*", "neg", "abs", "prev", "+", "-", "var", "sqrt"] + (["/"] if not quick else []))
    if o == "var": return FLV()
    if o in ("neg", "abs", "sqrt"): return (o, fe(d - 1, pv))
    if o == "/": return (o, fe(d - 1, pv), ("fc", rng.choice([2.0, -0.5, 3.0])))
    if o == "prev": return ("prev", FC(), fe(d - 1, False)) if pv else FLV()
    return (o, fe(d - 1, pv), fe(d - 1, pv))
def be(d, pv=True):
    o = rng.choice(["ir", "ir", "ir", "fr", "br", "prev", "sum", "var"])
    if o == "var" or d == 0: return BOV()
    if o == "ir": return (rng.choice(REL), ie(d - 1, pv), ie(max(0, d - 2), pv))
    if o == "fr": return (rng.choice(REL), fe(min(d - 1, 2), pv), fe(0, pv))
    if o == "br": return (rng.choice(("==", "!=")), be(d - 1, pv), be(max(0, d - 2), pv))
    if o == "prev": return ("prev", BC(), be(d - 1, False)) if pv else BOV()
    n = rng.randrange(2, 5)
    return ("sum", rng.choice(["forexactly", "foratleast", "foratmost"]), rng.randrange(0, n + 1), [rng.choice([BOV, BOV, lambda: be(1, pv)])() for _ in range(n)])
jobs = []
def job(fs, es, small=None, N=3, opts=()):
    jobs.append((fs, es, small, N, opts))
# every operator over the operand shapes that can be told apart
ints = []
for o in ("+", "-", "*", "&", "|", "^"):
    ints += [(o, i, j), (o, i, ("ic", 5)), (o, ("ic", -7), j), (o, i, i), (o, ("prev", ("ic", 3), i), j), (o, i, ("prev", ("ic", -4), i))]
for o in ("/", "%"):
    ints += [(o, i, ("ic", c)) for c in (1, -1, 2, -3, 7, 1000)] + [(o, ("prev", ("ic", 9), j), ("ic", 4))]
for o in ("neg", "~", "abs"):
    ints += [(o, i), (o, ("+", i, j)), (o, ("prev", ("ic", -9), i)), ("prev", ("ic", 6), (o, i))]
ints += [("tau",), ("+", ("tau",), i), ("prev", ("ic", -1), ("tau",)), ("prev", ("ic", 2147483647), ("+", i, j)), ("-", i, ("prev", ("ic", 0), i))]
for e in ints:
    job([V(0)], [("==", e, k)]); job([V(0)], [(rng.choice(REL), e, IC())])
flo = []
for o in ("+", "-", "*") + (("/",) if not quick else ()):
    flo += [(o, x, y), (o, x, ("fc", 0.1)), (o, ("fc", 1000000.1), y)] if o != "/" else [(o, x, ("fc", 0.3)), (o, x, ("fc", -4.0))]
for o in ("neg", "abs", "sqrt"):
    flo += [(o, x), (o, ("+", x, y)), ("prev", ("fc", 2.5), (o, x))]
flo += [("prev", ("fc", -0.1), x), ("-", x, ("prev", ("fc", 0.0), x))]
if quick:
    flo += [("/", x, ("fc", 4.0))]
for e in flo:
    job([V(0)], [(rng.choice(REL), e, z)]); job([V(0)], [(rng.choice((">", "<")), e, FC())], N=2)
for o in REL:
    job([V(0)], [(o, i, j)]); job([V(0)], [(o, i, i)]); job([V(0)], [(o, x, y)]); job([V(0)], [(o, x, ("fc", 0.1))]); job([V(0)], [(o, ("fc", -2.5), x)]); job([V(0)], [(o, IC(), j)])
    job([F(0, 2, V(0))], [(o, i, j)]); job([H(0, 2, V(0))], [(o, x, y)], N=2); job([S(0, 2, V(0), V(1))], [(o, i, j), p], N=4)
for o in ("==", "!="):
    for a, b in ((p, q), (p, p), (p, ("bc", True)), (("bc", False), q), (p, ("bc", False)), (("prev", ("bc", True), p), q), ((">", i, j), p), ((">", i, ("ic", 0)), ("<", j, ("ic", 0))), (("==", p, q), r), (("!=", p, q), ("==", q, r))):
        job([V(0)], [(o, a, b)])
for v in (True, False):
    for e in (p, (">", i, j), ("==", p, q), ("<=", x, y)):
        job([V(0)], [("prev", ("bc", v), e)]); job([U(0, 2, V(0), V(1))], [("prev", ("bc", v), e), q], N=4)
for kd in ("forexactly", "foratleast", "foratmost"):
    for n in (2, 3, 4):
        for m in range(0, n + 1):
            job([V(0)], [("sum", kd, m, [("pv", t) for t in range(n)])])
    job([V(0)], [("sum", kd, 1, [(">", i, j), p, ("<", x, y)])]); job([V(0)], [("sum", kd, 2, [p, p, q])])
for n in range(0, 5):
    for e in (i, ("neg", i), ("+", i, j)):
        job([V(0)], [("==", ("pow", e, ("ic", n)), k)], small=(-3, 3), N=2)
# several atoms under Boolean and temporal operators; sharing of data expressions between formulas
n = 110 if quick else 1500
for t in range(n):
    es = [be(rng.choice([1, 2, 2, 3])) for _ in range(rng.randrange(1, 4))]
    fk = rng.choice("fp")
    fam = family(rng.randrange(1 << 30), rng.randrange(1, 4), 2, len(es), FTOPS if fk == "f" else PTOPS, 2, 3)
    fam = [f for f in fam if not any(g[0] in "tf" for g in walk(f))] + [V(0)]
    heavy = any(s in repr(es) for s in ("'xv'",))
    job(fam, es, N=2 if heavy else 4 if quick else 6, opts=rng.choice([(), ("--no-cse",), ("--no-rewrite",), ("--no-cse", "--no-rewrite")]))
# data expressions shared by future-time and past-time formulas through definitions
for t in range(24 if quick else 200):
    es = [be(rng.choice([1, 2]), False) if rng.random() < .8 else be(2) for _ in range(rng.randrange(1, 4))]
    v = lambda: V(rng.randrange(len(es)))
    ff = [rng.choice([lambda: v(), lambda: F(0, 2, v()), lambda: U(0, 1, v(), v()), lambda: A(v(), v())])() for _ in range(rng.randrange(1, 3))]
    pf = [rng.choice([lambda: v(), lambda: O(0, 2, v()), lambda: S(0, 1, v(), v()), lambda: N(v())])() for _ in range(rng.randrange(1, 3))]
    ks = "f" * len(ff) + "p" * len(pf)
    if rng.random() < .4:
        ff, pf, ks = pf, ff, "p" * len(pf) + "f" * len(ff)
    jobs.append((ff + pf, es, None, 2 if "'xv'" in repr(es) else 4, rng.choice([(), ("--no-cse",), ("--no-rewrite",)]), ks))
