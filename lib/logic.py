"""MLTL/ptMLTL formulas as tuples, and their documented semantics three times: as z3 terms, as C text, as Python.
 ('v',k) ('t',) ('f',) ('!',a) ('&',a,b,..) ('|',a,b,..) ('^',a,b) ('->',a,b) ('<->',a,b)
 ('F',lb,ub,a) ('G',..) ('U',lb,ub,a,b) ('R',..) ('O',lb,ub,a) ('H',..) ('S',lb,ub,a,b) ('T',..)"""
import itertools, random

UN, BIN = ("F", "G", "O", "H"), ("U", "R", "S", "T")
FT, PT = ("F", "G", "U", "R"), ("O", "H", "S", "T")
def kids(f):
    o = f[0]
    if o in ("v", "t", "f"):
        return ()
    if o in UN + BIN:
        return f[3:]
    return f[1:]
def horizon(f):
    h = max([horizon(k) for k in kids(f)] + [0])
    return h + (f[2] if f[0] in FT else 0)
def past(f):
    h = max([past(k) for k in kids(f)] + [0])
    return h + (f[2] if f[0] in PT else 0)
def is_pt(f):
    return f[0] in PT or any(is_pt(k) for k in kids(f))
def is_ft(f):
    return f[0] in FT or any(is_ft(k) for k in kids(f))
def nvars(f):
    return f[1] + 1 if f[0] == "v" else max([nvars(k) for k in kids(f)] + [0])
def text(f, names=None):
    o = f[0]
    if o == "v":
        return names[f[1]] if names else f"a{f[1]}"
    if o == "t":
        return "true"
    if o == "f":
        return "false"
    t = lambda k: text(k, names) if k[0] in "vtf" else "(" + text(k, names) + ")"
    if o == "!":
        return "!" + t(f[1])
    if o in UN:
        return f"{o}[{f[1]},{f[2]}] {t(f[3])}"
    if o in BIN:
        return f"{t(f[3])} {o}[{f[1]},{f[2]}] {t(f[4])}"
    op = {"&": "&&", "|": "||", "^": "xor", "->": "->", "<->": "<->"}[o]
    return f" {op} ".join(t(k) for k in f[1:])
def subst(f, m):
    if f[0] == "v":
        return m.get(f[1], f)
    ks = tuple(subst(k, m) for k in kids(f))
    return f[:3] + ks if f[0] in UN + BIN else f[:1] + ks

class Sem:
    """value of a formula at time t; var(k,t) gives atoms; ops: an object with T,F,not_,and_,or_,iff"""
    def __init__(self, var, ops):
        self.var, self.o, self.memo = var, ops, {}
    def at(self, f, t):
        key = (f, t)
        if key in self.memo:
            return self.memo[key]
        r = self._at(f, t)
        self.memo[key] = r
        return r
    def _at(self, f, t):
        o = f[0]
        O = self.o
        if o == "v":
            return self.var(f[1], t)
        if o == "t":
            return O.T
        if o == "f":
            return O.F
        if o == "!":
            return O.not_(self.at(f[1], t))
        if o == "&":
            return O.and_([self.at(k, t) for k in f[1:]])
        if o == "|":
            return O.or_([self.at(k, t) for k in f[1:]])
        if o == "^":
            return O.not_(O.iff(self.at(f[1], t), self.at(f[2], t)))
        if o == "<->":
            return O.iff(self.at(f[1], t), self.at(f[2], t))
        if o == "->":
            return O.or_([O.not_(self.at(f[1], t)), self.at(f[2], t)])
        lb, ub = f[1], f[2]
        if o in FT:
            js = list(range(t + lb, t + ub + 1))
        else:
            js = [j for j in range(t - lb, t - ub - 1, -1) if j >= 0]  # nearest first
        if o in ("F", "O"):
            return O.or_([self.at(f[3], j) for j in js]) if js else O.F
        if o in ("G", "H"):
            return O.and_([self.at(f[3], j) for j in js]) if js else O.T
        # until/since: some xi at j, psi at every position between the near end and j (excluded), inside the window
        # release/trigger: dual
        if o in ("U", "S"):
            r = O.F
            for j in reversed(js):
                r = O.or_([self.at(f[4], j), O.and_([self.at(f[3], j), r])])
            return r
        r = O.T
        for j in reversed(js):
            r = O.and_([self.at(f[4], j), O.or_([self.at(f[3], j), r])])
        return r
# note on since/trigger: the near end of the window is t-lb, so "k>j inside the window" means k in (j, t-lb]
class PyOps:
    T, F = True, False
    not_ = staticmethod(lambda a: not a)
    and_ = staticmethod(all)
    or_ = staticmethod(any)
    iff = staticmethod(lambda a, b: a == b)
def z3ops(z3):
    class Z:
        T, F = z3.BoolVal(True), z3.BoolVal(False)
        not_ = staticmethod(z3.Not)
        and_ = staticmethod(lambda l: z3.And(*l) if len(l) != 1 else l[0])
        or_ = staticmethod(lambda l: z3.Or(*l) if len(l) != 1 else l[0])
        iff = staticmethod(lambda a, b: a == b)
    return Z

def c_oracle(fs, T, arr="in"):
    """C statements computing _Bool rK[T] for each formula of fs, from in[t][k]; values are right while t+horizon < T."""
    memo, decl, body = {}, [], []
    def go(f):
        if f in memo:
            return memo[f]
        ks = [go(k) for k in kids(f)]
        n = f"n{len(memo)}"
        memo[f] = n
        decl.append(f"static _Bool {n}[{T}];")
        o = f[0]
        L = f"for (int t = 0; t < {T}; t++) "
        if o == "v":
            s = L + f"{n}[t] = {arr}[t][{f[1]}];"
        elif o in "tf":
            s = L + f"{n}[t] = {1 if o == 't' else 0};"
        elif o == "!":
            s = L + f"{n}[t] = !{ks[0]}[t];"
        elif o in ("&", "|"):
            s = L + f"{n}[t] = " + f" {o} ".join(f"{k}[t]" for k in ks) + ";"
        elif o == "^":
            s = L + f"{n}[t] = {ks[0]}[t] != {ks[1]}[t];"
        elif o == "<->":
            s = L + f"{n}[t] = {ks[0]}[t] == {ks[1]}[t];"
        elif o == "->":
            s = L + f"{n}[t] = !{ks[0]}[t] | {ks[1]}[t];"
        else:
            lb, ub = f[1], f[2]
            init = "1" if o in ("G", "H", "R", "T") else "0"
            if o in FT:
                rng = f"for (int j = t + {ub}; j >= t + {lb}; j--) if (j < {T}) "
            else:
                rng = f"for (int j = t - {ub}; j <= t - {lb}; j++) if (j >= 0) "
            if o in ("F", "O"):
                st = f"r = r | {ks[0]}[j];"
            elif o in ("G", "H"):
                st = f"r = r & {ks[0]}[j];"
            elif o in ("U", "S"):
                st = f"r = {ks[1]}[j] | ({ks[0]}[j] & r);"
            else:
                st = f"r = {ks[1]}[j] & ({ks[0]}[j] | r);"
            s = L + f"{{ _Bool r = {init}; {rng}{{ {st} }} {n}[t] = r; }}"
        body.append(s)
        return n
    roots = [go(f) for f in fs]
    return "\n".join(decl), "\n".join("  " + b for b in body), roots

def V(k):
    return ("v", k)
def F(l, u, a): return ("F", l, u, a)
def G(l, u, a): return ("G", l, u, a)
def U(l, u, a, b): return ("U", l, u, a, b)
def R(l, u, a, b): return ("R", l, u, a, b)
def O(l, u, a): return ("O", l, u, a)
def H(l, u, a): return ("H", l, u, a)
def S(l, u, a, b): return ("S", l, u, a, b)
def T(l, u, a, b): return ("T", l, u, a, b)
def N(a): return ("!", a)
def A(*a): return ("&",) + a
def D(*a): return ("|",) + a
def X(a, b): return ("^", a, b)
def I(a, b): return ("->", a, b)
def E(a, b): return ("<->", a, b)
TT, FF = ("t",), ("f",)

def rand_formula(rng, depth, nv, ops, maxb, const=True):
    """one formula from a seeded generator (the formulas are enumerated; their traces are symbolic)"""
    if depth == 0 or rng.random() < 0.12:
        if const and rng.random() < 0.06:
            return rng.choice([TT, FF])
        return V(rng.randrange(nv))
    o = rng.choice(ops)
    sub = lambda: rand_formula(rng, depth - 1, nv, ops, maxb, const)
    if o == "!":
        return N(sub())
    if o in ("&", "|"):
        return (o,) + tuple(sub() for _ in range(rng.choice([2, 2, 2, 3])))
    if o in ("^", "->", "<->"):
        return (o, sub(), sub())
    lb = rng.randrange(0, maxb)
    ub = rng.randrange(lb, maxb + 1)
    if o in UN:
        return (o, lb, ub, sub())
    return (o, lb, ub, sub(), sub())
FTOPS = ["!", "&", "|", "^", "->", "<->", "F", "G", "U", "R", "U", "R", "F", "G"]
PTOPS = ["!", "&", "|", "^", "->", "<->", "O", "H", "S", "T", "S", "T", "O", "H"]
def family(seed, n, depth, nv, ops, maxb, maxh, seen=None):
    rng = random.Random(seed)
    out, seen = [], set() if seen is None else seen
    tries = 0
    while len(out) < n and tries < n * 200:
        tries += 1
        f = rand_formula(rng, depth, nv, ops, maxb)
        if f in seen or f[0] in "vtf" or horizon(f) > maxh or past(f) > maxh:
            continue
        seen.add(f)
        out.append(f)
    return out
def walk(f):
    yield f
    for k in kids(f):
        yield from walk(k)
