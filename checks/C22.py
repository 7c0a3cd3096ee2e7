import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pyeq import *
import pysym, builtins, itertools
from comp import c2po as run_c2po
from c2po import type_check as tcm
chk = Check("C22", "other")
chk.cov["explanation"] = ("Specifications with symbolic parts are given to the real parser, type checker and the rest of the compiler, executed on symbolic values: which operand stands at each place, which name each declaration takes, "
    "which section a formula is in, and every number (interval bounds, array indices and slices, array sizes, divisors, exponents, constants, counts). The documented rules are written as a formula over the same variables and the solver decides, "
    "on every path of the compiler, that it accepts exactly when the rules hold; a path that ends in an exception is a violation. Each path is replayed on concrete text through the whole command.")
quick = TIER != "thorough"
rng = random.Random(SEED * 107 + 22)
# symbolic integers are integers to the code under test
def isinst(o, t):
    if isinstance(o, SymI): return t is int or (isinstance(t, tuple) and int in t) or builtins.isinstance(o, t)
    return builtins.isinstance(o, t)
import c2po.desugar as dsm, c2po.cpt as cptm
for m in (tcm, dsm, cptm): m.isinstance = isinst
MARK = 900001
def subst(con, env):
    """numerals 900001.. in the parsed program become symbolic"""
    seen = {}
    def go(e):
        if id(e) in seen: return
        seen[id(e)] = e
        for a in ("index", "start", "stop", "value"):
            v = getattr(e, a, None)
            if type(v) is int and v in env: setattr(e, a, env[v])
            if type(v) is int and -v in env: setattr(e, a, -env[-v])
        iv = getattr(e, "interval", None)
        if iv is not None:
            if iv.lb in env or iv.ub in env: e.interval = cpt.ConcreteInterval(env.get(iv.lb, iv.lb), env.get(iv.ub, iv.ub))
        for a in ("type", "member_type"): ty(getattr(e, a, None))
        for c in list(getattr(e, "children", [])): go(c)
        for a in ("expr", "bound_var"):
            if builtins.isinstance(getattr(e, a, None), cpt.Node): go(getattr(e, a))
    def ty(t):
        if t is None or id(t) in seen: return
        seen[id(t)] = t
        if type(getattr(t, "size", None)) is int and t.size in env: t.size = env[t.size]
        ty(getattr(t, "member_type", None))
    for sec in con.program.sections:
        for d in getattr(sec, "signal_decls", []): ty(d.type)
        for d in getattr(sec, "struct_defs", []):
            for t in d.members.values(): ty(t)
            for v in d.var_decls: ty(v.type)
        for d in getattr(sec, "defines", []): go(d.expr)
        for s in getattr(sec, "specs", []): go(s)
LATE = ["optimize_rewrites", "optimize_cse", "remove_extended_operators", "multi_operators_to_binary", "compute_atomics", "compute_scq_sizes"]
def accept(text, mp, env, bz, upto):
    """does the compiler take it; exceptions of the compiler's own are raised"""
    con = Con()
    if bz: con("enable_booleanizer")
    steps = [f"parse_c2po {tmp('s.c2po', text)}", None, f"parse_map {tmp('s.map', mp)}", "type_check", "desugar"]
    if upto > 1: steps += LATE + [f"assemble {tmp('o.bin', '')}"]
    for s in steps:
        if s is None:
            if env: subst(con, env)
            continue
        if not con(s):
            if "unexpected error" in con.out: raise RuntimeError(con.out[-1500:])
            if "rror" not in con.out: raise RuntimeError(f"{s} fails without an error message: {con.out[-300:]}")
            return False, con.out
    return True, ""
def job(j):
    """j: dict(name, make(picks) -> text, picks [(name, choices)], nums [(name, lo, hi)], rule(P, N) -> z3 formula, skip(P, N) -> z3 formula, bz, map)"""
    P = {n: z3.Int("pick_" + n) for n, c in j["picks"]}
    N = {n: z3.Int("num_" + n) for n, lo, hi in j["nums"]}
    assume = [z3.And(0 <= P[n], P[n] < len(c)) for n, c in j["picks"]] + [z3.And(lo <= N[n], N[n] <= hi) for n, lo, hi in j["nums"]]
    rule = j["rule"](P, N)
    if j.get("skip"): assume.append(z3.Not(j["skip"](P, N)))
    ch = dict(j["picks"])
    chosen = {}
    env = {MARK + k: SymI(N[n]) for k, (n, lo, hi) in enumerate(j["nums"])}
    nums = {n: str(MARK + k) for k, (n, lo, hi) in enumerate(j["nums"])}
    def run():
        pick = {n: ch[n][SymI(P[n]).__index__()] for n in P}
        return accept(j["make"](pick, nums), j["map"], env, j["bz"], 1 if N else 2)
    cnt = {"programs": 1}
    viol = []
    def text_of(m):
        pick = {n: ch[n][m.eval(P[n], model_completion=True).as_long()] for n in P}
        return j["make"](pick, {n: str(m.eval(N[n], model_completion=True).as_long()) for n in N})
    def bad(m, why, want):
        t = text_of(m)
        key = f"{j['name']}: " + " ".join(t.split())
        x = run_c2po({"s.c2po": t, "s.map": j["map"]}, (["-bz"] if j["bz"] else []) + ["--map", "s.map", "--output", "o.bin", "--spec", "s.c2po"])
        got = x.rc == 0 and (x.dir / "o.bin").exists()
        crash = "Traceback" in x.err + x.out
        if want is None: want = z3.is_true(m.eval(rule, model_completion=True))
        if got == want and not crash:
            return None        # not confirmed on the real command
        viol.append((key, why, t + f"\nmap:\n{j['map']}\nexit status {x.rc}\n{(x.err + x.out)[-1500:]}"))
        return True
    seen = set()
    for eng, (st, res) in explore(run, assume, max_paths=20000, max_s=600):
        cnt["paths"] = cnt.get("paths", 0) + 1
        s = z3.Solver()
        s.add(*assume, *eng.pc)
        if st == "exc":
            cnt["queries"] = cnt.get("queries", 0) + 1
            if s.check() == z3.sat:
                m = s.model()
                if os.environ.get("C_DEBUG"): print("EXC", j["name"], str(res)[-150:].replace("\n", " "), flush=True)
                if not bad(m, f"the compiler fails with an exception: {str(res)[-200:]}", None): cnt["unconfirmed"] = cnt.get("unconfirmed", 0) + 1
            continue
        ok, out = res
        s.push()
        s.add(z3.Not(rule) if ok else rule)
        r = s.check()
        cnt["queries"] = cnt.get("queries", 0) + 1
        if r == z3.unknown: raise Limit("solver")
        if r == z3.sat:
            m = s.model()
            if not bad(m, "accepted although ill-formed" if ok else "rejected although well-formed: " + " ".join(out.split())[:120], not ok):
                cnt["unconfirmed"] = cnt.get("unconfirmed", 0) + 1
        s.pop()
        # one concrete member of the path through all of the compiler
        if N and s.check() == z3.sat:
            m = s.model()
            t = text_of(m)
            if all(abs(m.eval(N[n], model_completion=True).as_long()) < 2**31 for n in N):
                try: full, out2 = accept(t, j["map"], {}, j["bz"], 2)
                except RuntimeError as ex: bad(m, f"the compiler fails with an exception: {str(ex)[-200:]}", None); continue
                cnt["replayed"] = cnt.get("replayed", 0) + 1
                if full != ok: bad(m, f"{'accepted' if full else 'rejected'} in the end: " + " ".join(out2.split())[:120], ok)
        if len(viol) > 20: break
    return {"count": cnt, "viol": viol}
# ---- types ---------------------------------------------------------------------------------------
B_, I_, F_, AI3, AI2, AB3, AF2, E1_, M1_, ST_, CO_, UN_, AI1 = range(1, 14)
LEAF = {"p": B_, "q": B_, "true": B_, "lab": B_, "i": I_, "TAU": I_, "3": I_, "0": I_, "-2": I_, "x": F_, "1.5": F_, "0.0": F_, "A": AI3, "A[0..1]": AI2, "A[1..1]": AI1, "{i, j}": AI2, "P": AB3, "X": AF2, "e": E1_, "EA": M1_, "st": ST_, "con": CO_,
        "nowhere": UN_, "A[1]": I_, "P[2]": B_, "st.m": B_, "st.n": I_, "(i + 1)": I_, "d": B_, "(p && q)": B_}
HDR = ("STRUCT\n  St: {m: bool; n: int;};\nENUM\n  En: {EA: 0, EB: 1};\nINPUT\n  p, q: bool;\n  i, j: int;\n  x: float;\n  A: int[3];\n  P: bool[3];\n  X: float[2];\n  e: En;\nDEFINE\n  st := St(p, i);\n  d := p || q;\n")
MAP = "".join(f"{n}: {k}\n" for k, n in enumerate(["p", "q", "i", "j", "x", "e"] + [f"A[{k}]" for k in range(3)] + [f"P[{k}]" for k in range(3)] + [f"X[{k}]" for k in range(2)]))
def ite(cases, d):
    r = z3.IntVal(d)
    for c, v in reversed(cases): r = z3.If(c, v if z3.is_expr(v) else z3.IntVal(v), r)
    return r
ARR = [AI3, AI2, AI1, AB3, AF2]
def ty_bin(op, a, b, ca=None):
    """type of a op b (0: ill-typed); ca: z3 condition that b is a constant that may be an exponent"""
    both = lambda t: z3.And(a == t, b == t)
    if op in ("&&", "||", "xor", "->", "<->") or op[0] in "URST": return ite([(both(B_), B_)], 0)
    if op in ("==", "!="):
        return ite([(z3.Or(*[both(t) for t in (B_, I_, F_, E1_, AI3, AI2, AI1, AB3, AF2)]), B_), (z3.Or(z3.And(a == E1_, b == M1_), z3.And(a == M1_, b == E1_)), B_)], 0)
    if op in ("<", ">", "<=", ">="): return ite([(z3.Or(*[both(t) for t in (I_, F_, AI3, AI2, AI1, AF2)]), B_)], 0)
    if op in ("+", "-", "*", "/"): return ite([(both(I_), I_), (both(F_), F_)], 0)
    if op == "%": return ite([(both(I_), I_)], 0)
    if op == "pow": return ite([(z3.And(both(I_), ca), I_), (both(F_), F_)], 0)
    if op in ("&", "|", "^"): return ite([(both(I_), I_), (both(B_), B_)], 0)
    raise KeyError(op)
def ty_un(op, a):
    if op == "!" or op[0] in "GFOH": return ite([(a == B_, B_)], 0)
    if op in ("-", "abs"): return ite([(a == I_, I_), (a == F_, F_)], 0)
    if op == "sqrt": return ite([(a == F_, F_)], 0)
    if op == "~": return ite([(a == I_, I_)], 0)
    raise KeyError(op)
def leafty(n, c, P): return ite([(P[n] == k, LEAF[x]) for k, x in enumerate(c)], 0)
def is_leaf(n, c, P, which): return z3.Or(*[P[n] == k for k, x in enumerate(c) if x in which] + [z3.BoolVal(False)])
UNS = ["!", "-", "abs", "sqrt", "~"]
BINS = ["&&", "||", "xor", "->", "<->", "==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/", "%", "pow", "&", "|", "^"]
def expr(r, d, tk):
    """skeleton: ("leaf", n) | ("un", op, e) | ("bin", op, a, b) | ("prev", e, e) | ("idx", leaf) | ("agg", op, leaf, body)"""
    n = itertools.count()
    def go(d):
        k = r.random()
        if d == 0: return ("leaf", f"l{next(n)}")
        if k < .25: return ("un", r.choice(UNS + (["G[0,1]", "F[1,2]"] if tk == "f" else ["O[0,1]", "H[1,2]"])), go(d - 1))
        if k < .85: return ("bin", r.choice(BINS + (["U[0,2]", "R[1,1]"] if tk == "f" else ["S[0,2]", "T[1,1]"])), go(d - 1), go(r.choice([0, d - 1])))
        if k < .95: return ("prev", ("leaf", f"l{next(n)}"), ("leaf", f"l{next(n)}"))
        return ("agg", r.choice(["foreach", "forsome", "forexactly", "foratleast", "foratmost"]), ("leaf", f"l{next(n)}"), r.choice(["k", "k > 0", "k > 0.5", "k && p", "p", "k == i"]))
    return go(d)
def leaves(e):
    if e[0] == "leaf": return [e[1]]
    return [x for c in e[1:] if isinstance(c, tuple) for x in leaves(c)]
def etext(e, pick):
    if e[0] == "leaf": return pick[e[1]]
    if e[0] == "un": return f"({e[1]}({etext(e[2], pick)}))"
    if e[0] == "bin": return f"({etext(e[2], pick)} {e[1]} {etext(e[3], pick)})"
    if e[0] == "prev": return f"prev({etext(e[1], pick)}, {etext(e[2], pick)})"
    if e[0] == "agg": return f"{e[1]}(k: {pick[e[2][1]]}{', ' + (pick[e[4][1]] if len(e) > 4 else '1') if e[1] not in ('foreach', 'forsome') else ''})({e[3]})"
def etype(e, P, ch, skip):
    if e[0] == "leaf": return leafty(e[1], ch[e[1]], P)
    if e[0] == "un":
        a = etype(e[2], P, ch, skip)
        return ty_un(e[1], a)
    if e[0] == "bin":
        a, b = etype(e[2], P, ch, skip), etype(e[3], P, ch, skip)
        ca = z3.BoolVal(False)
        op = e[1]
        if e[3][0] == "leaf":
            l, c = e[3][1], ch[e[3][1]]
            ca = is_leaf(l, c, P, ("3", "0", "TAU"))
            if op in ("/", "%"): a = z3.If(is_leaf(l, c, P, ("0", "0.0")), z3.IntVal(0), a)
        elif op == "pow": skip.append(z3.And(a == I_, b == I_))           # exponents that fold to constants
        if op in ("/", "%") and e[3][0] != "leaf": skip.append(z3.BoolVal(False))
        if op in ("<", ">", "<=", ">=", "+", "-", "*", "/", "%", "&", "|", "^", "pow"): skip.append(z3.Or(a == E1_, b == E1_, a == M1_, b == M1_))     # enums beyond equality: not documented
        if op in ("==", "!="): skip.append(z3.And(a == ST_, b == ST_))
        if op in ("&", "|", "^"): skip.append(z3.And(a == B_, b == B_))   # documented for integers; the tests also use Booleans
        return ty_bin(op, a, b, ca)
    if e[0] == "prev":
        i, x = (etype(k, P, ch, skip) for k in e[1:])
        l, c = e[1][1], ch[e[1][1]]
        con_ = is_leaf(l, c, P, ("3", "0", "-2", "1.5", "0.0", "true"))
        skip += [is_leaf(l, c, P, ("-2", "TAU", "d", "st.m", "st.n", "(i + 1)", "(p && q)", "A[1]", "P[2]", "lab")), z3.And(i == M1_, x != E1_), z3.And(i != M1_, x == M1_), i == E1_,
                 z3.Or(*[x == t for t in ARR + [ST_, CO_]]), is_leaf(e[2][1], ch[e[2][1]], P, ("lab", "d", "(p && q)"))]
        return ite([(z3.And(con_, i == x, z3.Or(i == B_, i == I_, i == F_)), i), (z3.And(i == M1_, x == E1_), E1_)], 0)
    if e[0] == "agg":
        s = etype(e[2], P, ch, skip)
        el = ite([(z3.Or(s == AI3, s == AI2, s == AI1), I_), (s == AB3, B_), (s == AF2, F_)], 0)
        if e[1] not in ("foreach", "forsome") and e[3] == "k && p": skip.append(z3.BoolVal(True))    # a recorded finding below
        need = {"k": B_, "k > 0": I_, "k > 0.5": F_, "k && p": B_, "k == i": I_}.get(e[3])
        n = z3.IntVal(I_)
        if len(e) > 4:
            n = etype(e[4], P, ch, skip)
            skip.append(z3.Or(n == E1_, n == M1_, n == B_))      # enums and Booleans as numbers: not documented
        return ite([(z3.And(el == need if need else el != 0, n == I_), B_)], 0)
jobs = []
def add(name, e, pools, tk, wrap=None, bz=True):
    ls = leaves(e)
    ch = dict(zip(ls, pools))
    def make(pick, nums):
        return HDR + ("FTSPEC\n" if tk == "f" else "PTSPEC\n") + "  lab: p && q;\n  con: p => q;\n  " + (wrap or "{}").format(etext(e, pick)) + ";\n"
    def rule(P, N):
        t = etype(e, P, ch, [])
        want = {None: B_, "({} == 0)": I_, "({} == 0.0)": F_, "(0 == {})": I_}[wrap]
        return t == want
    def skip(P, N):
        sk = []
        t = etype(e, P, ch, sk)
        consts = z3.And(*[is_leaf(l, ch[l], P, ("true", "3", "0", "-2", "1.5", "0.0")) for l in ls])      # constant formulas: reported as not supported
        if wrap == "(0 == {})": sk.append(z3.BoolVal(False))
        return z3.Or(consts, *sk)
    jobs.append(dict(name=name, make=make, picks=list(zip(ls, pools)), nums=[], rule=rule, skip=skip, bz=bz, map=MAP))
ALL = list(LEAF)
MAIN = ["p", "true", "i", "3", "0", "x", "1.5", "0.0", "A", "A[0..1]", "A[1..1]", "{i, j}", "P", "X", "e", "EA", "st", "con", "nowhere", "lab", "TAU"]
for op in UNS + ["G[0,1]", "F[1,2]"]:
    for w in (None, "({} == 0)", "({} == 0.0)"): add(f"operator {op}", ("un", op, ("leaf", "l0")), [ALL], "f", w)
for op in BINS + ["U[0,2]", "R[1,1]"]:
    w = {"+": "({} == 0)", "-": "({} == 0.0)", "*": "({} == 0)", "/": "({} == 0)", "%": "({} == 0)", "pow": "({} == 0)", "&": "({} == 0)", "|": "({} == 0)", "^": "({} == 0)"}.get(op)
    for k in range(0, len(MAIN), 5): add(f"operator {op}", ("bin", op, ("leaf", "l0"), ("leaf", "l1")), [MAIN[k:k + 5], MAIN], "f", w)
    if op in ("/", "pow", "+", "*"): add(f"operator {op}", ("bin", op, ("leaf", "l0"), ("leaf", "l1")), [MAIN[:8], MAIN], "f", "({} == 0.0)")
for k in range(0, len(MAIN), 7):
    for w in (None, "({} == 0)", "({} == 0.0)"): add("prev", ("prev", ("leaf", "l0"), ("leaf", "l1")), [MAIN[k:k + 7], MAIN], "f", w)
for op in ["foreach", "forsome", "forexactly", "foratleast", "foratmost"]:
    for b in ["k", "k > 0", "k > 0.5", "k && p", "p", "k == i"]: add(f"{op} {b}", ("agg", op, ("leaf", "l0"), b), [MAIN], "f")
    if op not in ("foreach", "forsome"):
        for b in ("k", "k > 0"): add(f"{op} {b} count", ("agg", op, ("leaf", "l0"), b, ("leaf", "l1")), [["P", "A", "X", "p"], ALL], "f")
for k in range(60 if quick else 800):
    tk = rng.choice("ffp")
    e = expr(rng, rng.choice([2, 2, 3]), tk)
    n = len(leaves(e))
    if n > 5: continue
    good = ["p", "i", "x", "A", "3", "1.5"]
    pools = [rng.sample(MAIN, 2) + rng.sample(good, {1: 6, 2: 5, 3: 3, 4: 2, 5: 1}[n]) for _ in range(n)]
    add("nested", e, pools, tk, rng.choice([None, None, None, "({} == 0)", "({} == 0.0)"]))
# without the booleanizer: Booleans only
NB_H = "INPUT\n  p, q: bool;\n  P: bool[3];\n  Q: bool[2];\nDEFINE\n  d := p || q;\n"
NB_M = "".join(f"{n}: {k}\n" for k, n in enumerate(["p", "q"] + [f"P[{k}]" for k in range(3)] + [f"Q[{k}]" for k in range(2)]))
NBL = {"p": 1, "d": 1, "P": 3, "P[1]": 1, "Q": 2, "P[0..1]": 2, "nowhere": 9, "true": 1}
for op in ["&&", "xor", "->", "==", "!=", "<", "+", "&", "U[0,1]"]:
    c = list(NBL)
    def rule(P, N, op=op, c=c):
        a, b = (ite([(P[n] == k, NBL[x]) for k, x in enumerate(c)], 0) for n in ("l0", "l1"))
        return z3.And(a == b, a < 9) if op in ("==", "!=") else z3.And(a == 1, b == 1) if op in ("&&", "xor", "->", "U[0,1]") else z3.BoolVal(False)
    def skip(P, N, c=c): return z3.And(P["l0"] == c.index("true"), P["l1"] == c.index("true"))
    jobs.append(dict(name=f"no booleanizer {op}", make=lambda pick, nums, op=op: NB_H + f"FTSPEC\n  {pick['l0']} {op} {pick['l1']};\n", picks=[("l0", c), ("l1", c)], nums=[], rule=rule, skip=skip, bz=False, map=NB_M))
NBA = {"P": 3, "Q": 2, "P[0..1]": 2, "p": 1, "d": 1, "nowhere": 9}
OPA = ["foreach", "forsome", "forexactly", "foratleast", "foratmost"]
jobs.append(dict(name="no booleanizer aggregation", make=lambda pick, nums: NB_H + f"FTSPEC\n  p;\n  {pick['op']}(k: {pick['set']}{'' if pick['op'] in OPA[:2] else ', 1'})(k);\n", picks=[("op", OPA), ("set", list(NBA))], nums=[],
    rule=lambda P, N: z3.And(P["op"] < 2, z3.Or(*[P["set"] == k for k, x in enumerate(NBA) if NBA[x] in (2, 3)])), skip=None, bz=False, map=NB_M))
# ---- numbers -------------------------------------------------------------------------------------
BIG = 2**40
def num(name, body, nums, rule, hdr=HDR, sec="FTSPEC", mp=MAP, bz=True):
    jobs.append(dict(name=name, make=lambda pick, n, body=body, hdr=hdr, sec=sec: hdr.format(**n) if body is None else hdr + sec + "\n  " + body.format(**n) + ";\n", picks=[], nums=nums, rule=rule, skip=None, bz=bz, map=mp))
T2 = [("a", 0, 4000), ("b", 0, 4000)]
for o in ("G[{a},{b}] p", "F[{a},{b}] p", "p U[{a},{b}] q", "p R[{a},{b}] q"): num("interval", o, T2, lambda P, N: N["a"] <= N["b"])
for o in ("H[{a},{b}] p", "O[{a},{b}] p", "p S[{a},{b}] q", "p T[{a},{b}] q"): num("interval", o, T2, lambda P, N: N["a"] <= N["b"], sec="PTSPEC")
num("interval in a definition", None, T2, lambda P, N: N["a"] <= N["b"], hdr="INPUT\n  p: bool;\nDEFINE\n  d := F[{a},{b}] p;\nFTSPEC\n  G[0,1] d;\n", mp="p: 0\n")
num("nested intervals", "G[{a},{b}] (p && F[{c},{d}] q)", [(x, 0, 3000) for x in "abcd"], lambda P, N: z3.And(N["a"] <= N["b"], N["c"] <= N["d"]))
IDX = [("a", -6, 6)]
num("array index", "A[{a}] > 0", IDX, lambda P, N: z3.And(0 <= N["a"], N["a"] < 3))
num("array index in a formula", "G[0,2] (P[{a}] && p)", IDX, lambda P, N: z3.And(0 <= N["a"], N["a"] < 3))
num("literal index", "{{i, j, 4}}[{a}] > 0", IDX, lambda P, N: z3.And(0 <= N["a"], N["a"] < 3))
SL = [("a", -5, 6), ("b", -5, 6)]
sl_ok = lambda a, b, n: z3.And(0 <= a, a <= b, b < n)
num("slice in an aggregation", "foreach(k: A[{a}..{b}])(k > 0)", SL, lambda P, N: sl_ok(N["a"], N["b"], 3))
num("slice in an aggregation", "foratleast(k: P[{a}..{b}], 1)(k)", SL, lambda P, N: sl_ok(N["a"], N["b"], 3))
num("slice compared", "A[{a}..{b}] == {{i, j}}", SL, lambda P, N: z3.And(sl_ok(N["a"], N["b"], 3), N["b"] - N["a"] == 1))
num("slices compared", "A[{a}..{b}] < A[{c}..{d}]", [(x, -1, 4) for x in "abcd"], lambda P, N: z3.And(sl_ok(N["a"], N["b"], 3), sl_ok(N["c"], N["d"], 3), N["b"] - N["a"] == N["d"] - N["c"]))
num("index of a slice", "A[{a}..{b}][{c}] > 0", [("a", -1, 4), ("b", -1, 4), ("c", -1, 4)], lambda P, N: z3.And(sl_ok(N["a"], N["b"], 3), 0 <= N["c"], N["c"] <= N["b"] - N["a"]))
SH = "STRUCT\n  Sa: {{m: int[]; n: int[2]; o: bool;}};\nINPUT\n  p: bool;\n  i, j: int;\n  A: int[3];\nDEFINE\n  s := Sa({{i, j, 3}}, {{i, i}}, p);\nFTSPEC\n  "
num("index of a member array", None, IDX, lambda P, N: z3.And(0 <= N["a"], N["a"] < 3), hdr=SH + "s.m[{a}] > 0;\n")
num("index of a sized member array", None, IDX, lambda P, N: z3.And(0 <= N["a"], N["a"] < 2), hdr=SH + "s.n[{a}] > 0;\n")
num("slice of a member array", None, SL, lambda P, N: sl_ok(N["a"], N["b"], 3), hdr=SH + "forsome(k: s.m[{a}..{b}])(k > 0);\n")
num("declared member size", None, [("a", 1, 6)], lambda P, N: N["a"] == 3, hdr="STRUCT\n  Sa: {{m: int[{a}]; o: bool;}};\nINPUT\n  p: bool;\n  i, j: int;\nDEFINE\n  s := Sa({{i, j, 3}}, p);\nFTSPEC\n  s.m[1] > 0;\n")
C32 = lambda v: z3.And(v >= -2**31, v < 2**31)
CN = [("a", 0, BIG)]
num("integer constant", "i == {a}", CN, lambda P, N: C32(N["a"]))
num("integer constant", "(i + {a}) > j", CN, lambda P, N: C32(N["a"]))
num("divisor", "(i / {a}) > 0", CN, lambda P, N: z3.And(N["a"] != 0, C32(N["a"])))
num("divisor", "(i % {a}) > 0", CN, lambda P, N: z3.And(N["a"] != 0, C32(N["a"])))
num("exponent", "(i pow {a}) > 0", [("a", -30, 40)], lambda P, N: N["a"] >= 0)
num("enum value", None, CN, lambda P, N: C32(N["a"]), hdr="ENUM\n  En: {{EA: {a}, EB: 1}};\nINPUT\n  e: En;\n  p: bool;\nFTSPEC\n  e == EA && p;\n")
# ---- names ---------------------------------------------------------------------------------------
POOL = ["aa", "bb", "cc"]
def distinct(P, names): return z3.And(*[P[a] != P[b] for i_, a in enumerate(names) for b in names[:i_]])
SECS = {"st": "STRUCT\n  {st}: {{m: bool;}};\n", "en": "ENUM\n  {en}: {{{em}: 0, ZZ: 1}};\n", "in": "INPUT\n  {in}: bool;\n  p: bool;\n", "de": "DEFINE\n  {de} := p && p;\n", "la": "FTSPEC\n  {la}: !p;\n  p;\n", "co": "FTSPEC\n  {co}: p => p;\n  p;\n"}
for combo in itertools.permutations(["st", "en", "in", "de", "la", "co"], 3):
    order = list(combo)
    if not ("la" in order or "co" in order): order.append("la")
    if any(x in order for x in ("de", "la", "co")) and "in" not in order: pre = "INPUT\n  p: bool;\n"
    else:
        pre = ""
        if "in" in order and any(order.index(x) < order.index("in") for x in ("de", "la", "co") if x in order): continue
    names = [n for x in order for n in ([x, "em"] if x == "en" else [x])]
    pools = [(n, POOL + (["p"] if n == names[0] or rng.random() < .3 else [])) for n in names]
    def rule(P, N, pools=pools, names=names):
        return z3.And(distinct(P, names), *[P[n] != 3 for n, c in pools if len(c) > 3])
    jobs.append(dict(name="names", make=lambda pick, nums, order=order, pre=pre: pre + "".join(SECS[x].format(**pick) for x in order), picks=pools, nums=[], rule=rule, skip=None, bz=True, map="p: 0\naa: 1\nbb: 2\ncc: 3\n"))
MEM = ["ma", "mb", "mc"]
jobs.append(dict(name="struct members", make=lambda k, n: f"STRUCT\n  Sa: {{{k['a']}: bool; {k['b']}, {k['c']}: int;}};\nINPUT\n  p: bool;\n  i: int;\nDEFINE\n  s := Sa(p, i, i);\nFTSPEC\n  s.{k['d']};\n", picks=[(x, MEM) for x in "abc"] + [("d", MEM + ["md"])],
                 nums=[], rule=lambda P, N: z3.And(distinct(P, "abc"), P["d"] == P["a"]), skip=None, bz=True, map="p: 0\ni: 1\n"))
jobs.append(dict(name="enum members", make=lambda k, n: f"ENUM\n  En: {{{k['a']}: 0, {k['b']}: 1, {k['c']}: 2}};\nINPUT\n  e: En;\nFTSPEC\n  e == {k['d']};\n", picks=[(x, MEM) for x in "abc"] + [("d", MEM + ["md"])],
                 nums=[], rule=lambda P, N: z3.And(distinct(P, "abc"), P["d"] < 3), skip=None, bz=True, map="e: 0\n"))
USE = ["p", "q", "d", "l", "s", "En", "Ea", "Sa", "k", "c", "z"]
jobs.append(dict(name="uses", make=lambda k, n: f"STRUCT\n  Sa: {{m: bool;}};\nENUM\n  En: {{Ea: 0, Eb: 1}};\nINPUT\n  p: bool;\nDEFINE\n  d := {k['a']} && p;\n  s := Sa(p);\nFTSPEC\n  l: {k['b']} || p;\n  foreach(k: {{p}})(k && {k['c']});\n  c: p => {k['d']};\nPTSPEC\n  z: {k['e']};\n",
                 picks=[("a", USE), ("b", USE), ("c", ["p", "k", "l", "z", "d"]), ("d", ["p", "c", "k", "l"]), ("e", ["p", "q", "l", "c", "z"])], nums=[],
                 rule=lambda P, N: z3.And(P["a"] == 0, z3.Or(P["b"] == 0, P["b"] == 2), z3.Or(P["c"] == 0, P["c"] == 1, P["c"] == 2, P["c"] == 4), z3.Or(P["d"] == 0, P["d"] == 3), z3.Or(P["e"] == 0, P["e"] == 2)), skip=None, bz=True, map="p: 0\n"))
RES = ["STRUCT", "ENUM", "INPUT", "DEFINE", "FTSPEC", "PTSPEC", "foreach", "forsome", "forexactly", "foratleast", "foratmost", "pow", "sqrt", "abs", "xor", "prev", "G", "F", "H", "O", "U", "R", "S", "M", "true", "false", "Gx", "FTSPEC1", "a_1", "_b", "truex"]
for nm, t in (("input", "INPUT\n  {n}: bool;\n  p: bool;\nFTSPEC\n  p;\n"), ("definition", "INPUT\n  p: bool;\nDEFINE\n  {n} := p;\nFTSPEC\n  p;\n"), ("label", "INPUT\n  p: bool;\nFTSPEC\n  {n}: p;\n")):
    jobs.append(dict(name="reserved word as " + nm, make=lambda k, n, t=t: t.format(n=k["n"]), picks=[("n", RES)], nums=[], rule=lambda P, N: P["n"] >= RES.index("Gx"), skip=None, bz=True, map="p: 0\nGx: 1\nFTSPEC1: 2\na_1: 3\n_b: 4\ntruex: 5\n"))
SIGS = ["p", "i", "x", "s", "true", "{i, i}"]
BV = ["k", "p", "d", "s", "En", "Ea", "Sa", "l", "P", "fresh"]
jobs.append(dict(name="bound variables", make=lambda k, n: f"STRUCT\n  Sa: {{m: bool;}};\nENUM\n  En: {{Ea: 0, Eb: 1}};\nINPUT\n  p: bool;\n  P: bool[2];\nDEFINE\n  d := p && p;\n  s := Sa(p);\nFTSPEC\n  l: p;\n  foreach({k['a']}: P)(forsome({k['b']}: P)({k['c']} && p) && {k['d']});\n",
                 picks=[("a", BV), ("b", BV), ("c", ["k", "fresh", "p", "d", "l"]), ("d", ["k", "fresh", "p", "d", "l"])], nums=[],
                 rule=lambda P, N: z3.And(*[z3.Or(P[x] == 0, P[x] == len(BV) - 1) for x in "ab"], z3.Or(P["c"] > 1, *[z3.And(P["c"] == (v > 0), P[x] == v) for v in (0, len(BV) - 1) for x in "ab"]),
                                          z3.Or(P["d"] > 1, *[z3.And(P["d"] == (v > 0), P["a"] == v) for v in (0, len(BV) - 1)])), skip=None, bz=False, map="p: 0\nP[0]: 1\nP[1]: 2\n"))
jobs.append(dict(name="struct instantiation", make=lambda k, n: f"STRUCT\n  Sa: {{m: bool;}};\n  Sb: {{a: bool; b: {k['t']};}};\nINPUT\n  p: bool;\n  i: int;\n  x: float;\nDEFINE\n  s := Sa(p);\n  r := Sb({k['args']});\nFTSPEC\n  r.a;\n",
                 picks=[("t", ["bool", "int", "float", "Sa", "int[]"]), ("args", ["p", "p, p", "p, i", "i, p", "p, x", "p, s", "p, {i, i}", "p, p, p", "p, {p, p}", "p, 1", "p, 1.0", "true, true"])], nums=[],
                 rule=lambda P, N: z3.Or(*[z3.And(P["t"] == t, P["args"] == a) for t, a in ((0, 1), (0, 11), (1, 2), (1, 9), (2, 4), (2, 10), (3, 5), (4, 6))]), skip=lambda P, N: z3.And(P["args"] == 11), bz=True, map="p: 0\ni: 1\nx: 2\n"))
# ---- the two time directions ----------------------------------------------------------------------
TOP = ["{x}", "G[0,1] {x}", "{x} U[0,1] p", "O[0,1] {x}", "{x} S[0,1] p", "!{x}"]
TM = [0, 1, 1, 2, 2, 0]
def tmix(P, n): return ite([(P[n] == k, t) for k, t in enumerate(TM)], 0)
SECT = ["FTSPEC", "PTSPEC"]
for use in ("p", "d", "l"):
    def make(k, n, use=use):
        return ("INPUT\n  p: bool;\n" + "DEFINE\n  d := " + TOP[TOP.index(k["a"])].format(x="p") + ";\n" + k["s"] + "\n  l: " + k["b"].format(x="p" if use != "d" else "d") + ";\n" + k["u"] + "\n  " + k["c"].format(x=use) + ";\n")
    def rule(P, N, use=use):
        a, b, c = (tmix(P, n) for n in "abc")
        s, u = P["s"] + 1, P["u"] + 1
        ok = lambda t, sec: z3.Or(t == 0, t == sec)
        r = [ok(b, s), ok(c, u)]
        if use == "d": r += [ok(a, s), ok(a, u)]
        if use == "l": r += [ok(b, u)]
        return z3.And(*r)
    jobs.append(dict(name=f"time directions through {use}", make=make, picks=[("a", TOP), ("b", TOP), ("c", TOP), ("s", SECT), ("u", SECT)], nums=[], rule=rule, skip=None, bz=False, map="p: 0\n"))
lim = os.environ.get("C_ONLY")
if lim: jobs = [j for j in jobs if lim in j["name"]]
fmap(chk, lambda k: job(jobs[k]), range(len(jobs)), limit=240 if quick else 900)
# ---- documented, but not taken by the compiler: recorded findings --------------------------------
DOC = [("documented but rejected: shifts", "(i << 2) > 0"), ("documented but rejected: float remainder", "(x % 2.0) > 0.0"), ("documented but rejected: counting a logical expression", "foratleast(k: P, 1)(k && p)")]
if not lim:
    for key, e in DOC:
        x = run_c2po({"s.c2po": HDR + f"FTSPEC\n  {e};\n", "s.map": MAP}, ["-bz", "--map", "s.map", "--output", "o.bin", "--spec", "s.c2po"])
        if x.rc != 0: chk.violation(key, " ".join((x.err + x.out).split())[:160], e)
chk.assume += ["enums beyond equality, structs compared, bitwise operators on Booleans, counts larger than the set, and formulas that are constant are left out: the documentation does not settle them (constant formulas are reported as not supported)",
               "non-constant divisors are well-formed (the existing tests require it; the documentation says otherwise)", "square roots of integers are ill-formed (the existing tests require it)"]
chk.cov["bounds"] = {"nesting": 3, "index": 6, "interval": 4000, "constant": BIG}
chk.finish()
