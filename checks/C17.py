import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pyeq import *
chk = Check("C17", "other")
chk.cov["explanation"] = ("The text the compiler hands to the equality-saturation engine is produced by the compiler itself, for every choice of rule families, and read back: every rewrite rule in it (both directions of two-way rules) becomes a question to the solver, "
    "with the rule's interval bounds as integer unknowns up to the limit and its metavariables as unknown functions of time (a metavariable stands for any formula, so they have a free truth value at each position): wherever the left side is well-formed and the side conditions hold, "
    "the right side must be well-formed and equal in value. The formula's own part of the text must denote the formula, and what the engine returns (a stand-in engine answers with the term it was given, or another) must be read back as that formula; both are decided over all traces.")
quick = TIER != "thorough"
rng = random.Random(SEED * 61 + 17)
CAP = 6 if quick else 12
class Odd(Exception): pass
# ---- s-expressions ---------------------------------------------------------------------------------
def sexps(t):
    toks = re.findall(r'"[^"]*"|[()]|[^\s()"]+', re.sub(r";[^\n]*", "", t))
    stack = [[]]
    for x in toks:
        if x == "(": stack.append([])
        elif x == ")":
            if len(stack) < 2: raise Odd("unbalanced text")
            y = stack.pop(); stack[-1].append(y)
        else: stack[-1].append(x)
    if len(stack) != 1: raise Odd("unbalanced text")
    return stack[0]
OPSN = {"Not": 1, "Implies": 2, "Equiv": 2, "And2": 2, "And3": 3, "And4": 4, "Or2": 2, "Or3": 3, "Or4": 4}
TEMP = {"Global": "G", "Future": "F", "Until": "U", "Release": "R"}
class Side:
    """value of one side of a rule; env: names of integers -> z3 terms, made by the left side"""
    def __init__(self, env, metas, binding): self.env, self.metas, self.binding, self.wf = env, metas, binding, []
    def num(self, e):
        if isinstance(e, str):
            if re.fullmatch(r"-?\d+", e): return z3.IntVal(int(e))
            if e not in self.env:
                if not self.binding: raise Odd(f"{e} is not bound")
                self.env[e] = z3.Int(e)
            return self.env[e]
        a = [self.num(x) for x in e[1:]]
        o = e[0]
        if o == "+": return sum(a[1:], a[0])
        if o == "-": return a[0] - a[1] if len(a) > 1 else -a[0]
        if o == "*": return a[0] * a[1]
        if o in ("min", "max"):
            r = a[0]
            for x in a[1:]: r = z3.If(r <= x, r, x) if o == "min" else z3.If(r >= x, r, x)
            return r
        raise Odd(f"integer operation {o}")
    def term(self, e):
        if isinstance(e, str):
            if e not in self.metas:
                if not self.binding: raise Odd(f"{e} is not bound")
                self.metas.append(e)
            return V(self.metas.index(e))
        o = e[0]
        if o == "Bool": return TT if e[1] == "true" else FF
        if o == "Var": raise Odd("a variable in a rule")
        if o in TEMP:
            if e[1][0] != "Interval" or len(e[1]) != 3: raise Odd(f"interval {e[1]}")
            lo, hi = self.num(e[1][1]), self.num(e[1][2])
            self.wf += [lo >= 0, lo <= hi]
            if len(e) != (4 if o in ("Until", "Release") else 3): raise Odd(f"operands of {o}")
            return (TEMP[o], SymI(lo), SymI(hi)) + tuple(self.term(x) for x in e[2:])
        if o in OPSN:
            if len(e) != OPSN[o] + 1: raise Odd(f"operands of {o}")
            ks = tuple(self.term(x) for x in e[1:])
            return ({"Not": "!", "Implies": "->", "Equiv": "<->"}.get(o) or ("&" if o.startswith("And") else "|"),) + ks
        raise Odd(f"operator {o}")
def cond(e, s):
    o = e[0]
    if o == "=":
        if isinstance(e[1], str) and not re.fullmatch(r"-?\d+", e[1]) and e[1] not in s.env:
            s.env[e[1]] = s.num(e[2]); return z3.BoolVal(True)
        if isinstance(e[2], str) and not re.fullmatch(r"-?\d+", e[2]) and e[2] not in s.env:
            s.env[e[2]] = s.num(e[1]); return z3.BoolVal(True)
        return s.num(e[1]) == s.num(e[2])
    if o in ("<", "<=", ">", ">=", "!="):
        a, b = s.num(e[1]), s.num(e[2])
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "!=": a != b}[o]
    raise Odd(f"condition {e}")
def show_s(e): return e if isinstance(e, str) else "(" + " ".join(map(show_s, e)) + ")"
def rules(forms):
    """(left, right, conditions, text)"""
    out = []
    for f in forms:
        if not isinstance(f, list) or not f: continue
        if f[0] in ("rewrite", "birewrite"):
            when = []
            for k, x in enumerate(f): when = f[k + 1] if x == ":when" else when
            out.append((f[1], f[2], when, show_s(f)))
            if f[0] == "birewrite": out.append((f[2], f[1], when, show_s(f) + " from right to left"))
        elif f[0] == "rule":
            for act in f[2]:
                if act[0] == "union":
                    binds = [x for x in f[1] if x[0] == "=" and isinstance(x[2], list) and x[2][0] in list(OPSN) + list(TEMP) + ["Bool"]]
                    conds = [x for x in f[1] if x not in binds and x[0] in ("<", "<=", ">", ">=", "!=", "=")]
                    sub = {x[1]: x[2] for x in binds}
                    def put(e): return sub.get(e, e) if isinstance(e, str) else [put(x) for x in e]
                    out.append((put(act[1]), put(act[2]), conds, show_s(f)))
    return out
def decide_rule(r):
    left, right, when, txt = r
    cnt = {"queries": 1}
    env, metas = {}, []
    try:
        L = Side(env, metas, True)
        l = L.term(left)
        cs = [cond(c, L) for c in when]
        R = Side(env, metas, False)
        g = R.term(right)
    except Odd as ex:
        return {"count": cnt, "undecided": f"rule not understood ({ex}): {txt}"[:300]}
    cap = CAP
    var = lambda k, t: z3.Bool(f"m{k}_{t}")
    S1, S2 = BSem(var, cap * 2 + 1), BSem(var, cap * 2 + 1)
    base = L.wf + cs + [z3.And(0 <= z3.Int(n), z3.Int(n) <= cap) for n in env if z3.is_const(env[n]) and env[n].decl().kind() == z3.Z3_OP_UNINTERPRETED]
    s = z3.Solver(); s.set("timeout", 120000 if quick else 600000)
    s.add(*base); vac = s.check()
    if vac == z3.unsat: cnt["rules that never apply"] = 1
    v = []
    if R.wf:
        cnt["queries"] += 1
        s.push(); s.add(z3.Not(z3.And(*R.wf)))
        c = s.check()
        if c == z3.sat: v.append((txt, "gives an ill-formed interval", f"{txt}\n{s.model()}"))
        if c == z3.unknown: return {"count": cnt, "undecided": txt[:200]}
        s.pop()
    if not v:
        s.add(*R.wf); s.add(S1.at(l, 0) != S2.at(g, 0))
        s.add(*[z3.Not(x) for x in S1.side + S2.side])
        t0 = time.time(); c = s.check(); cnt["solver_s"] = time.time() - t0
        if c == z3.unknown: return {"count": cnt, "undecided": txt[:200]}
        if c == z3.sat:
            m = s.model()
            # once more with the bounds fixed, by the other semantics
            lc, gc = concrete(l, m), concrete(g, m)
            tr = lambda k, t: bool(z3.is_true(m.eval(var(k, t))))
            if py_value(lc, tr, 0) == py_value(gc, tr, 0): return {"count": cnt, "undecided": f"counterexample not confirmed: {txt}"[:300]}
            n = max(horizon(lc), horizon(gc)) + 1
            v.append((txt, "relates formulas that differ", f"{txt}\n{text(lc)}\n  against\n{text(gc)}\ntrace of the metavariables {metas}: " + "; ".join(",".join(str(int(tr(k, t))) for k in range(len(metas))) for t in range(n))))
    return {"count": cnt, "viol": v}
# ---- what is handed to the engine ------------------------------------------------------------------
FAM = ["associative", "commutative", "multi-arity", "const-folding", "temporal", "extended"]
def encode(con, opts):
    p = tmp("e.egg", "")
    con.must(f"write_eqsat_encoding {p} " + " ".join(opts))
    return p.read_text()
def to_formula(t, defs, atom):
    """formula tuple of a term of the engine; intervals are numbers"""
    if isinstance(t, str): return to_formula(defs[t], defs, atom)
    o = t[0]
    if o == "Bool": return {"true": TT, "false": FF}[t[1]]
    if o == "Var": return atom(t[1][1:-1])
    if o in TEMP:
        if len(t) != (4 if o in ("Until", "Release") else 3): raise Odd(str(t))
        return (TEMP[o], int(t[1][1]), int(t[1][2])) + tuple(to_formula(x, defs, atom) for x in t[2:])
    if len(t) != OPSN[o] + 1: raise Odd(str(t))
    return ({"Not": "!", "Implies": "->", "Equiv": "<->"}.get(o) or ("&" if o.startswith("And") else "|"),) + tuple(to_formula(x, defs, atom) for x in t[1:])
def same(f, g, info, what):
    n = z3.Solver(); n.set("timeout", 60000)
    S = Sem(lambda k, t: z3.Bool(f"a{k}_{t}"), z3ops(z3))
    n.add(S.at(f, 0) != S.at(g, 0))
    r = n.check()
    if r == z3.unsat: return []
    if r == z3.unknown: raise Limit("equivalence")
    return [(what, f"{text(f)}  became  {text(g)}", info + "\n" + str(n.model())[:800])]
STUB = '''#!%s
import sys, os, re
t = open(sys.argv[1]).read()
defs = dict(re.findall(r"^\\(let (\\$e\\d+) (.*)\\)$", t, re.M))
def full(x): return re.sub(r"\\$e\\d+", lambda m: full(defs[m.group(0)]), x)
root = re.findall(r"^\\(extract (\\$e\\d+)\\)$", t, re.M)[-1]
open(os.path.join(os.path.dirname(sys.argv[1]), "tmp.json"), "w").write('{"nodes": {}, "class_data": {}}')
r = full(defs[root])
other = %r
print({"same": r, "not": "(Not (Not " + r + "))", "or": "(Or2 " + r + " (Bool false))", "and": "(And3 (Bool true) " + r + " " + r + ")"}.get(other, other))
'''
def term(f, ids):
    o = f[0]
    if o == "v": return f'(Var "a{ids[f[1]]}")'
    if o in "tf": return f"(Bool {'true' if o == 't' else 'false'})"
    ks = " ".join(term(k, ids) for k in kids(f))
    if o in UN + BIN: return f"({ {v: k for k, v in TEMP.items()}[o] } (Interval {f[1]} {f[2]}) {ks})"
    return f"({ {'!': 'Not', '->': 'Implies', '<->': 'Equiv', '&': f'And{len(f) - 1}', '|': f'Or{len(f) - 1}'}[o]} {ks})"
def job(j):
    fs, steps, opts, answer = j
    cnt, viol = {"programs": 1}, []
    con = Con()
    t = "INPUT\n  a0, a1, a2, a3: bool;\n  i: int;\nFTSPEC\n" + "".join(f"  {text(f, ['a0', 'a1', 'a2', 'a3', '(i > 3)'])};\n" for f in fs)
    names = ["a0", "a1", "a2", "a3"]
    for l in ["enable_booleanizer", f"parse_c2po {tmp('s.c2po', t)}", "type_check", "desugar"] + steps + ["compute_atomics"]: con.must(l)
    ids, back = {}, {}
    for k, e in con.context.atomic_expr_map.items():
        n = re.sub(r"[\s()]", "", str(e))
        back[k] = 4 if n == "i>3" else names.index(n)
        ids.setdefault(back[k], k)
    atom = lambda s: V(back[int(s[1:])])
    def tree(e):
        """as un(), with the comparison as a fifth variable"""
        if isinstance(e, cpt.Formula): return tree(e.get_expr())
        if re.sub(r"[\s()]", "", str(e)) == "i>3": return V(4)
        if isinstance(e, cpt.Atomic): return tree(e.children[0])
        if isinstance(e, cpt.Operator) and e.operator.name in OPS:
            ks = tuple(tree(c) for c in e.children); o = OPS[e.operator.name]
            return (o, e.interval.lb, e.interval.ub) + ks if o in UN + BIN else (o,) + ks
        return un(e, names)
    labels = [s.symbol for s in con.program.get_specs()]
    for f, lab in zip(fs, labels):
        enc = encode(con, opts + [f"--formula {lab}"])
        forms = sexps(enc)
        defs, last, ext = {}, None, None
        for x in forms:
            if isinstance(x, list) and x and x[0] == "let": defs[x[1]] = x[2]; last = x[1]
            if isinstance(x, list) and x and x[0] == "extract": ext = x[1]
        cnt["queries"] = cnt.get("queries", 0) + 1
        try: g = to_formula(ext or last, defs, atom)
        except (Odd, KeyError) as ex:
            cnt["encodings the engine refuses"] = cnt.get("encodings the engine refuses", 0) + 1; answer = None; continue
        viol += same(f, g, t + "\n" + "\n".join(l for l in enc.split("\n") if l.startswith("(let") or l.startswith("(extract")), f"[encoding {' '.join(steps + opts)}] {text(f)}")
    if answer is not None:
        d = str(scratch()) + f"/egglog{os.getpid()}"
        a = answer if isinstance(answer, str) else term(answer, ids) if all(v[1] in ids for v in walk(answer) if v[0] == "v") else "same"
        open(d, "w").write(STUB % (sys.executable, a)); os.chmod(d, 0o755)
        con.context.egglog_path = d
        con(f"optimize_eqsat " + " ".join(o for o in opts if "greedy" not in o))
        if con.rc != command.ReturnCode.SUCCESS: return {"count": cnt, "viol": viol + [(f"[read back {' '.join(steps)}] {text(fs[0])}", "the engine's answer is refused", t + con.out[-800:] + "\n" + a)]}
        for f, s in zip(fs, con.program.get_specs()):
            want = f if a in ("same", "not", "or", "and") else answer
            cnt["queries"] += 1
            if "skipping" in con.out: continue
            viol += same(want, tree(s), t + "\nanswer: " + a + "\n" + con.out[-400:], f"[read back {' '.join(steps)}] {text(f)} answered with {a[:120]}")
    return {"count": cnt, "viol": viol}
# rules
texts, con = {}, Con()
con.must(f"parse_c2po {tmp('r.c2po', 'INPUT a0, a1: bool; FTSPEC (G[0,2] a0) && (F[1,3] a1);')}")
for l in ["type_check", "desugar", "compute_atomics"]: con.must(l)
import itertools
for g in ("--greedy-extraction", ""):
    for off in [[], *[[f"--no-{x}"] for x in FAM], *[[f"--no-{y}" for y in FAM if y != x] for x in FAM]]:
        for r in rules(sexps(encode(con, ([g] if g else []) + off))): texts.setdefault(r[3], r)
chk.count("rules", len(texts))
if len(texts) < 40: chk.error(f"only {len(texts)} rules found in the encoding")
fmap(chk, decide_rule, list(texts.values()), limit=300 if quick else 1500)
jobs = []
STEPS = [[], ["optimize_cse"], ["optimize_rewrites"], ["to_nnf"], ["remove_extended_operators"], ["multi_operators_to_binary"], ["optimize_rewrites", "optimize_cse"]]
fam = [f for f in family(rng.randrange(1 << 30), 250 if quick else 2500, 5, 3, FTOPS, 5, 10)]
def noxor(f):
    if f[0] in "vtf": return f
    ks = tuple(noxor(k) for k in kids(f))
    return N(E(*ks)) if f[0] == "^" else f[:3] + ks if f[0] in UN + BIN else f[:1] + ks
fam = [noxor(f) for f in fam]
for k, f in enumerate(fam):
    n = 1 + k % 3
    fs = [f] + [rng.choice(fam) for _ in range(n - 1)]
    if k % 5 == 0 and n > 1: fs[1] = D(fs[0], V(1))
    answer = [None, "same", "not", fam[(k * 7) % len(fam)], "or", "and"][k % 6]
    if answer is not None and not isinstance(answer, str) : fs = fs[:1]
    jobs.append((fs, STEPS[k % 7], [["--greedy-extraction"], [], ["--greedy-extraction", "--no-extended"]][k % 3], answer))
for f in [A(V(0), V(1), V(2)), A(V(0), V(1), V(2), V(3)), D(V(0), V(1), V(2), V(3)), U(2, 5, V(0), V(1)), R(1, 4, V(0), V(1)), I(V(0), V(1)), E(V(0), F(0, 1, V(1))), TT, F(3, 3, TT)]:
    for a in (None, "same", f): jobs.append(([f], [], ["--greedy-extraction"], a))
fmap(chk, lambda k: job(jobs[k]), range(len(jobs)), limit=100)
chk.assume += ["the engine applies rules as written (pattern variables stand for any term, equal terms are interchangeable); the engine itself is not part of the repository", "the ILP extraction needs a commercial solver that is not installed and is not run"]
chk.cov["bounds"] = {"interval bounds in rules up to": CAP}
chk.finish()
