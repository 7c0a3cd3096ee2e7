import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pyeq import *
from sugar import *
from pyeq import *
import mcfam
from comp import c2po as run_c2po
chk = Check("C18", "other")
chk.cov["explanation"] = ("Programs with every kind of sugar are written as C2PO text at every stage of compilation, read back and compiled; the real monitor on the result is decided over every input of the bounded trace "
    "against the plain meaning of what was written first. Temporal formulas, plain and after each transformation command, are written as C2PO and as MLTL text and read back by the real parsers, and the solver decides that both trees agree at every "
    "position of every trace. Formulas and expressions printed with no more parentheses than the documented grammar's precedence table needs are read by the real parsers and the solver decides that the tree has the intended value for all inputs.")
quick = TIER != "thorough"
rng = random.Random(SEED * 103 + 18)
FE = ["struct", "enum", "array", "def", "agg", "count", "slice", "cmp", "label", "nest", "contract"]
BASE = ["parse_c2po s.c2po", "parse_map s.map", "type_check", "desugar", "optimize_rewrites", "optimize_cse", "remove_extended_operators", "multi_operators_to_binary", "compute_atomics"]
bjobs = []
for k in range(200 if quick else 2500):
    bz = k % 3 != 0
    bjobs.append((rng.randrange(1 << 40), bz, FE if k % 2 else [f for f in FE if rng.random() < .5], rng.choice("ffp"), rng.randrange(1, 4), rng.choice([1, 1, 3, 4, 5, 6, 7, 8, 9])))
def go(j):
    seed, bz, feats, tk, nf, cut = j
    r = random.Random(seed)
    if cut >= 4: feats = [x for x in feats if x not in ("enum", "count")]      # fixed programs below: recorded findings
    s = Sugar(r, bz, feats).make(tk, nf, 2)
    if any(horizon(f) > 6 or past(f) > 6 for f in s.fs) or len(s.exprs) > 14: return
    en = ["enable_booleanizer"] if bz else []
    key = f"written after {BASE[cut - 1].split()[0]} " + " ".join(s.text.split())
    x = run_c2po({"s.c2po": s.text, "s.map": s.map(), "s.script": "\n".join(en + BASE[:cut] + ["write_c2po t.c2po"]) + "\n"}, ["-s", "s.script"])
    out = x.dir / "t.c2po"
    if x.rc != 0 or not out.exists():
        chk.count("not_accepted_by_compiler"); return
    t = out.read_text()
    b = build_spec(t, None, ["-bz"] if bz else [], map_text=s.map())
    if not b.ok:
        ref = build_spec(s.text, None, ["-bz"] if bz else [], map_text=s.map())
        if not ref.ok: chk.count("not_accepted_by_compiler"); return
        chk.violation(key, "the written program is not accepted: " + " ".join((b.err + b.out).split())[:160], "program:\n" + s.text + f"\nwritten after {BASE[:cut]}:\n" + t + "\n" + (b.err + b.out)[-1500:])
        return
    decide(chk, key, s.prog.harness(b.bin, 3, timely=False, order=False), timeout=45 if quick else 300, sample={"program": key, "written": t} if len(chk.samples) < 6 else None, keyfn=lambda v: key)
pmap(mcfam.guarded(chk, go), bjobs[:int(os.environ.get("C_N", 10**9))])

# ---- one enum and one counting aggregation written after desugar: recorded findings
FIX = [("written after desugar: enum member compared with an input", "ENUM\n  E: {A: 1, B: 2};\nINPUT\n  e: E;\nFTSPEC\n  G[0,1] (e == B);\n", "e: 0\n", True),
       ("written after desugar: counting aggregation", "INPUT\n  a, b, c: bool;\nFTSPEC\n  foratleast(s: {a, b, c}, 2)(s);\n", "a: 0\nb: 1\nc: 2\n", True)]
for key, t0, mp, bz in FIX:
    x = run_c2po({"s.c2po": t0, "s.map": mp, "s.script": "enable_booleanizer\n" + "\n".join(BASE[:4] + ["write_c2po t.c2po"]) + "\n"}, ["-s", "s.script"])
    if x.rc != 0: chk.count("not_accepted_by_compiler"); continue
    t = (x.dir / "t.c2po").read_text()
    b = build_spec(t, None, ["-bz"], map_text=mp)
    chk.count("round_trips")
    if not b.ok: chk.violation(key, "the written program is not accepted: " + " ".join((b.err + b.out).split())[:160], t0 + "\nwritten:\n" + t + "\n" + (b.err + b.out)[-1500:])

# ---- B: temporal formulas, both syntaxes, read by the real parsers
SIG = ["p", "q", "r"]
ML = ["a2", "a0", "a1"]
TR = [[], [], ["optimize_rewrites"], ["optimize_cse"], ["remove_extended_operators"], ["multi_operators_to_binary"], ["to_nnf"], ["to_bnf"], ["optimize_rewrites", "optimize_cse", "remove_extended_operators", "multi_operators_to_binary"]]
def rand_f(r, tk, d):
    if d == 0 or r.random() < .08: return r.choice([V(r.randrange(3))] * 8 + [TT, FF])
    k = r.random()
    sub = lambda: rand_f(r, tk, d - 1)
    lb = r.choice([0, 0, 1, 2]); ub = lb + r.choice([0, 1, 2])
    if k < .15: return N(sub())
    if k < .3: return ("&",) + tuple(sub() for _ in range(r.choice([2, 2, 3, 4])))
    if k < .45: return ("|",) + tuple(sub() for _ in range(r.choice([2, 2, 3, 4])))
    if k < .65: return (r.choice(["^", "->", "<->"]), sub(), sub())
    if k < .8: return (r.choice("FG" if tk == "f" else "OH"), lb, ub, sub())
    return (r.choice("UR" if tk == "f" else "ST"), lb, ub, sub(), sub())
def same(f, g, tk, names=3):
    """None if f and g agree on all traces, else the trace"""
    pos = range(0, past(f) + past(g) + 1) if tk == "p" else [0]
    A = BSem(lambda k, t: z3.Bool(f"x{k}_{t}"), 0)
    s = z3.Solver()
    s.set("timeout", 20000)
    s.add(z3.Or([A.at(f, t) != A.at(g, t) for t in pos]))
    r = s.check()
    if r == z3.unknown: raise Limit("solver")
    return None if r == z3.unsat else {"model": s.model()}
def job_b(j):
    seed, tk, tr = j
    r = random.Random(seed)
    fs = [rand_f(r, tk, r.choice([1, 2, 3])) for _ in range(r.choice([1, 1, 2]))]
    con = Con()
    cnt = {"temporal_programs": 1}
    viol = []
    desc = "; ".join(text(f, SIG) for f in fs) + f" after {tr}"
    try:
        program(con, fs, 3, SIG, kind="FTSPEC" if tk == "f" else "PTSPEC")
        con.must("desugar")
        con.must(f"parse_map {tmp('m.map', 'p: 2' + chr(10) + 'q: 0' + chr(10) + 'r: 1' + chr(10))}")
        for c in tr: con.must(c)
    except Rejected as ex:
        return {"count": {"not_accepted_by_compiler": 1}}
    try: want = [un(s, SIG) for s in con.program.get_specs()]
    except Alien as ex: return {"count": {"not_comparable": 1}}
    prefix_text = None
    for fmt in ("c2po", "mltl"):
        out = tmp(f"o.{fmt}", "")
        if fmt == "mltl":
            if not con("compute_atomics"): cnt["no_atomics"] = 1; continue
        if not con(f"write_{fmt} {out}"):
            viol.append((f"write_{fmt} {desc}", "the program cannot be written: " + con.out[-200:], desc)); continue
        t = pathlib.Path(out).read_text()
        back = Con()
        key = f"read back as {fmt}: {desc}"
        rep = f"{desc}\nwritten:\n{t}"
        if not back(f"parse_{fmt} {out}"):
            viol.append((key, "the written text is not read: " + " ".join(back.out.split())[-200:], rep)); continue
        if not back("type_check"):
            viol.append((key, "the read program is not accepted: " + " ".join(back.out.split())[-200:], rep)); continue
        try: got = [un(s, SIG if fmt == "c2po" else ML) for s in back.program.get_specs()]
        except Alien as ex: viol.append((key, f"read as something else: {ex}", rep)); continue
        cnt["round_trips"] = cnt.get("round_trips", 0) + 1
        if len(got) != len(want):
            viol.append((key, f"{len(want)} formulas written, {len(got)} read", rep)); continue
        for a, b in zip(want, got):
            w = same(a, b, tk)
            cnt["queries"] = cnt.get("queries", 0) + 1
            if w: viol.append((key, f"{text(a, SIG)} reads as {text(b, SIG)}", rep + f"\nread back: {[text(g, SIG) for g in got]}\ntrace: {w['model']}"))
        if fmt == "mltl" and any(back.context.signal_mapping.get(x, int(x[1:])) != int(x[1:]) for x in ML):
            viol.append((key, f"columns {back.context.signal_mapping}", rep))
    return {"count": cnt, "viol": viol, "sample": None}
fmap(chk, job_b, [(rng.randrange(1 << 40), rng.choice("ffp"), TR[k % len(TR)]) for k in range(3000 if quick else 12000)])

# ---- C: text with the fewest parentheses, read by the real parsers
LV = {"->": 1, "<->": 1, "^": 1, "|": 2, "&": 3, "U": 4, "R": 4, "S": 4, "T": 4, "F": 5, "G": 5, "O": 5, "H": 5, "b|": 6, "b^": 7, "b&": 8, "==": 9, "!=": 9, "<": 10, ">": 10, "<=": 10, ">=": 10,
      "<<": 11, ">>": 11, "+": 12, "-": 12, "*": 13, "/": 13, "%": 13, "!": 14, "~": 14, "neg": 14}
C2 = {"|": "||", "&": "&&", "^": "xor", "b|": "|", "b^": "^", "b&": "&", "neg": "-"}
ARITH = ["+", "-", "*", "/", "%", "<<", ">>", "b&", "b|", "b^"]
def rand_i(r, d):
    if d == 0 or r.random() < .1: return ("i", r.randrange(3)) if r.random() < .85 else ("n", r.randrange(1, 9))
    if r.random() < .2: return (r.choice(["neg", "~"]), rand_i(r, d - 1))
    return (r.choice(ARITH), rand_i(r, d - 1), rand_i(r, d - 1))
def rand_b(r, tk, d, ml):
    if d == 0 or r.random() < .05: return V(r.randrange(3))
    k = r.random()
    sub = lambda: rand_b(r, tk, d - 1, ml)
    lb = r.choice([0, 0, 1]); ub = lb + r.choice([0, 1])
    if k < .12: return N(sub())
    if k < .5: return (r.choice(["&", "|", "->", "<->"] + ([] if ml else ["^"])), sub(), sub())
    if k < .65 or (ml and k < .7): return (r.choice("FG" if tk == "f" else "OH"), lb, ub, sub())
    if k < .8 or ml: return (r.choice("UR" if tk == "f" else "ST"), lb, ub, sub(), sub())
    if k < .85: return (r.choice(["==", "!="]), sub(), sub())
    return (r.choice(["==", "!=", "<", ">", "<=", ">="]), rand_i(r, d - 1), rand_i(r, d - 1))
UNI = {"!": "¬", "&&": "∧", "||": "∨", "->": "→", "<->": "↔", "!=": "≠", ">=": "≥", "<=": "≤", "*": "•", "/": "÷"}
def pr(e, ml, at=0, uni=None):
    o = e[0]
    if o == "v": return ML[e[1]] if ml else SIG[e[1]]
    if o == "i": return "ijk"[e[1]]
    if o == "n": return str(e[1])
    l = LV[o]
    name = o if ml else C2.get(o, o)
    if uni and not ml and uni.random() < .2: name = UNI.get(name, name)
    if o in UN or o in BIN:
        end = "M" if uni and e[2] == 1 and uni.random() < .3 else e[2]
        iv = f"[{e[1]},{end}]" if e[1] or e[2] % 2 else f"[{end}]"
        ch = e[3:]
        name += iv
    else: ch = e[1:]
    if len(ch) == 1:
        s = name + " " + pr(ch[0], ml, l, uni) if o != "!" or l != 14 else name + pr(ch[0], ml, 5 if ml else l, uni)
        if ml and o in UN: s = name + " " + pr(ch[0], ml, 5, uni)
    else: s = pr(ch[0], ml, l, uni) + " " + name + " " + pr(ch[1], ml, l + 1, uni)
    if ml and l == 14: l = 5
    return "(" + s + ")" if l < at else s
KN = {"ARITHMETIC_ADD": "+", "ARITHMETIC_SUBTRACT": "-", "ARITHMETIC_MULTIPLY": "*", "ARITHMETIC_DIVIDE": "/", "ARITHMETIC_MODULO": "%", "ARITHMETIC_NEGATE": "neg", "BITWISE_AND": "b&", "BITWISE_OR": "b|", "BITWISE_XOR": "b^",
      "BITWISE_NEGATE": "~", "SHIFT_LEFT": "<<", "SHIFT_RIGHT": ">>", "EQUAL": "==", "NOT_EQUAL": "!=", "GREATER_THAN": ">", "LESS_THAN": "<", "GREATER_THAN_OR_EQUAL": ">=", "LESS_THAN_OR_EQUAL": "<="}
def und(e, ml):
    if isinstance(e, cpt.Formula): return und(e.get_expr(), ml)
    if isinstance(e, (cpt.Signal, cpt.Variable)):
        if e.symbol in (ML if ml else SIG): return V((ML if ml else SIG).index(e.symbol))
        return ("i", "ijk".index(e.symbol))
    if isinstance(e, cpt.Constant): return ("n", e.value)
    if not isinstance(e, cpt.Operator): raise Alien(type(e).__name__)
    ch = tuple(und(c, ml) for c in e.children)
    o = OPS.get(e.operator.name) or KN.get(e.operator.name)
    if o is None: raise Alien(e.operator.name)
    if o == "-" and len(ch) == 1: o = "neg"
    if o in UN + BIN: return (o, e.interval.lb, e.interval.ub) + ch
    return (o,) + ch
class Mixed(BSem):
    def num(self, e, t):
        o = e[0]
        if o == "i": return z3.BitVec(f"{'ijk'[e[1]]}_{t}", 32)
        if o == "n": return z3.BitVecVal(e[1], 32)
        a = [self.num(x, t) for x in e[1:]]
        if o == "neg": return -a[0]
        if o == "~": return ~a[0]
        f = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": DIV("mul"), "/": DIV("div"), "%": DIV("mod"), "<<": lambda x, y: x << y, ">>": lambda x, y: x >> y, "b&": lambda x, y: x & y, "b|": lambda x, y: x | y, "b^": lambda x, y: x ^ y}[o]
        r = a[0]
        for x in a[1:]: r = f(r, x)
        return r
    def _at(self, f, t):
        if f[0] in ("==", "!=", "<", ">", "<=", ">="):
            isb = f[1][0] not in ("i", "n", "neg", "~") and f[1][0] not in ARITH
            x, y = (self.at(f[1], t), self.at(f[2], t)) if isb else (self.num(f[1], t), self.num(f[2], t))
            return {"==": lambda: x == y, "!=": lambda: x != y, "<": lambda: x < y, ">": lambda: x > y, "<=": lambda: x <= y, ">=": lambda: x >= y}[f[0]]()
        return super()._at(f, t)
def reach(f): return (f[2] if f[0] in PT else 0) + max([reach(x) for x in f[1:] if isinstance(x, tuple)] + [0])
def DIV(n):     # products, quotients and remainders stand for themselves: equal operands, equal results
    fn = z3.Function(n, z3.BitVecSort(32), z3.BitVecSort(32), z3.BitVecSort(32))
    return lambda x, y: fn(x, y)
def job_c(j):
    seed, tk, ml = j
    r = random.Random(seed)
    f = rand_b(r, tk, r.choice([2, 3, 3, 4]), ml)
    t = pr(f, ml, uni=r)
    fmt = "mltl" if ml else "c2po"
    src = t + "\n" if ml else "INPUT\n  p, q, r: bool;\n  i, j, k: int;\n" + ("FTSPEC\n" if tk == "f" else "PTSPEC\n") + f"  {t};\n"
    back = Con()
    cnt = {"texts_read": 1}
    key = f"precedence {fmt}: {t}"
    session = r.random() < .5      # the mission time: the session's or the command's
    if session: back("set_mission_time 1")
    if not back(f"parse_{fmt} {'' if session else '--mission-time 1 '}{tmp('t.' + fmt, src)}"):
        return {"count": cnt, "viol": [(key, "not read: " + " ".join(back.out.split())[-200:], src)]}
    try:
        g = und(back.program.get_specs()[0], ml)
        pos = range(0, reach(f) + reach(g) + 1) if tk == "p" else [0]
        A = Mixed(lambda k, t: z3.Bool(f"x{k}_{t}"), 0)
        s = z3.Solver()
        s.set("timeout", 20000)
        s.add(z3.Or([A.at(f, t_) != A.at(g, t_) for t_ in pos]))
        res = s.check()
    except (Alien, z3.Z3Exception, KeyError, TypeError, AttributeError) as ex:
        return {"count": cnt, "viol": [(key, f"read as something else: {ex!r}", src)]}
    cnt["queries"] = 1
    if res == z3.unknown: raise Limit("solver")
    if res == z3.sat: return {"count": cnt, "viol": [(key, f"meant {f} read as {g}", f"{src}\nmeant: {f}\nread: {g}\ninputs: {s.model()}")]}
    return {"count": cnt}
fmap(chk, job_c, [(rng.randrange(1 << 40), rng.choice("ffp"), k % 3 == 0) for k in range(6000 if quick else 30000)])
chk.assume += ["programs of the seeded families; the table of precedences is the one the grammar declares (the documentation's page on MLTL lists fewer operators and an older table)",
               "multiplication, division and remainder are uninterpreted when texts are compared"]
chk.cov["bounds"] = {"steps": 3, "nesting": 4, "max_interval_end": 4}
chk.finish()
