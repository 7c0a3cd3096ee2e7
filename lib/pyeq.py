"""Equivalence jobs: a real transformation of the compiler, run symbolically on a formula shape with numbered interval holes."""
from pyc import *
def holes(f): return sorted({x for n in walk(f) if n[0] in UN + BIN for x in (n[1], n[2])})
def walk(f):
    yield f
    for k in kids(f): yield from walk(k)
def inst(f, m):
    if f[0] in UN + BIN: return (f[0], m[f[1]], m[f[2]]) + tuple(inst(k, m) for k in kids(f))
    return f[:1] + tuple(inst(k, m) if isinstance(k, tuple) else k for k in f[1:])
def show(f):
    return text(inst(f, {h: f"{'lu'[h[0] == 'ub']}{h[1]}" for h in holes(f)}))
def depth(f):
    return max([depth(k) for k in kids(f)] + [0]) + (f[0] in UN + BIN)
def equiv_job(f, steps, B, form=None, tag="rewrite", names=("a0", "a1", "a2"), max_s=50, pre=None, grow=1, ref=None):
    """steps: session commands or functions (con) -> formula list; form(g): reason why the result's form is wrong, or None;
    ref: the formula whose value the result must have (f itself by default)"""
    names = list(names)
    hs = holes(f)
    zv = {h: z3.Int(f"{h[0]}{h[1]}") for h in hs}
    sv = {h: SymI(zv[h]) for h in hs}
    b = B if len(hs) <= 4 else 3
    assume = [z3.And(0 <= z, z <= b) for z in zv.values()]
    for n in walk(f):
        if n[0] in UN + BIN: assume.append(zv[n[1]] <= zv[n[2]])
    d = depth(f)
    past_ = any(n[0] in PT for n in walk(f))
    orig = inst(f, sv)
    def transformed(fm):
        con = Con()
        program(con, [fm], 3, names)
        con.must("desugar")
        for st in steps:
            if callable(st):
                st(con)
            elif not con(st):
                return con.out or "failed"
        return un(con.program.get_specs()[0], names)
    def run(): return transformed(orig)
    viol, cnt = [], {"programs": 1, "max_bound": b}
    cap = b * max(d, 1) * grow
    var = lambda k, t: z3.Bool(f"x{k}_{t}")
    base = BSem(var, b)
    pos = range(0, cap + 2) if past_ else [0]
    orig_ref = orig if ref is None else inst(ref, sv)
    o_at = [base.at(orig_ref, t) for t in pos]
    npath = 0
    def bad(m, why, res=None):
        # replay with the concrete bounds through the ordinary command line
        cf = inst(f, {h: m.eval(zv[h], model_completion=True).as_long() for h in hs})
        t_ = f"formula: {text(cf)}\ncommands: {steps}\n"
        try:
            g = transformed(cf)
        except Alien as ex:
            return (f"{tag} {show(f)}", f"{text(cf)}: {ex}", t_)
        except Exception as ex:
            return (f"{tag} {show(f)}", f"{text(cf)}: {ex!r}", t_)
        if isinstance(g, str):
            return (f"{tag} {show(f)}", f"{text(cf)}: the command fails", t_ + g)
        t_ += f"result: {text(g)}\n"
        if form and form(g):
            return (f"{tag} {show(f)}: form", f"{text(cf)} becomes {text(g)}: {form(g)}", t_)
        if any(not (0 <= n[1] <= n[2]) for n in walk(g) if n[0] in UN + BIN):
            return (f"{tag} {show(f)}", f"{text(cf)} becomes {text(g)}: interval ill-formed", t_)
        tr = lambda k, t: z3.is_true(m.eval(var(k, t), model_completion=True))
        for t in pos:
            a, b_ = py_value(cf if ref is None else inst(ref, {h: m.eval(zv[h], model_completion=True).as_long() for h in hs}), tr, t), py_value(g, tr, t)
            if a != b_:
                trace = "\n".join(",".join(str(int(tr(k, j))) for k in range(3)) for j in range(0, 2 * cap + 3))
                return (f"{tag} {show(f)}", f"{text(cf)} becomes {text(g)}: {a} vs {b_} at {t}", t_ + f"position {t}: original {a}, rewritten {b_}\ntrace (a0,a1,a2 per line):\n{trace}\n")
        return None
    und = None
    qn, qt = 0, 0.0
    for eng, (st, res) in explore(run, assume, max_s=max_s):
        npath += 1
        if st == "exc" or isinstance(res, str) or form and form(res):
            eng.check(); v = bad(eng.s.model(), "error")
            if v: viol.append(v)
            else: und = f"{show(f)}: {res!r} does not reproduce"
            continue
        sem = BSem(var, cap)
        conds = [sem.at(res, t) != o for t, o in zip(pos, o_at)] + bounds_ok(res)
        q = z3.Or(*conds, *sem.side)
        eng.s.set("timeout", 30000)
        if eng.check(q):
            v = bad(eng.s.model(), "")
            if v: viol.append(v)
            else: und = f"{show(f)}: counterexample does not reproduce"
        qn, qt = eng.queries, eng.qtime
    cnt.update(paths=npath, queries=qn, solver_s=qt, obligations=npath)
    return {"count": cnt, "viol": viol[:1], "undecided": und, "sample": {"shape": show(f), "paths": npath}}
def multi_job(job):
    """(formulas, session commands or functions (con), largest bound, tag): every formula of the program keeps its value"""
    fs, steps, B, tag = job
    names = ["p", "P", "pp"]
    hs = sorted({h for f in fs for h in holes(f)})
    zv = {h: z3.Int(f"{h[0]}{h[1]}") for h in hs}
    sv = {h: SymI(zv[h]) for h in hs}
    b = B if len(hs) <= 4 else 2
    assume = [z3.And(0 <= z, z <= b) for z in zv.values()]
    for f in fs:
        for n in walk(f):
            if n[0] in UN + BIN: assume.append(zv[n[1]] <= zv[n[2]])
    past_ = any(is_pt(f) for f in fs)
    d = max(depth(f) for f in fs)
    cap = b * max(d, 1)
    label = "; ".join(show(f) for f in fs) + " / " + (tag or ",".join(map(str, steps)))
    def transformed(m):
        con = Con(); program(con, [inst(f, m) for f in fs], 3, names); con.must("desugar")
        for st in steps:
            if callable(st): st(con)
            elif not con(st): return con.out or "failed"
        sp = con.program.get_specs()
        return [un(s, names) for s in sp] if len(sp) == len(fs) else f"{len(sp)} formulas left of {len(fs)}"
    var = lambda k, t: z3.Bool(f"x{k}_{t}")
    base = BSem(var, b)
    pos = range(0, cap + 2) if past_ else [0]
    orig = [inst(f, sv) for f in fs]
    want = [[base.at(f, t) for t in pos] for f in orig]
    viol, und, npath, qn, qt = [], None, 0, 0, 0.0
    def bad(m):
        mm = {h: m.eval(zv[h], model_completion=True).as_long() for h in hs}
        cf = [inst(f, mm) for f in fs]
        t_ = "formulas: " + "; ".join(text(f) for f in cf) + f"\ncommands: {steps}\n"
        try: g = transformed(mm)
        except Exception as ex: return (label, f"{[text(f) for f in cf]}: {ex!r}", t_)
        if isinstance(g, str): return (label, f"{[text(f) for f in cf]}: {g[-200:]}", t_ + g)
        t_ += "result: " + "; ".join(text(f) for f in g) + "\n"
        tr = lambda k, t: z3.is_true(m.eval(var(k, t), model_completion=True))
        for n, (x, y) in enumerate(zip(cf, g)):
            for t in pos:
                if py_value(x, tr, t) != py_value(y, tr, t):
                    return (label, f"formula {n} {text(x)} becomes {text(y)}, different at {t}", t_ + "trace (a0,a1,a2 per line):\n" + "\n".join(",".join(str(int(tr(k, j))) for k in range(3)) for j in range(0, 2 * cap + 3)) + "\n")
        return None
    for eng, (st, res) in explore(lambda: transformed(sv), assume, max_s=40):
        npath += 1
        if st == "exc" or isinstance(res, str):
            eng.check(); v = bad(eng.s.model())
            if v: viol.append(v)
            else: und = f"{label}: {res!r} does not reproduce"
            continue
        sem = BSem(var, cap)
        conds = [sem.at(r, t) != w[i] for r, w in zip(res, want) for i, t in enumerate(pos)]
        conds += [c for r in res for c in bounds_ok(r)]
        eng.s.set("timeout", 30000)
        if eng.check(z3.Or(*conds, *sem.side)):
            v = bad(eng.s.model())
            if v: viol.append(v)
            else: und = f"{label}: counterexample does not reproduce"
        qn, qt = eng.queries, eng.qtime
    return {"count": dict(programs=1, paths=npath, queries=qn, solver_s=qt, obligations=npath * len(fs), max_bound=b), "viol": viol[:1], "undecided": und, "sample": {"formulas": label, "paths": npath}}
