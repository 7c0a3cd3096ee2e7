"""The compiler's own functions in this process, on syntax trees whose interval bounds (or other integers) may be symbolic."""
import contextlib, io, multiprocessing, os, pathlib, pickle, signal, sys, tempfile, time, traceback
from util import *
from logic import *
import z3, pysym
from pysym import *
sys.path.insert(0, str(COMPILER))
sys.setrecursionlimit(100000)
import c2po.main
from c2po import cpt, types as ctypes_, log as clog, command
LOC = clog.FileLocation("x", 1)
K = cpt.OperatorKind
class Con:
    """one interactive session of the real compiler"""
    def __init__(self):
        self.c = c2po.main.CommandConsole()
    def __call__(self, line):
        self.c.return_code = command.ReturnCode.SUCCESS
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            self.c.runsource(line)
        self.out = buf.getvalue()
        self.rc = self.c.return_code
        return self.rc == command.ReturnCode.SUCCESS
    @property
    def program(self): return self.c.program
    @property
    def context(self): return self.c.context
    def must(self, line):
        if not self(line): raise Rejected(f"{line}: {self.out[-600:]}")
class Rejected(Exception): pass
_d = None
def tmp(name, text):
    global _d
    if _d is None or _d[0] != os.getpid():
        _d = (os.getpid(), fresh("y" + str(os.getpid()) + "_"))
    p = _d[1] / name
    p.write_text(text)
    return p
def mk(f, sig):
    """real syntax tree of formula f; bounds may be SymI; sig: {k: Signal} (one node per use, as the parser makes)"""
    o = f[0]
    ch = [mk(k, sig) for k in kids(f)]
    if o == "v": return cpt.Signal(LOC, sig(f[1]), ctypes_.BoolType())
    if o == "t": return cpt.Constant(LOC, True)
    if o == "f": return cpt.Constant(LOC, False)
    Op, Tp = cpt.Operator, cpt.TemporalOperator
    if o == "!": return Op.LogicalNegate(LOC, ch[0])
    if o == "&": return Op.LogicalAnd(LOC, ch)
    if o == "|": return Op.LogicalOr(LOC, ch)
    if o == "^": return Op.LogicalXor(LOC, ch)
    if o == "->": return Op.LogicalImplies(LOC, *ch)
    if o == "<->": return Op.LogicalIff(LOC, *ch)
    m = {"F": Tp.Future, "G": Tp.Global, "U": Tp.Until, "R": Tp.Release, "O": Tp.Once, "H": Tp.Historical, "S": Tp.Since, "T": Tp.Trigger}[o]
    return m(LOC, f[1], f[2], *ch)
OPS = {"LOGICAL_NEGATE": "!", "LOGICAL_AND": "&", "LOGICAL_OR": "|", "LOGICAL_XOR": "^", "LOGICAL_IMPLIES": "->", "LOGICAL_EQUIV": "<->",
       "FUTURE": "F", "GLOBAL": "G", "UNTIL": "U", "RELEASE": "R", "ONCE": "O", "HISTORICAL": "H", "SINCE": "S", "TRIGGER": "T"}
class Alien(Exception): pass
def un(e, names, memo=None):
    """formula tuple of a real syntax tree (bounds as they are in the tree)"""
    memo = {} if memo is None else memo
    if id(e) in memo: return memo[id(e)]
    r = _un(e, names, memo)
    memo[id(e)] = r
    return r
def _un(e, names, memo):
    if isinstance(e, cpt.Formula): return un(e.get_expr(), names, memo)
    if isinstance(e, cpt.Atomic): return un(e.children[0], names, memo)
    if isinstance(e, cpt.Constant):
        if e.value is True: return TT
        if e.value is False: return FF
        raise Alien(f"constant {e.value!r}")
    if isinstance(e, (cpt.Signal, cpt.Variable)):
        if e.symbol not in names: raise Alien(f"symbol {e.symbol}")
        return V(names.index(e.symbol))
    if isinstance(e, cpt.Operator):
        ch = tuple(un(c, names, memo) for c in e.children)
        o = OPS.get(e.operator.name)
        if o is None: raise Alien(f"operator {e.operator}")
        n = 1 if o == "!" or o in UN else 2
        if o in ("&", "|"):
            if len(ch) < 1: raise Alien("no operands")
        elif o == "^" and len(ch) > 2: pass
        elif len(ch) != n: raise Alien(f"{o} with {len(ch)} operands")
        if o in UN + BIN: return (o, e.interval.lb, e.interval.ub) + ch
        return (o,) + ch
    raise Alien(type(e).__name__)
def program(con, fs, nv, names=None, kind=None):
    """makes the session's program the one with formulas fs (typed, not desugared)"""
    names = names or [f"a{k}" for k in range(nv)]
    kind = kind or ("PTSPEC" if any(is_pt(f) for f in fs) else "FTSPEC")
    p = tmp("p.c2po", "INPUT\n" + "".join(f"  {n}: bool;\n" for n in names) + kind + "\n" + "".join(f"  {names[0]};\n" for _ in fs))
    con.must(f"parse_c2po {p}")
    for s, f in zip(con.program.get_specs(), fs):
        e = mk(f, lambda k: names[k])
        s.children[0] = e
        e.parents.add(s)
    con.must("type_check")
    return names
class BSem:
    """value at concrete positions of formulas whose bounds are z3 terms or ints; K bounds every interval's end"""
    def __init__(self, var, cap):
        self.var, self.cap, self.memo = var, cap, {}
        self.keep = []
        self.side = []          # conditions under which the cap was too small
    def at(self, f, t):
        key = (id(f), t)
        if key not in self.memo:
            self.keep.append(f)
            self.memo[key] = self._at(f, t)
        return self.memo[key]
    def _at(self, f, t):
        o = f[0]
        if o == "v": return self.var(f[1], t)
        if o == "t": return z3.BoolVal(True)
        if o == "f": return z3.BoolVal(False)
        if o == "!": return z3.Not(self.at(f[1], t))
        if o == "&": return z3.And(*[self.at(k, t) for k in f[1:]])
        if o == "|": return z3.Or(*[self.at(k, t) for k in f[1:]])
        if o == "^":
            r = self.at(f[1], t)
            for k in f[2:]: r = z3.Xor(r, self.at(k, t))
            return r
        if o == "<->": return self.at(f[1], t) == self.at(f[2], t)
        if o == "->": return z3.Implies(self.at(f[1], t), self.at(f[2], t))
        lb, ub = f[1], f[2]
        if isinstance(ub, int) and isinstance(lb, int):
            rng = [(k, z3.BoolVal(True)) for k in range(max(lb, 0), ub + 1)]
        else:
            L, H = zt(lb), zt(ub)
            if isinstance(ub, int): cap = ub
            else:
                cap = self.cap
                self.side.append(H > cap)
            rng = [(k, z3.simplify(z3.And(L <= k, k <= H))) for k in range(0, cap + 1)]
        rng = [(k, g) for k, g in rng if not z3.is_false(g)]
        if o in PT: rng = [(k, g) for k, g in rng if t - k >= 0]
        d = -1 if o in PT else 1
        if o in ("F", "O"): return z3.Or(*[z3.And(g, self.at(f[3], t + d * k)) for k, g in rng])
        if o in ("G", "H"): return z3.And(*[z3.Implies(g, self.at(f[3], t + d * k)) for k, g in rng])
        r = z3.BoolVal(o in ("R", "T"))
        for k, g in reversed(rng):
            x, y = self.at(f[3], t + d * k), self.at(f[4], t + d * k)
            r = z3.If(g, z3.Or(y, z3.And(x, r)) if o in ("U", "S") else z3.And(y, z3.Or(x, r)), r)
        return r
def bounds_ok(f):
    """conditions that some interval of f is ill-formed"""
    out = []
    for n in walk(f):
        if n[0] in UN + BIN:
            if isinstance(n[1], (SymI,)) or isinstance(n[2], SymI):
                out.append(z3.Or(zt(n[1]) < 0, zt(n[1]) > zt(n[2])))
            elif not (type(n[1]) is int and type(n[2]) is int and 0 <= n[1] <= n[2]): out.append(z3.BoolVal(True))
    return out
def concrete(f, m):
    """formula with its symbolic bounds replaced by the model's values"""
    def c(x): return m.eval(x.z, model_completion=True).as_long() if isinstance(x, SymI) else x
    if f[0] in UN + BIN: return (f[0], c(f[1]), c(f[2])) + tuple(concrete(k, m) for k in kids(f))
    return f[:1] + tuple(concrete(k, m) if isinstance(k, tuple) else k for k in f[1:])
def ftext(f, names=None):
    return text(f, names)

# ---- running items in forked workers -------------------------------------------------------------
_fn = _items = None
class Timeout(Stop): pass
def _work(arg):
    i, limit = arg
    item = _items[i]
    def boom(*a): raise Timeout()
    signal.signal(signal.SIGALRM, boom)
    signal.alarm(limit)
    try:
        r = _fn(item)
    except Timeout: r = {"undecided": f"{short(item)}: time limit"}
    except Limit as ex: r = {"undecided": f"{short(item)}: {ex}"}
    except MemoryError: r = {"undecided": f"{short(item)}: memory"}
    except Exception as ex: r = {"undecided": f"{short(item)}: {ex!r} {traceback.format_exc()[-500:]}"}
    finally: signal.alarm(0)
    return r or {}
def short(x): return repr(x)[:200]
def _init():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    d = os.open(os.devnull, os.O_WRONLY)
    os.dup2(d, 1); os.dup2(d, 2)
def fmap(chk, fn, items, limit=60):
    """fn(item) in forked workers; its dict result: {"count": {..}, "viol": [(key, what, text)], "undecided": str, "sample": ..}"""
    global _fn, _items
    _fn, _items = fn, list(items)
    scratch()
    ctx = multiprocessing.get_context("fork")
    sys.stdout.flush(); sys.stderr.flush()
    with ctx.Pool(JOBS, initializer=_init, maxtasksperchild=200) as pool:
        for r in pool.imap_unordered(_work, [(i, limit) for i in range(len(_items))], chunksize=1):
            for k, n in r.get("count", {}).items():
                if k.startswith("max_"): chk.cov[k] = max(chk.cov.get(k, 0), n)
                elif isinstance(n, float): chk.cov[k] = round(chk.cov.get(k, 0) + n, 3)
                else: chk.count(k, n)
            for k, v in r.get("add", {}).items(): chk.add(k, v)
            for v in r.get("viol", []): chk.violation(*v)
            if r.get("undecided"): chk.error(r["undecided"])
            if r.get("sample") and len(chk.samples) < 6: chk.samples.append(r["sample"])
def py_value(f, tr, t):
    """value on a concrete trace: tr(k, t)"""
    return Sem(tr, PyOps).at(f, t)
