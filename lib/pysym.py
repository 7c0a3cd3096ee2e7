"""Symbolic execution of the compiler's Python code: proxies carry z3 terms through the real functions, every branch on
a symbolic condition forks the run (decided by the solver), runs are repeated until every feasible path is covered."""
import time, z3
class Stop(BaseException):
    """control flow of the executor: never caught by the code under test (not an Exception)"""
class Infeasible(Stop): pass
class Limit(Stop): pass
ENG = None
class Eng:
    def __init__(self, assume=(), timeout=20000):
        self.s = z3.Solver()
        self.s.set("timeout", timeout)
        self.base = list(assume)
        for a in self.base: self.s.add(a)
        self.prefix, self.trail, self.pc = [], [], []
        self.queries, self.qtime, self.paths = 0, 0.0, 0
        self.tok = {}
    def check(self, *extra):
        t = time.time()
        r = self.s.check(*extra)
        self.queries += 1
        self.qtime += time.time() - t
        if r == z3.unknown: raise Limit("solver gave no answer on a branch")
        return r == z3.sat
    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        i = len(self.trail)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            t, f = self.check(c), self.check(z3.Not(c))
            if t and f:
                self.todo.append(self.prefix[:0] + [x for x in self.trail] + [False])
                v = True
            elif t or f: v = t
            else: raise Infeasible()
        self.trail.append(v)
        k = c if v else z3.Not(c)
        self.pc.append(k)
        self.s.add(k)
        return v
    def value(self, term):
        """fork over the values of an integer term (used where Python needs a real int)"""
        term = z3.simplify(term)
        if z3.is_int_value(term): return term.as_long()
        i = len(self.trail)
        if i < len(self.prefix):
            v, nots = self.prefix[i]
        else:
            nots = ()
            v = None
        if v is None:
            for n in nots: self.s.add(term != n)
            if not self.check(): raise Infeasible()
            v = self.s.model().eval(term, model_completion=True).as_long()
            self.s.push(); self.s.add(term != v)
            for n in nots: self.s.add(term != n)
            more = self.check()
            self.s.pop()
            if more: self.todo.append(list(self.trail) + [(None, nots + (v,))])
        self.trail.append((v, nots))
        self.pc.append(term == v)
        self.s.add(term == v)
        return v
def explore(fn, assume=(), max_paths=4000, max_s=120, timeout=20000):
    """runs fn() along every feasible path; yields (engine, result or exception) with engine.pc the path condition"""
    global ENG
    eng = Eng(assume, timeout)
    todo = [[]]
    t0 = time.time()
    while todo:
        if eng.paths >= max_paths or time.time() - t0 > max_s: raise Limit(f"path limit ({eng.paths} paths)")
        eng.prefix = todo.pop()
        eng.trail, eng.pc, eng.todo = [], [], todo
        eng.s.push()
        ENG = eng
        try:
            try: r = ("ok", fn())
            except Infeasible: r = None
            except Stop: raise
            except Exception as ex: r = ("exc", ex)
            if r is not None:
                eng.paths += 1
                ENG = None
                yield eng, r
        finally:
            ENG = None
            eng.s.pop()
    explore.last = eng
def zt(x):
    if isinstance(x, SymI): return x.z
    if isinstance(x, SymB): return z3.If(x.z, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool): return z3.IntVal(int(x))
    if isinstance(x, int): return z3.IntVal(x)
    return None
def zb(x):
    if isinstance(x, SymB): return x.z
    if isinstance(x, SymI): return x.z != 0
    return z3.BoolVal(bool(x))
class SymB:
    __slots__ = ("z",)
    def __init__(self, z): self.z = z
    def __bool__(self): return ENG.branch(self.z)
    def __eq__(self, o): return SymB(self.z == zb(o)) if isinstance(o, (bool, SymB)) else NotImplemented
    def __ne__(self, o): return SymB(self.z != zb(o)) if isinstance(o, (bool, SymB)) else NotImplemented
    def __and__(self, o): return SymB(z3.And(self.z, zb(o)))
    def __or__(self, o): return SymB(z3.Or(self.z, zb(o)))
    __rand__, __ror__ = __and__, __or__
    def __hash__(self): return hash(bool(self))
    def __index__(self): return int(bool(self))
class SymI:
    """an integer (unbounded, as Python's) given by a z3 Int term"""
    __slots__ = ("z",)
    def __init__(self, z): self.z = z
    def _b(self, o, f, r=False):
        t = zt(o)
        if t is None: return NotImplemented
        return SymI(z3.simplify(f(t, self.z) if r else f(self.z, t)))
    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    def __radd__(self, o): return self._b(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: a - b, True)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._b(o, lambda a, b: a * b, True)
    def __neg__(self): return SymI(-self.z)
    def __pos__(self): return self
    def __invert__(self): return SymI(z3.simplify(-self.z - 1))
    def bit_length(self):        # of values below 2**80
        a = z3.If(self.z < 0, -self.z, self.z)
        return SymI(z3.Sum([z3.If(a >= 2**k, 1, 0) for k in range(80)]))
    def __abs__(self): return SymI(z3.If(self.z < 0, -self.z, self.z))
    def __floordiv__(self, o): return divmod(self, o)[0]
    def __mod__(self, o): return divmod(self, o)[1]
    def __divmod__(self, o):
        t = zt(o)
        if t is None: return NotImplemented
        if ENG.branch(t == 0): raise ZeroDivisionError
        # z3's div/mod is Euclidean: for negative divisors correct towards Python's floor
        q, m = self.z / t, self.z % t
        fix = z3.And(t < 0, m != 0)
        return SymI(z3.simplify(z3.If(fix, q - 1, q))), SymI(z3.simplify(z3.If(fix, m + t, m)))
    def __rfloordiv__(self, o): return SymI(zt(o)) // self
    def __rmod__(self, o): return SymI(zt(o)) % self
    def _c(self, o, f):
        t = zt(o)
        if t is None: return NotImplemented
        return SymB(f(self.z, t))
    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._c(o, lambda a, b: a == b)
    def __ne__(self, o): return self._c(o, lambda a, b: a != b)
    def __bool__(self): return ENG.branch(self.z != 0)
    def __hash__(self): return hash(ENG.value(self.z))
    def __index__(self): return ENG.value(self.z)
    def __int__(self): return ENG.value(self.z)
    def __float__(self): return float(ENG.value(self.z))
    def _conc(name):
        def f(self, *a):
            return getattr(ENG.value(self.z), name)(*[ENG.value(x.z) if isinstance(x, SymI) else x for x in a])
        return f
    for _n in ("__pow__", "__rpow__", "__lshift__", "__rlshift__", "__rshift__", "__rrshift__", "__and__", "__or__", "__xor__", "__rand__", "__ror__", "__rxor__", "__truediv__", "__rtruediv__"):
        locals()[_n] = _conc(_n)
    def __str__(self): return token(self.z)
    __repr__ = __str__
    def __format__(self, spec): return token(self.z)
TOK = {}
def token(t):
    """text standing for a symbolic integer (texts of different terms differ, also where the values could agree)"""
    t = z3.simplify(t)
    if z3.is_int_value(t): return str(t.as_long())
    k = t.get_id()
    if k not in TOK: TOK[k] = (f"‹{len(TOK)}›", t)
    return TOK[k][0]
