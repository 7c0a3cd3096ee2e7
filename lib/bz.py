"""Typed data expressions (Booleanizer part of a specification): C2PO text and an independent C oracle.
 ('iv',k) ('xv',k) ('pv',k) int/float/bool inputs; ('ic',n) ('fc',v) ('bc',b) constants; ('tau',)
 ('+'|'-'|'*'|'/'|'%'|'&'|'|'|'^'|'pow',a,b) ('neg'|'~'|'abs'|'sqrt',a) ('<'|'<='|'>'|'>='|'=='|'!=',a,b) ('prev',const,a)
 ('sum',kind,n,[bools]): forexactly/foratleast/foratmost over a literal set"""
import random
from logic import *
from monh import *
REL = ("<", "<=", ">", ">=", "==", "!=")
def ty(e):
    o = e[0]
    if o in ("iv", "ic", "tau", "%", "&", "|", "^", "~"): return "i"
    if o in ("xv", "fc", "sqrt"): return "f"
    if o in ("pv", "bc", "sum") or o in REL: return "b"
    if o == "prev": return ty(e[2])
    return ty(e[1])
def subs(e):
    o = e[0]
    if o in ("iv", "xv", "pv", "ic", "fc", "bc", "tau"): return ()
    if o == "prev": return (e[2],)
    if o == "sum": return tuple(e[3])
    return e[1:]
def vars_of(e, out=None):
    out = set() if out is None else out
    if e[0] in ("iv", "xv", "pv"): out.add(e)
    for k in subs(e): vars_of(k, out)
    return out
PRE = {"iv": "i", "xv": "x", "pv": "p"}
def btext(e, name=None):
    name = name or (lambda v: PRE[v[0]] + str(v[1]))
    o = e[0]
    t = lambda k: btext(k, name) if k[0] in ("iv", "xv", "pv", "bc", "tau") or k[0] in ("ic", "fc") and k[1] >= 0 else "(" + btext(k, name) + ")"
    if o in PRE: return name(e)
    if o == "ic": return str(e[1])
    if o == "fc": return fl(e[1])
    if o == "bc": return "true" if e[1] else "false"
    if o == "tau": return "TAU"
    if o == "neg": return "-" + t(e[1])
    if o == "~": return "~" + t(e[1])
    if o in ("abs", "sqrt"): return f"{o}({btext(e[1], name)})"
    if o == "prev": return f"prev({btext(e[1], name)}, {btext(e[2], name)})"
    if o == "sum": return f"{e[1]}(k__: {{{', '.join(btext(k, name) for k in e[3])}}}, {e[2]})(k__)"
    return f"{t(e[1])} {o} {t(e[2])}"
def fl(v):
    s = repr(float(v))
    if "e" in s:
        s = f"{v:.20f}".rstrip("0")
        s += "0" if s.endswith(".") else ""
    return s
CT = {"i": "int32_t", "f": "double", "b": "_Bool"}
ORACLE_H = '''
static int32_t o_div(int32_t a, int32_t b) { return b == -1 ? (int32_t)(0u - (uint32_t)a) : a / b; }
static int32_t o_mod(int32_t a, int32_t b) { return b == -1 ? 0 : a % b; }
static int32_t o_pow(int32_t a, int32_t n) { int32_t r = 1; for (int k = 0; k < n; k++) r = (int32_t)((uint32_t)r * (uint32_t)a); return r; }
static double o_fpow(double a, double n) { extern double pow(double, double); return pow(a, n); }
static _Bool o_feq(double a, double b) { double d = a > b ? a - b : b - a; return d < 0.00001; }
'''
SAT_H = '''
/* the Rust monitor: integer results saturate and the step is flagged */
static int32_t o_sat(int64_t v, _Bool *ov) { if (v > 2147483647) { *ov = 1; return 2147483647; } if (v < -2147483647LL - 1) { *ov = 1; return -2147483647 - 1; } return (int32_t)v; }
static int32_t o_smul(int32_t a, int32_t b, _Bool *ov) { int32_t r; if (__builtin_mul_overflow(a, b, &r)) { *ov = 1; return (a < 0) == (b < 0) ? 2147483647 : -2147483647 - 1; } return r; }
static int32_t o_sdiv(int32_t a, int32_t b, _Bool *ov) { if (b == -1 && a == -2147483647 - 1) { *ov = 1; return 2147483647; } return a / b; }
static int32_t o_spow(int32_t a, int32_t n, _Bool *ov) {
  /* |a| >= 2: once past the range the product stays past it; the sign is that of the whole product */
  if (a >= -1 && a <= 1) return n == 0 ? 1 : a == -1 && !(n & 1) ? 1 : a;
  int64_t r = 1; _Bool big = 0; for (int k = 0; k < n; k++) { if (!big) r *= a; if (r > 2147483648LL || r < -2147483648LL) big = 1; }
  if (big || r == 2147483648LL) { *ov = 1; return a < 0 && (n & 1) ? -2147483647 - 1 : 2147483647; }
  return (int32_t)r; }
static double o_diff(double a, double b) { double d = a - b; d = d < 0 ? -d : d; return d; }
static _Bool o_eq(double a, double b) { return o_diff(a, b) <= 0.00001; }
'''
SAT = False     # which of the two documented behaviours on overflow
def bz_oracle(exprs, T):
    """C text that fills in[t][k] with the value of exprs[k] from iv[t][.], xv[t][.], pv[t][.]; t counts steps from 0"""
    memo, decl, body = {}, [], []
    def go(e):
        key = repr(e)
        if key in memo: return memo[key]
        ks = [go(k) for k in subs(e)]
        n = f"e{len(memo)}"
        memo[key] = n
        o, y = e[0], ty(e)
        decl.append(f"static {CT[y]} {n}[{T}];")
        a, b = [f"{k}[t]" for k in (ks + ["?", "?"])[:2]]
        yo = ty(subs(e)[0]) if subs(e) else None
        if o in PRE: x = f"{o}[t][{e[1]}]"
        elif o == "ic": x = f"(int32_t){e[1]}LL"
        elif o == "fc": x = f"({float(e[1])!r})"
        elif o == "bc": x = str(int(e[1]))
        elif o == "tau": x = "t"
        elif o == "prev": x = f"t == 0 ? {const_c(e[1])} : {ks[0]}[t > 0 ? t - 1 : 0]"
        elif o == "sum":
            c = " + ".join(f"(int){k}[t]" for k in ks)
            x = f"({c}) {dict(forexactly='==', foratleast='>=', foratmost='<=')[e[1]]} {e[2]}"
        elif o in REL:
            if yo == "f" and SAT:
                x = {"==": f"o_eq({a}, {b})", "!=": f"!o_eq({a}, {b})", ">=": f"{a} >= {b} || o_eq({a}, {b})", "<=": f"{a} <= {b} || o_eq({a}, {b})"}.get(o, f"{a} {o} {b} && !o_eq({a}, {b})")
            elif yo == "f":
                x = {"==": f"o_feq({a}, {b})", "!=": f"!o_feq({a}, {b})", ">=": f"{a} >= {b} || o_feq({a}, {b})", "<=": f"{a} <= {b} || o_feq({a}, {b})"}.get(o, f"{a} {o} {b}")
            else: x = f"{a} {o} {b}"
        elif y == "f":
            x = {"neg": f"-{a}", "abs": f"({a} < 0.0 ? -{a} : {a})", "sqrt": f"sqrt({a})", "pow": f"o_fpow({a}, {b})"}.get(o) or f"{a} {o} {b}"
        elif SAT and o not in "&|^~%":
            x = {"neg": f"o_sat(-(int64_t){a}, &ov[t])", "abs": f"o_sat({a} < 0 ? -(int64_t){a} : (int64_t){a}, &ov[t])", "pow": f"o_spow({a}, {b}, &ov[t])", "*": f"o_smul({a}, {b}, &ov[t])", "/": f"o_sdiv({a}, {b}, &ov[t])"}.get(o) or f"o_sat((int64_t){a} {o} (int64_t){b}, &ov[t])"
        else:
            x = {"neg": f"0u - (uint32_t){a}", "abs": f"{a} < 0 ? 0u - (uint32_t){a} : (uint32_t){a}", "~": f"~{a}", "/": f"o_div({a}, {b})", "%": f"o_mod({a}, {b})", "pow": f"o_pow({a}, {b})"}.get(o) or f"(uint32_t){a} {o} (uint32_t){b}"
            x = f"(int32_t)({x})"
        body.append(f"  for (int t = 0; t < {T}; t++) {n}[t] = {x};")
        return n
    roots = [go(e) for e in exprs]
    fill = f"  for (int t = 0; t < {T}; t++) {{ " + " ".join(f"in[t][{k}] = {r}[t];" for k, r in enumerate(roots)) + " }"
    return "\n".join(decl), "\n".join(body) + "\n" + fill
def const_c(c):
    return {"ic": lambda: f"(int32_t){c[1]}LL", "fc": lambda: f"({float(c[1])!r})", "bc": lambda: str(int(c[1]))}[c[0]]()
class Prog:
    """formulas over V(k), where V(k) is the Boolean data expression exprs[k]"""
    def __init__(self, fs, exprs, cols=None, small=None):
        self.fs, self.exprs = fs, exprs
        vs = set()
        used = set()
        def vr(f):
            if f[0] == "v": used.add(f[1])
            for k in kids(f): vr(k)
        for f in fs: vr(f)
        self.used = sorted(used)
        for e in exprs: vars_of(e, vs)
        self.vars = sorted(vs)
        self.names = {v: PRE[v[0]] + str(v[1]) for v in self.vars}
        self.cols = cols or {v: k for k, v in enumerate(self.vars)}
        self.small = small
    def spec(self, labels=None, extra="", defs=False, kinds=None):
        """defs: data expressions go through definitions; kinds: section (f/p) of each formula"""
        d = {"iv": "int", "xv": "float", "pv": "bool"}
        t = "INPUT\n" + "".join(f"  {self.names[v]}: {d[v[0]]};\n" for v in self.vars)
        kind = "PTSPEC" if any(is_pt(f) for f in self.fs) else "FTSPEC"
        nm = ["(" + btext(e) + ")" for e in self.exprs]
        if defs:
            t += "DEFINE\n" + "".join(f"  d{k} := {btext(e)};\n" for k, e in enumerate(self.exprs))
            nm = [f"d{k}" for k in range(len(nm))]
        if kinds:
            for i, f in enumerate(self.fs):
                if i == 0 or kinds[i] != kinds[i - 1]:
                    t += {"f": "FTSPEC\n", "p": "PTSPEC\n"}[kinds[i]]
                t += f"  {text(f, nm)};\n"
            return t
        return t + extra + kind + "\n" + "".join(f"  {labels[i] + ': ' if labels and labels[i] else ''}{text(f, nm)};\n" for i, f in enumerate(self.fs))
    def map(self):
        return "".join(f"{self.names[v]}:{self.cols[v]}\n" for v in self.vars)
    def harness(self, binary, N, gl=None, **kw):
        """gl: (inputs, loads, declarations) instead of every input loaded at every step"""
        hz = max([horizon(f) for f in self.fs] + [0])
        T = N + hz
        cnt = {k: max([v[1] + 1 for v in self.vars if v[0] == k] + [1]) for k in PRE}
        decl, body = bz_oracle(self.exprs, T)
        d = "extern double sqrt(double);\n" + ORACLE_H + (SAT_H + f"static _Bool ov[{T}];\n" if SAT else "") + f"static int32_t iv[{T}][{cnt['iv']}]; static double xv[{T}][{cnt['xv']}]; static _Bool pv[{T}][{cnt['pv']}];\n" + decl
        g = f"  for (int t = 0; t < {T}; t++) {{\n"
        for n, v in enumerate(self.vars):
            idn = f"t * 16 + {n}"
            if v[0] == "iv": g += f"    iv[t][{v[1]}] = {'vs_small(%s, %d, %d)' % (idn, *self.small) if self.small else 'vs_i32(%s)' % idn};\n"
            elif v[0] == "xv": g += f"    xv[t][{v[1]}] = vs_f64({idn}); vs_assume(xv[t][{v[1]}] >= -1e300 && xv[t][{v[1]}] <= 1e300);\n"
            else: g += f"    pv[t][{v[1]}] = vs_bool({idn});\n"
        g = (gl[0] + "\n" if gl else g + "  }\n") + body
        fn = {"iv": "int", "xv": "float", "pv": "bool"}
        loads = "".join(f"    r2u2_load_{fn[v[0]]}_signal(&mon, {self.cols[v]}, {v[0]}[t][{v[1]}]);\n" for v in self.vars)
        if gl: d, loads = d + gl[2], gl[1]
        return monitor_harness(binary, {i: f for i, f in enumerate(self.fs)}, len(self.exprs), N, gen=g, loads=loads, decls=d, **kw)
