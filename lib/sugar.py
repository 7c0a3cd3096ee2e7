"""Random specifications that use definitions, labels, structs, enums, arrays, slices and set aggregations, each together with
the plain formula it has to mean (formula tuples over data expressions, see logic.py and bz.py)."""
from mcfam import *
from bz import *
NAME = {**{("pv", k): f"p{k}" for k in range(3)}, **{("pv", 3 + k): f"Q[{k}]" for k in range(3)}, **{("iv", k): f"i{k}" for k in range(3)}, **{("iv", 3 + k): f"A[{k}]" for k in range(3)}, ("xv", 0): "x0", ("xv", 1): "x1", ("iv", 6): "e0", ("iv", 7): "e1"}
COL = {v: k for k, v in enumerate(NAME)}
class Sugar:
    def __init__(self, rng, bz, feats=None, temporal_defs=False):
        self.r, self.bz = rng, bz
        self.structs, self.enums, self.defs, self.members = [], [], [], []
        self.scope = {"b": [], "i": [], "f": []}      # (text, value)
        self.arrays = {"b": [], "i": []}              # (text, [values])
        self.objs, self.oarrays = [], []              # (text, value), (text, [values]); a struct value maps members to (type, values)
        self.exprs = []
        self.n = 0
        self.used = set()
        sc = self.scope
        sc["b"] += [(f"p{k}", self.leaf(("pv", k))) for k in range(3)]
        self.arrays["b"].append(("Q", [self.leaf(("pv", 3 + k)) for k in range(3)]))
        self.inputs = "INPUT\n  p0,p1,p2: bool;\n  Q: bool[3];\n"
        if bz:
            sc["i"] += [(f"i{k}", ("iv", k)) for k in range(3)]
            sc["f"] += [(f"x{k}", ("xv", k)) for k in range(2)]
            self.arrays["i"].append(("A", [("iv", 3 + k) for k in range(3)]))
            self.inputs += "  i0,i1,i2: int;\n  A: int[3];\n  x0,x1: float;\n"
        self.feats = feats or ["struct", "enum", "array", "def", "agg", "count", "slice", "cmp", "label", "nest", "contract"]
    def new(self, p):
        self.n += 1
        return f"{p}{self.n}"
    def leaf(self, e):
        return ("d", e)
    def pick(self, ty): return self.r.choice(self.scope[ty])
    def num(self, ty, d):
        """numeric data expression"""
        r = self.r
        k = r.random()
        if d <= 0 or k < .45:
            if r.random() < .25:
                v = r.randrange(-3, 12) if ty == "i" else r.randrange(-20, 20) / 4
                return (str(v) if v >= 0 else f"({v})", ("ic", v) if ty == "i" else ("fc", v))
            return self.pick(ty)
        if ty == "i" and k < .6 and self.arrays["i"]:
            t, vs = r.choice(self.arrays["i"]); n = r.randrange(len(vs))
            return (f"{t}[{n}]", vs[n])
        a, b = self.num(ty, d - 1), self.num(ty, d - 1)
        o = r.choice(["+", "-"])
        return (f"({a[0]} {o} {b[0]})", (o, a[1], b[1]))
    def data(self, d):
        """Boolean data expression (computed by the Booleanizer): (text, data expression)"""
        r = self.r
        if self.members and r.random() < .3:
            n, v, ms = r.choice(self.members)
            (m, c), (m2, c2) = r.choice(ms), r.choice(ms)
            a = (n, v) if r.random() < .7 else (f"prev({m}, {n})", ("prev", ("ic", c), v))
            b = (m2, ("ic", c2)) if r.random() < .85 else (n, v)
            if r.random() < .3: a, b = b, a
            o = r.choice(["==", "==", "!=", "<", ">="])
            return (f"({a[0]} {o} {b[0]})", (o, a[1], b[1]))
        ty = r.choice("iif")
        a, b = self.num(ty, d), self.num(ty, d)
        o = r.choice(["<", "<=", ">", ">=", "==", "!="])
        return (f"({a[0]} {o} {b[0]})", (o, a[1], b[1]))
    def boolean(self, d, tk=None):
        """formula: (text, formula over ('d', data expression))"""
        r = self.r
        k = r.random()
        if d <= 0 or k < .2:
            if self.bz and r.random() < .5:
                t, e = self.data(1); return (t, ("d", e))
            return self.pick("b")
        if k < .3 and "array" in self.feats and self.arrays["b"]:
            t, vs = r.choice(self.arrays["b"]); n = r.randrange(len(vs)); return (f"{t}[{n}]", vs[n])
        if k < .42 and "agg" in self.feats: return self.agg(d, tk)
        if k < .5 and "count" in self.feats and self.bz: return self.count(d)
        if k < .57 and "cmp" in self.feats and self.bz: return self.cmp()
        if k < .72 and tk:
            lb = r.randrange(0, 2); ub = lb + r.randrange(0, 2)
            un, bi = (("F", "G"), ("U", "R")) if tk == "f" else (("O", "H"), ("S",))
            a = self.boolean(d - 1, tk)
            if r.random() < .6:
                o = r.choice(un); return (f"({o}[{lb},{ub}] {a[0]})", (o, lb, ub, a[1]))
            b = self.boolean(d - 1, tk); o = r.choice(bi); return (f"({a[0]} {o}[{lb},{ub}] {b[0]})", (o, lb, ub, a[1], b[1]))
        a = self.boolean(d - 1, tk)
        if r.random() < .2: return (f"(!{a[0]})", N(a[1]))
        b = self.boolean(d - 1, tk); o = r.choice(["&&", "||", "->", "<->", "xor"])
        return (f"({a[0]} {o} {b[0]})", ({"&&": "&", "||": "|", "->": "->", "<->": "<->", "xor": "^"}[o], a[1], b[1]))
    def theset(self):
        """(text, type, member values)"""
        r = self.r
        if r.random() < .3 and (self.oarrays or self.objs):
            if self.oarrays and r.random() < .7:
                t, vs = r.choice(self.oarrays)
                if "slice" in self.feats and r.random() < .3:
                    l = r.randrange(len(vs)); h = r.randrange(l, len(vs))
                    return (f"{t}[{l}..{h}]", "s", vs[l:h + 1])
                return (t, "s", vs)
            first = r.choice(self.objs)
            os = [first] + [r.choice([o for o in self.objs if o[1]["type"] == first[1]["type"]]) for _ in range(r.randrange(0, 3))]
            return ("{" + ", ".join(o[0] for o in os) + "}", "s", [o[1] for o in os])
        ty = r.choice("bbi" if self.bz else "b")
        if r.random() < .5 and self.arrays[ty]:
            t, vs = r.choice(self.arrays[ty])
            if "slice" in self.feats and r.random() < .5:
                l = r.randrange(len(vs)); h = r.randrange(l, len(vs))
                return (f"{t}[{l}..{h}]", ty, vs[l:h + 1])
            return (t, ty, vs)
        ms = [self.num("i", 1) if ty == "i" else self.pick("b") for _ in range(r.randrange(1, 4))]
        return ("{" + ", ".join(m[0] for m in ms) + "}", ty, [m[1] for m in ms])
    def members_of(self, t, shape, path, leaf):
        """what the members of the struct at text t offer to the scope"""
        for m, x in shape.items():
            if m == "type": continue
            ty, val = x
            q = f"{t}.{m}"
            if ty == "S":
                self.oarrays.append((q, [leaf_struct(x, path + (m, k), leaf) for k, x in enumerate(val)]))
                for k, x in enumerate(val): self.members_of(f"{q}[{k}]", x, path + (m, k), leaf)
            elif isinstance(val, list): self.arrays[ty].append((q, [leaf(path + (m, k), x) for k, x in enumerate(val)]))
            else: self.scope[ty] += [(q, leaf(path + (m,), val))] * (3 if path and path[0] == "@" else 1)
    def body(self, ty, vs, d, tk, data=False):
        """text with the bound variable, and the function from a member's value to the meaning"""
        v = self.new("k")
        mark = ("bound", v)
        keep = ({k: list(x) for k, x in self.scope.items()}, {k: list(x) for k, x in self.arrays.items()}, list(self.objs), list(self.oarrays))
        if ty == "s": self.members_of(v, vs[0], ("@",), lambda path, x: mark + path[1:])
        else: self.scope[ty] = [(v, mark)] * 6 + self.scope[ty][:]
        if data:
            a, b = (v, mark) if ty == "i" else self.num("i", 1), self.num("i", 1)
            o = self.r.choice(["<", ">", "==", ">="]); out = (f"({a[0]} {o} {b[0]})", ("d", (o, a[1], b[1])))
            if ty == "b": out = (v, mark)
        elif ty == "i":
            b = self.num("i", 1); o = self.r.choice(["<", ">", "!="])
            out = (f"({v} {o} {b[0]})", ("d", (o, mark, b[1])))
            if d > 0:
                c = self.boolean(d - 1, tk); q = self.r.choice(["&&", "||"])
                out = (f"({out[0]} {q} {c[0]})", ({"&&": "&", "||": "|"}[q], out[1], c[1]))
        else: out = self.boolean(d if ty == "b" else max(d, 1), tk)
        self.scope, self.arrays, self.objs, self.oarrays = keep
        return v, out[0], lambda m: put(out[1], v, m)
    def agg(self, d, tk):
        ts, ty, vs = self.theset()
        v, tb, fn = self.body(ty, vs, d - 1, tk)
        o = self.r.choice(["foreach", "forsome"])
        fs = [fn(m) for m in vs]
        f = fs[0] if len(fs) == 1 else ({"foreach": "&", "forsome": "|"}[o],) + tuple(fs)
        return (f"{o}({v}: {ts})({tb})", f)
    def count(self, d):
        ts, ty, vs = self.theset()
        if ty == "b" and any(m[0] not in ("d", "bound") for m in vs): return self.pick("b")
        v, tb, fn = self.body(ty, vs, 0, None, data=True)
        o = self.r.choice(["forexactly", "foratleast", "foratmost"])
        n = self.r.randrange(0, len(vs) + 1)
        es = [fn(m)[1] for m in vs]
        return (f"{o}({v}: {ts}, {n})({tb})", ("d", ("sum", o, n, es)))
    def cmp(self):
        r = self.r
        def arr():
            t, vs = r.choice(self.arrays["i"])
            return (t, vs)
        a, b = arr(), arr()
        n = r.randrange(1, min(len(a[1]), len(b[1])) + 1)
        def cut(t, vs):
            l = r.randrange(0, len(vs) - n + 1)
            return (t if n == len(vs) else f"{t}[{l}..{l + n - 1}]", vs[l:l + n])
        a, b = cut(*a), cut(*b)
        o = r.choice(["==", "<", ">", "<=", ">="])
        fs = [("d", (o, x, y)) for x, y in zip(a[1], b[1])]
        return (f"({a[0]} {o} {b[0]})", fs[0] if len(fs) == 1 else ("&",) + tuple(fs))
    def declare(self, tk_defs=None):
        r = self.r
        defs = []
        if "enum" in self.feats and self.bz:
            for k in range(r.randrange(1, 3)):
                e = self.new("E"); ms = [f"M{j}" for j in r.sample(range(4), r.randrange(1, 4))]
                explicit = r.random() < .5
                vals = r.sample(range(0, 9), len(ms)) if explicit else list(range(len(ms)))
                self.enums.append(f"  {e}: {{{', '.join(f'{m}: {v}' if explicit else m for m, v in zip(ms, vals))}}};\n")
                self.inputs += f"  e{k}: {e};\n"
                self.members.append((f"e{k}", ("iv", 6 + k), list(zip(ms, vals))))
        if "struct" in self.feats:
            ty_ = {"b": "bool", "i": "int", "f": "float"}
            made = []
            for _ in range(r.randrange(1, 3)):
                s = self.new("S"); ms = []
                for k in range(r.randrange(1, 4)):
                    ty = r.choice("bbif" if self.bz else "b"); arr = r.random() < .25 and ty != "f"
                    ms.append((f"m{(3 - k, k)[len(self.structs) % 2]}", ty, arr))
                self.structs.append(f"  {s}: {{ " + " ".join(f"{m}: {ty_[ty]}{r.choice(['[2]', '[]']) if arr else ''};" for m, ty, arr in ms) + " };\n")
                for _ in range(r.randrange(1, 3)):
                    v = self.new("s"); args = []
                    val = {"type": s}
                    for m, ty, arr in ms:
                        if arr:
                            if r.random() < .3 and [x for x in self.arrays[ty] if len(x[1]) == 2]:
                                t, xs = r.choice([x for x in self.arrays[ty] if len(x[1]) == 2])
                                args.append(t); val[m] = (ty, xs); continue
                            xs = [self.pick(ty) for _ in range(2)]
                            args.append("{" + ", ".join(x[0] for x in xs) + "}"); val[m] = (ty, [x[1] for x in xs])
                        else:
                            x = self.boolean(1, None) if ty == "b" else self.num(ty, 1)
                            args.append(x[0]); val[m] = (ty, x[1])
                    defs.append(f"  {v} := {s}({', '.join(args)});\n")
                    self.objs.append((v, val)); made.append((v, val))
                    self.members_of(v, val, (), lambda path, x: x)
            if "nest" in self.feats and r.random() < .6:
                # a struct with an array of structs, and an array of those
                s0 = r.choice(made)[1]["type"]; pool = [o for o in made if o[1]["type"] == s0]
                s = self.new("S"); cs = []
                self.structs.append(f"  {s}: {{ ar: {s0}[]; w: bool; }};\n")
                for _ in range(r.randrange(1, 3)):
                    v = self.new("c"); os = [r.choice(pool) for _ in range(2)]; w = self.pick("b")
                    val = {"type": s, "ar": ("S", [o[1] for o in os]), "w": ("b", w[1])}
                    defs.append(f"  {v} := {s}({{{', '.join(o[0] for o in os)}}}, {w[0]});\n")
                    self.objs.append((v, val)); cs.append((v, val)); self.members_of(v, val, (), lambda path, x: x)
                if r.random() < .6:
                    v = self.new("a"); os = [r.choice(cs) for _ in range(r.randrange(1, 3))]
                    defs.append(f"  {v} := {{{', '.join(o[0] for o in os)}}};\n"); self.oarrays.append((v, [o[1] for o in os]))
                    for k, o in enumerate(os): self.members_of(f"{v}[{k}]", o[1], (), lambda path, x: x)
        if "def" in self.feats:
            for _ in range(r.randrange(1, 4)):
                v = self.new("d"); k = r.random()
                if k < .25 and "array" in self.feats:
                    ty = r.choice("bi" if self.bz else "b")
                    xs = [self.num("i", 1) if ty == "i" else self.boolean(1, None) for _ in range(r.randrange(1, 4))]
                    defs.append(f"  {v} := {{{', '.join(x[0] for x in xs)}}};\n"); self.arrays[ty].append((v, [x[1] for x in xs]))
                elif k < .5 and self.bz:
                    ty = r.choice("if"); x = self.num(ty, 2); defs.append(f"  {v} := {x[0]};\n"); self.scope[ty].append((v, x[1]))
                else:
                    x = self.boolean(2, tk_defs); defs.append(f"  {v} := {x[0]};\n"); self.scope["b"].append((v, x[1]))
        self.defs = defs
    def make(self, tk, nf, depth=3):
        self.declare()
        out, lines = [], []
        for k in range(nf):
            t, f = self.boolean(depth, tk)
            if "contract" in self.feats and self.r.random() < .3:
                g = self.boolean(depth - 1, tk)
                lines.append(f"  {self.new('f')}: {t} => {g[0]};\n"); out += [f, I(f, g[1]), A(f, g[1])]
                continue
            lab = self.new("f") if "label" in self.feats and self.r.random() < .5 else None
            lines.append(f"  {lab + ': ' if lab else ''}{t};\n")
            out.append(f)
            if lab: self.scope["b"] += [(lab, f)] * 2
        body = ("STRUCT\n" + "".join(self.structs) if self.structs else "") + ("ENUM\n" + "".join(self.enums) if self.enums else "") + self.inputs
        body += ("DEFINE\n" + "".join(self.defs) if self.defs else "") + ("FTSPEC\n" if tk == "f" else "PTSPEC\n") + "".join(lines)
        self.text, self.fs = body, [self.close(f) for f in out]
        self.prog = Prog(self.fs, self.exprs or [("pv", 0)], cols=COL)
        self.prog.names = NAME
        return self
    def close(self, f):
        if f[0] == "d":
            if f[1] not in self.exprs: self.exprs.append(f[1])
            return V(self.exprs.index(f[1]))
        return tuple(self.close(x) if isinstance(x, tuple) else x for x in f)
    def map(self):
        return "".join(f"{n}:{COL[v]}\n" for v, n in NAME.items() if (self.bz or v[0] == "pv") and (v not in (("iv", 6), ("iv", 7)) or any(m[1] == v for m in self.members)))
def leaf_struct(x, path, leaf):
    return {m: z if m == "type" else (z[0], [leaf_struct(y, path + (m, k), leaf) for k, y in enumerate(z[1])]) if z[0] == "S" else
            (z[0], [leaf(path + (m, k), y) for k, y in enumerate(z[1])]) if isinstance(z[1], list) else (z[0], leaf(path + (m,), z[1])) for m, z in x.items()}
def get(m, path):
    for p in path:
        m = m[p][1] if isinstance(p, str) else m[p]
    return m
def put(f, v, m):
    """f with the bound variable v replaced by a member's value"""
    if f[0] == "bound": return get(m, f[2:]) if f[1] == v else f
    if f[0] == "d": return ("d", put_e(f[1], v, m))
    return tuple(put(x, v, m) if isinstance(x, tuple) else x for x in f)
def put_e(e, v, m):
    if e[0] == "bound":
        if e[1] != v: return e
        x = get(m, e[2:])
        return x[1] if x[0] == "d" else x      # inside a data expression a Boolean member is its data expression
    return tuple(put_e(x, v, m) if isinstance(x, tuple) else [put_e(y, v, m) for y in x] if isinstance(x, list) else x for x in e)
