import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from mcfam import *
import bz, rsm
from bz import *
from monh import monitor_harness
chk = Check("C26", "other")
chk.cov["explanation"] = ("Compiled specifications run in the symbolically executed real monitors (C, and the Rust core compiled by rustc) whose inputs are given through every loader of the API in schedules that mix loaders, "
    "leave inputs out and write to columns no formula reads; every loaded value is symbolic and z3 decides that the verdicts are those of the documented meaning of the values, an input keeping its last value until it is loaded again.")
quick = TIER != "thorough"
rng = random.Random(SEED * 59 + 26)
CTY = {"b": "_Bool", "i": "int32_t", "f": "double"}
FN = {"b": "bool", "i": "int", "f": "float"}
FS = [[V(0)], [("&", V(0), ("!", V(1)))], [("F", 0, 1, V(0)), ("!", V(1))], [("U", 0, 1, V(0), V(1))], [("O", 0, 1, V(0)), ("S", 0, 1, V(0), V(1))], [("&", ("!", V(0)), V(1), ("!", V(2)))], [("G", 0, 1, ("->", V(0), V(2))), V(1)]]
def nv(f): return max([f[1] + 1] if f[0] == "v" else [nv(k) for k in kids(f)] + [0])
def schedule(N, vs, cols, rust, ty=None):
    """per step a list of load calls (kind letter, first column, [variables or None])"""
    out, at = [], {c: v for v, c in cols.items()}
    for t in range(N):
        s, p = [], rng.choice([.4, .7, 1])
        for v in rng.sample(vs, len(vs)):
            if rng.random() > p: continue
            k = ty[v] if ty else rng.choice("bif")
            c = cols[v]
            if rust and rng.random() < .5:
                # an array of this type: columns c, c+1, ... as far as they hold inputs of the type or nothing
                n = rng.randrange(1, 4)
                xs = []
                for d in range(n):
                    w = at.get(c + d)
                    if w is not None and ty and ty[w] != k: break
                    xs.append(c + d)
                s.append((k, xs, True))
            else: s.append((k, [c], False))
        for _ in range(rng.randrange(2)):
            c = rng.choice([c for c in range(max(cols.values()) + 3) if c not in at])
            s.append((rng.choice("bif"), [c], False))
        if rng.random() < .3: s = s + s[:1]
        out.append(s)
    return out
def harness_parts(N, T, cols, sched, store):
    """store(kind, variable, t, text): C assignment of a loaded value to the oracle's input; returns gen, loads and declarations"""
    at = {c: v for v, c in cols.items()}
    g, l, d, n = [], [], [], 0
    for t in range(T):
        g.append(f"  hold({t});")
        for kind, cs, arr in (sched[t] if t < N else []):
            names = []
            for c in cs:
                x = f"lv{n}"; n += 1
                src = {"b": f"vs_bool({1000 + n})", "i": f"vs_i32({1000 + n})", "f": f"vs_f64({1000 + n})"}[kind]
                g.append(f"  {x} = {src};" + (f" vs_assume({x} >= -1e300 && {x} <= 1e300);" if kind == "f" else ""))
                names.append((CTY[kind], x))
                if c in at: g.append("  " + store(kind, at[c], t, x))
            call = f"{{ {CTY[kind]} ar[] = {{{', '.join(x for _, x in names)}}}; rs_{FN[kind]}_array({cs[0]}, ar, {len(cs)}); }}" if arr else f"r2u2_load_{FN[kind]}_signal(&mon, {cs[0]}, {names[0][1]});"
            l.append(f"    if (t == {t}) {call}")
            d += [f"static {a} {b};" for a, b in names]
        if t >= N: g.append(f"  fresh({t});")
    return "\n".join(g), "\n".join(l) + "\n", RS + "\n".join(d) + "\n"
RS = "extern void rs_bool_array(size_t, const _Bool *, size_t), rs_int_array(size_t, const int32_t *, size_t), rs_float_array(size_t, const double *, size_t);\n"
def show(s): return " | ".join(", ".join(f"{FN[k]}{'s' if a else ''} {cs[0]}" + (f"..{cs[-1]}" if len(cs) > 1 else "") for k, cs, a in st) or "-" for st in s)
def go(j):
    rust, typed, fs, cols, sched, N, extra = j
    nsig = max(map(nv, fs))
    T = N + max(horizon(f) for f in fs)
    if not typed:
        spec = "INPUT " + ", ".join(f"a{v}" for v in range(nsig)) + ": bool;\n" + ("PTSPEC" if any(map(is_pt, fs)) else "FTSPEC") + "\n" + "".join(f"  {text(f, [f'a{v}' for v in range(nsig)])};\n" for f in fs)
        mp = "".join(f"a{v}:{cols[v]}\n" for v in range(nsig))
        def store(k, v, t, x): return f"in[{t}][{v}] = " + {"b": x, "i": f"{x} != 0", "f": f"({x} >= 0.00001 || {x} <= -0.00001)"}[k] + ";"
        hold = f"static void hold(int t) {{ for (int k = 0; k < {nsig}; k++) in[t][k] = t && in[t - (t > 0)][k]; }}\nstatic void fresh(int t) {{ for (int k = 0; k < {nsig}; k++) in[t][k] = vs_bool(t * 16 + k); }}\n"
        g, l, d = harness_parts(N, T, cols, sched, store)
        r = build_spec(spec, None, [], map_text=mp)
        mk = lambda b: monitor_harness(b, dict(enumerate(fs)), nsig, N, gen=g, loads=l, decls=d + hold, order=False)
    else:
        es, ty = extra
        P = Prog(fs, es, cols=cols)
        A = {v: f"{v[0]}[%s][{v[1]}]" for v in P.vars}
        def store(k, v, t, x): return A[v] % t + f" = {x};"
        hold = "static void hold(int t) { " + " ".join(f"{A[v] % 't'} = t ? {A[v] % 't - (t > 0)'} : 0;" for v in P.vars) + " }\nstatic void fresh(int t) { " + " ".join(
            f"{A[v] % 't'} = {dict(pv='vs_bool', iv='vs_i32', xv='vs_f64')[v[0]]}(t * 16 + {n});" for n, v in enumerate(P.vars)) + " }\n"
        g, l, d = harness_parts(N, T, cols, sched, store)
        spec, mp = P.spec(), P.map()
        r = build_spec(spec, None, ["-bz"], map_text=mp)
        mk = lambda b: P.harness(b, N, order=False, gl=(g, l, d + hold))
    key = ("Rust: " if rust else "C: ") + " ".join(spec.split()) + " columns " + ",".join(str(c) for c in cols.values()) + " loads " + show(sched)
    if not r.ok: raise CheckError("rejected: " + key + r.err[-300:])
    decide(chk, key, mk(r.bin), timeout=None if not quick else 40, query_ms=None if not quick else 8000, sample={"formula": key, "steps": N} if len(chk.samples) < 6 else None)
I = [("iv", k) for k in range(3)]; X = [("xv", k) for k in range(3)]; B = [("pv", k) for k in range(3)]
EX = [[(">", I[0], ("ic", 3)), B[0], ("==", I[1], I[0])], [B[0], B[1], (">", X[0], ("fc", 1.5))], [(">=", X[0], ("fc", 2.0)), ("!=", I[0], I[1]), ("<", X[1], ("fc", 0.5))], [("<", X[0], ("fc", 0.0)), ("<=", I[0], ("ic", -1)), B[1]],
      [("==", ("prev", ("ic", 7), I[0]), I[1]), B[0], (">", I[2], ("ic", 0))]]
def jobs(rust, n):
    out = []
    for k in range(n):
        fs, typed, N = FS[k % len(FS)], k // len(FS) % 2 == 1, rng.choice([2, 3, 3, 4])
        if not typed:
            vs, ty, extra = list(range(max(map(nv, fs)))), None, None
        else:
            es = rng.choice(EX)[:max(map(nv, fs))]
            vs = sorted(set().union(*[vars_of(e) for e in es]))
            ty = {v: {"iv": "i", "xv": "f", "pv": "b"}[v[0]] for v in vs}; extra = (es, ty)
        cols = dict(zip(vs, rng.sample(range(len(vs) + rng.choice([0, 2, 9])), len(vs))))
        out.append((rust, typed, fs, cols, schedule(N, vs, cols, rust, ty), N, extra))
    return [j for j in out if os.environ.get("C_ONLY", "") in str(j)][:int(os.environ.get("C_N", 10**6))]
J = jobs(False, 126 if quick else 1500), jobs(True, 126 if quick else 1500)
pmap(guarded(chk, go), J[0])
bz.SAT = True      # the comparison of floats the Rust monitor documents
rsm.use(["-C", "overflow-checks=on"])
pmap(guarded(chk, go), J[1])
chk.assume += ["which loader is called for which input at which step is concrete in each program, chosen at random from the seed; the loaded values are symbolic", "floats are finite with magnitude up to 1e300", "text inputs (load_string_signal) are decided for the C command line in C07"]
chk.finish()
