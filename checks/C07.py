import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from mcfam import *
chk = Check("C07", "other")
chk.cov["explanation"] = ("Programs over scalar variables, array elements, array slices and struct members are compiled with a map file, a trace header, both, a generated map or numbered atomics; "
    "the real monitor then runs symbolically with one symbolic value per column and step (all columns up to past the last mapped one), and the solver decides that every verdict equals the semantics "
    "of the formula with each variable read from the column its mapping names. For header mappings the same file's rows go through the real CSV reader. Mappings that must be refused have to be refused.")
quick = TIER != "thorough"
rng = random.Random(SEED * 17 + 7)
CSV = HEAD + r'''
#include <stdio.h>
#include "cli/csv_trace.h"
static char LINES[16][256]; static int vs_next, vs_have;
char *fgets(char *s, int n, FILE *f) {
  if (vs_next >= vs_have) return 0;
  int i = 0;
  for (; i < n - 1 && LINES[vs_next][i]; i++) s[i] = LINES[vs_next][i];
  s[i] = 0; vs_next++;
  return s;
}
static r2u2_csv_reader_t rd;
'''
def fsub(f, m):
    return V(m[f[1]]) if f[0] == "v" else tuple(fsub(x, m) if isinstance(x, tuple) else x for x in f)
jobs = []
# a job: declarations, formula texts given names, {name: column} expected, map text / header, options
def names_of(kind):
    """(declaration text, list of the names as they appear in maps and formulas)"""
    if kind == "scalar": return "INPUT a,b,c,d: TYPE;\n", ["a", "b", "c", "d"]
    if kind == "array": return "INPUT A: TYPE[4];\n", [f"A[{i}]" for i in range(4)]
    if kind == "mixed": return "INPUT a: TYPE; A: TYPE[2]; z_1: TYPE;\n", ["a", "A[0]", "A[1]", "z_1"]
def map_lines(kind, names, style):
    """returns (map text, {name: column})"""
    cols = {}
    if style == "perm": o = list(range(4)); rng.shuffle(o); cols = dict(zip(names, o))
    elif style == "sparse": cols = dict(zip(names, rng.sample(range(0, 14), 4)))
    elif style == "same": cols = dict(zip(names, [rng.randrange(0, 3) for _ in names]))
    elif style == "big": cols = dict(zip(names, rng.sample([0, 3, 17, 40, 63], 4)))
    elif style in ("slice", "slices", "overlap"):
        base = rng.choice([0, 1, 5])
        if kind == "array":
            if style == "slice": return f"A[0..3]:{base}\n", {f"A[{i}]": base + i for i in range(4)}
            if style == "slices": return f"A[2..3]:{base}\nA[0..1]:{base + 4}\n", {"A[0]": base + 4, "A[1]": base + 5, "A[2]": base, "A[3]": base + 1}
            return f"A[0..3]:{base}\nA[1..2]:{base + 7}\n", {"A[0]": base, "A[1]": base + 7, "A[2]": base + 8, "A[3]": base + 3}
        return f"z_1:{base + 9}\nA[0..1] : {base}\na : {base + 1}\n", {"a": base + 1, "A[0]": base, "A[1]": base + 1, "z_1": base + 9}
    ls = []
    for n in rng.sample(names, 4):
        if rng.random() < .3: ls.append(f"{n}:{rng.randrange(0, 9)}")  # an earlier line for the same symbol
        if rng.random() < .3: ls.append(f"unused{len(ls)}:{rng.randrange(0, 9)}")
        ls.append(rng.choice(["{n}:{c}", "{n} : {c}", " {n}: {c} ", "{n}:0{c}", "\t{n} :\t{c}"]).format(n=n, c=cols[n]))
    # the latest line for a symbol wins
    return "\n".join(ls) + rng.choice(["\n", ""]), cols
FS = lambda: [rng.choice(["ft", "pt"])]
def formulas():
    k = rng.random()
    if k < .5: return [V(0), V(1), V(2), V(3)]
    fam = family(rng.randrange(1 << 30), 6, 2, 4, FTOPS if k < .75 else PTOPS, 2, 3)
    return fam[:2] + [A(A(V(0), N(V(1))), D(V(2), V(3)))]
nrep = 8 if quick else 25
for rep in range(nrep):
    for kind in ("scalar", "array", "mixed"):
        _, nm = names_of(kind)
        for style in ("perm", "sparse", "same", "big", "slice", "slices", "overlap"):
            if style.startswith(("slice", "over")) and kind == "scalar": continue
            m, cols = map_lines(kind, nm, style)
            jobs.append(("map", kind, cols, m, None, rng.choice([(), ("-bz",), ("-bz", "int"), ("--no-cse",), ("-bz", "--no-cse")]), formulas()))
        hd = list(nm) + [f"x{i}" for i in range(rng.randrange(0, 4))]
        rng.shuffle(hd)
        if rep % 2: hd.insert(0, rng.choice(nm))  # the right-most of a repeated column counts
        cols = {n: max(i for i, h in enumerate(hd) if h == n) for n in nm}
        head = rng.choice(["#", "# "]) + rng.choice([",", ", ", " ,"]).join(hd)
        jobs.append(("header", kind, cols, None, (head, len(hd)), rng.choice([(), ("-bz",), ("-bz", "int")]), formulas()))
        m, cols = map_lines(kind, nm, "sparse")
        jobs.append(("both", kind, cols, m, (head, len(hd)), rng.choice([(), ("-bz",)]), formulas()))
        jobs.append(("gen", kind, None, None, None, rng.choice([(), ("-bz",)]), formulas()))
for rep in range(8 if quick else 60):
    jobs.append(("mltl", None, None, None, None, (), [fsub(f, {k: c for k, c in enumerate(rng.sample(range(12), 4))}) for f in [V(0), V(1)] + [f for f in family(rng.randrange(1 << 30), 8, 2, 4, FTOPS if rep % 3 else PTOPS, 2, 3) if '^' not in str(f)][:3]]))
def show(f, nm, ints):
    return text(f, [f"({n} > 0)" for n in nm] if ints else nm)
def go(j):
    how, kind, cols, m, header, opts, fs = j
    ints = "int" in opts
    opts = [o for o in opts if o != "int"]
    if how == "mltl":
        t = "".join(text(f, [f"a{i}" for i in range(16)]) + "\n" for f in fs)
        t = t.replace("&&", "&").replace("||", "|")
        r = build_spec(t, ext=".mltl")
        key, full = "numbered atomics: " + "; ".join(t.split("\n")), fs
        ncols = nvars(("and",) + tuple(fs)) if False else max(nvars(f) for f in fs)
    else:
        decl, nm = names_of(kind)
        pt = any(is_pt(f) for f in fs)
        t = decl.replace("TYPE", "int" if ints else "bool") + ("PTSPEC\n" if pt else "FTSPEC\n") + "".join(f"  {show(f, nm, ints)};\n" for f in fs)
        key = f"{how} {kind} {m!r} {header} {' '.join(opts)}{' int' if ints else ''}: " + "; ".join(show(f, nm, ints) for f in fs)
        if how == "gen":
            sc = ("enable_booleanizer\n" if "-bz" in opts else "") + "parse_c2po s.c2po\ntype_check\ndesugar\ngenerate_map --output g.map\nmulti_operators_to_binary\nremove_extended_operators\nassemble --no-aux s.bin\nwrite_bounds_c b.h\n"
            r = c2po({"s.c2po": t, "s.script": sc}, ["-s", "s.script"])
            b = r.dir / "s.bin"
            r.bin = b.read_bytes() if b.exists() else None; r.bounds = (r.dir / "b.h").read_text() if (r.dir / "b.h").exists() else None
            r.ok = r.rc == 0 and r.bin is not None and (r.dir / "g.map").exists()
            if r.ok: cols = {l.split(":")[0]: int(l.split(":")[1]) for l in (r.dir / "g.map").read_text().split()}
        elif header:
            files = {"s.c2po": t, "t.csv": header[0] + "\n" + ",".join(["0"] * header[1]) + "\n"}
            argv = ["--spec", "s.c2po", "--trace", "t.csv"]
            if m is not None: files["s.map"] = m; argv += ["--map", "s.map"]
            r = c2po(files, argv + ["-o", "s.bin", "--write-bounds", "b.h"] + opts)
            b = r.dir / "s.bin"
            r.bin = b.read_bytes() if b.exists() else None; r.bounds = (r.dir / "b.h").read_text() if r.bin else None
            r.ok = r.rc == 0 and r.bin is not None
        else:
            r = build_spec(t, None, opts, map_text=m)
        if r.ok and any(n not in cols for n in nm):
            chk.violation(key, "a variable has no line in the generated map", r.dir); return
        full = [fsub(f, {i: cols[n] for i, n in enumerate(nm)}) for f in fs] if cols else fs
        ncols = max(cols.values()) + 2 if cols else 0
    if not r.ok and "found constant formula" in r.err: chk.count("constant_formula"); return
    if not r.ok:
        chk.violation(key, "a program with a complete, well-formed mapping is refused: " + r.err.strip()[-200:], r.dir)
        return
    N = steps_for(full, 3, 4, 8)
    used = sorted({v for f in full for v in vars_of(f)})
    cmap = {c: i for i, c in enumerate(used)}
    small = [fsub(f, cmap) for f in full]
    # columns nobody is mapped to get symbolic values of their own (they must not matter)
    other = [c for c in range(min(ncols, 12)) if c not in cmap]
    hz = max([horizon(f) for f in small] + [0]); T = N + hz
    nv = len(used)
    gen = f"  for (int t = 0; t < {T}; t++) for (int k = 0; k < {nv}; k++) in[t][k] = vs_bool(t * {nv} + k);"
    val = lambda e: f"({e} ? 5 : -3)" if ints else e
    ld = "r2u2_load_int_signal" if ints else "r2u2_load_bool_signal"
    decls, pre, cli = "", "", False
    if how == "header":
        cli = True
        n = header[1]
        rows = "".join(f"    LINES[t + 1][{2 * c}] = {val(f'in[t][{cmap[c]}]') if c in cmap else val(f'vs_bool(9000 + t * 40 + {c})')} + '0'; LINES[t + 1][{2 * c + 1}] = '{',' if c < n - 1 else chr(92) + 'n'}';\n" for c in range(n)) if not ints else \
               "".join(f"    {{ _Bool b = {f'in[t][{cmap[c]}]' if c in cmap else f'vs_bool(9000 + t * 40 + {c})'}; LINES[t + 1][{3 * c}] = b ? ' ' : '-'; LINES[t + 1][{3 * c + 1}] = b ? '5' : '3'; LINES[t + 1][{3 * c + 2}] = '{',' if c < n - 1 else chr(92) + 'n'}'; }}\n" for c in range(n))
        pre = "{ static const char H[] = \"" + header[0] + "\\n\"; for (int k = 0; H[k]; k++) LINES[0][k] = H[k]; }\n  vs_have = " + str(N + 1) + f";\n  for (int t = 0; t < {N}; t++) {{\n{rows}  }}\n"
        loads = '    vs_assert(r2u2_csv_load_next_signals(&rd, &mon) == R2U2_OK, "a row is read");\n'
    else:
        loads = "".join(f"    {ld}(&mon, {c}, {val(f'in[t][{cmap[c]}]') if c in cmap else val(f'vs_bool(9000 + t * 40 + {c})')});\n" for c in sorted(used + other))
    h = monitor_harness(r.bin, {i: f for i, f in enumerate(small)}, nv, N, timely=False, order=False, gen=gen, loads=loads, pre=pre)
    if how == "header": h = h.replace(HEAD, CSV, 1)
    # columns past what the bounds reserve cannot be loaded: only default bounds here
    decide(chk, key, h, cli=cli, sample={"mapping": key} if len(chk.samples) < 8 else None)
def vars_of(f):
    return {f[1]} if f[0] == "v" else set().union(*[vars_of(x) for x in f if isinstance(x, tuple)]) if isinstance(f, tuple) else set()
pmap(guarded(chk, go), jobs)
# what must be refused: unmapped variables and ill-formed mappings
D, F = "INPUT a,b: bool; A: bool[3];\n", "FTSPEC\n a && b && A[0] && A[2];\n"
BAD = [("unmapped variable", "a:0\nA[0..2]:4\n"), ("unmapped array element", "a:0\nb:1\nA[0..1]:4\n"), ("empty map", ""), ("no numeral", "a:0\nb:x\nA[0..2]:4\n"), ("negative index", "a:0\nb:-1\nA[0..2]:4\n"),
       ("no colon", "a 0\nb:1\nA[0..2]:4\n"), ("two colons", "a:0:1\nb:1\nA[0..2]:4\n"), ("fraction", "a:0.5\nb:1\nA[0..2]:4\n"), ("prefix of a name", "a:0\nbb:1\nA[0..2]:4\n"), ("different case", "a:0\nB:1\nA[0..2]:4\n"), ("reversed slice", "a:0\nb:1\nA[2..0]:4\n")]
for what, m in BAD:
    for o in ([], ["-bz"]):
        r = build_spec(D + F, None, o, map_text=m)
        chk.count("mappings_refused")
        if r.ok: chk.violation(f"{what} {' '.join(o)}: {m!r}", "a specification with this mapping is accepted", r.dir)
for what, hd in (("unmapped variable in header", "# a,A[0],A[1],A[2]"), ("empty header", "#"), ("header missing an element", "# a,b,A[0],A[1]")):
    for o in ([], ["-bz"]):
        r = c2po({"s.c2po": D + F, "t.csv": hd + "\n1,1,1,1,1\n"}, ["--spec", "s.c2po", "--trace", "t.csv", "-o", "s.bin"] + o)
        chk.count("mappings_refused")
        if r.rc == 0 and (r.dir / "s.bin").exists(): chk.violation(f"{what} {' '.join(o)}", "a specification with this header is accepted", r.dir)
chk.assume += ["default bounds (R2U2_MAX_SIGNALS etc. at 256); generated bounds are C05's", "mappings of the seeded families; traces of 3-8 steps"]
chk.finish()
