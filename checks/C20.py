import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from mcfam import *
import mcfam
chk = Check("C20", "other")
chk.cov["explanation"] = ("The real code generator is run on formulas of a family; the C program it writes is symbolically executed (LLVM IR) with every input word symbolic; for every trace of the stated number of words z3 decides that each result word "
    "equals the semantics of the formula at its positions (for the words whose input lies in the trace), that as many words are written as the word delay promises, and that no read or write leaves an array or shift goes out of range.")
quick = TIER != "thorough"
CT = {8: "uint8_t", 16: "uint16_t", 32: "uint32_t", 64: "uint64_t"}
def delay(f, W):        # in words: what the generated program waits for
    u = f[2] if f[0] in FTOPS_ else 0
    return -(-u // W) + max([delay(k, W) for k in kids(f)] + [0])
def bit_oracle(f, T):
    """the semantics, one byte per step, without branches on the trace"""
    memo, decl, body = {}, [], []
    def go(f):
        if f in memo: return memo[f]
        k = [go(x) for x in kids(f)]
        n = memo[f] = f"n{len(memo)}"
        decl.append(f"static uint8_t {n}[{T}];")
        o = f[0]
        if o in FTOPS_:
            st = {"F": "r | {0}[j]", "G": "r & {0}[j]", "U": "{1}[j] | ({0}[j] & r)", "R": "{1}[j] & ({0}[j] | r)"}[o].format(*[x for x in k])
            e = f"uint8_t r = {1 if o in 'GR' else 0}; for (int j = t + {f[2]}; j >= t + {f[1]}; j--) if (j < {T}) r = (uint8_t)({st}); {n}[t] = r;"
        else:
            x = [y + "[t]" for y in k]
            e = f"{n}[t] = (uint8_t)(" + {"v": lambda: f"in[t][{f[1]}]", "t": lambda: "1", "f": lambda: "0", "!": lambda: x[0] + " ^ 1", "&": lambda: " & ".join(x), "|": lambda: " | ".join(x), "^": lambda: " ^ ".join(x),
                "<->": lambda: f"{x[0]} ^ {x[1]} ^ 1", "->": lambda: f"({x[0]} ^ 1) | {x[1]}"}[o]() + ");"
        body.append(f"  for (int t = 0; t < {T}; t++) {{ {e} }}")
        return n
    r = go(f)
    return "\n".join(decl), "\n".join(body), r
FTOPS_ = ("F", "G", "U", "R")
def sigs(f):
    return sorted({g[1] for g in walk(f) if g[0] == "v"})
def harness(code, fs, ids, W, K, nsig=0):
    """ids: index of the input the i-th variable of the formula is; nsig: number of inputs"""
    f = fs
    nsig = nsig or max(ids.values()) + 1
    T = K * W + horizon(f)
    decl, body, roots = bit_oracle(f, T)
    d = delay(f, W)
    return f'''#include "vs.h"
#include <stdio.h>
#include <stdint.h>
#include <string.h>
#include <unistd.h>
#include <stdarg.h>
#include <sys/time.h>
#define K {K}
#define W {W}
typedef {CT[W]} word_t;
static uint8_t in[{T}][{nsig}];
static word_t words[K][{nsig}];
static unsigned rd, out_words;
{decl}
static void show(const char *fmt, int n, uint64_t v) {{
  (void)fmt; (void)n;
  if (out_words >= K) vs_assert(0, "more words written than read");
  word_t e = 0;
  if ((out_words + 1) * W <= K * W) for (int j = 0; j < W; j++) e = (word_t)((e << 1) | {roots}[out_words * W + j]);
  unsigned lost = 0;   /* positions whose horizon leaves the trace are not judged */
  for (int j = 0; j < W; j++) if (out_words * W + j + {horizon(f)} >= K * W) lost++;
  if (lost < W) {{ word_t m = lost ? (word_t)((word_t)~(word_t)0 << lost) : (word_t)~(word_t)0; vs_assert((((word_t)v ^ e) & m) == 0, "result word differs from the semantics"); }}
  else vs_assert(0, "a result is written for positions past the trace");
  out_words++;
}}
static long vs_read(int fd, void *p, unsigned long n) {{
  if (rd >= K * {nsig}) return 0;
  vs_assert(n == sizeof(word_t), "size of a word read");
  *(word_t *)p = words[rd / {nsig}][rd % {nsig}]; rd++;
  return (long)n;
}}
static int vs_scan(int n, int **p) {{
  if (rd >= K * W) return -1;
  vs_assert(n == {nsig}, "number of values read in a step");
  for (int k = 0; k < n; k++) *p[k] = in[rd][k];
  rd++;
  return n;
}}
#define read(fd, p, n) vs_read(fd, (void *)(p), n)
#define fscanf(f, fmt, ...) vs_scan((int)(sizeof((int *[]){{__VA_ARGS__}}) / sizeof(int *)), (int *[]){{__VA_ARGS__}})
#define printf(fmt, ...) show(fmt, (int)(sizeof((uint64_t[]){{__VA_ARGS__}}) / 8), ((uint64_t[]){{__VA_ARGS__}})[0])
#define fprintf(f, fmt, ...) ((void)0)
#define gettimeofday(a, b) memset((a), 0, sizeof(struct timeval))
#define main sabre_main
#pragma GCC diagnostic ignored "-Wall"
{code}
#undef main
int vs_main(void) {{
  for (int w = 0; w < K; w++) for (int k = 0; k < {nsig}; k++) {{
    word_t x = words[w][k] = (word_t)vs_u64(w * {nsig} + k);
    for (int j = 0; j < W; j++) in[w * W + j][k] = (uint8_t)((x >> (W - 1 - j)) & 1);
  }}
{body}
  vs_assert(sabre_main(0, 0) == 0, "exit code");
  vs_assert(out_words >= K - {d}, "fewer words written than the delay in words promises");
  return 0;
}}
'''
PRE = ["type_check", "desugar"]
def go(j):
    f, W, raw, how = j
    nv = max(nvars(f), 1)
    vs = sigs(f)
    names = [f"a{i}" for i in range(nv)]
    opt = f"--word-size {W}" + (" --raw-bytes" if raw else "")
    hh = sum(map(ord, text(f))) + W
    nsig = 0
    if hh % 7 == 0: opt += " --profile"
    if hh % 5 == 0:
        nsig = nv + 1
        opt += f" --nsigs {nsig}"
    if how == "sel": opt += " --formula " + ("1" if hh % 2 else "wanted")
    key = f"{text(f)} {opt} ({how})"
    ids = {v: v for v in range(nv)}
    files = {}
    if how == "mltl":
        if any(g[0] == "^" for g in walk(f)): how, key = "c2po", key.replace("(mltl)", "(c2po)")
        files["s.mltl"] = text(f).replace("&&", "&").replace("||", "|") + "\n"
        cmds = ["parse_mltl s.mltl"]
    if how == "mltl":
        pass
    elif how == "c2po":
        files["s.c2po"] = spec_text([f], nv, "FTSPEC")[0]
        cmds = ["parse_c2po s.c2po"]
    elif how == "sel":      # not the first formula of the specification
        files["s.c2po"] = "INPUT\n  " + ", ".join(names) + f": bool;\nFTSPEC\n  first: G[0,3] (a0 -> F[0,2] a0);\n  wanted: {text(f)};\n  G[0,1] !a0;\n"
        cmds = ["parse_c2po s.c2po"]
    elif how == "map":      # the mapping gives the inputs' columns
        files["s.c2po"] = spec_text([f], nv, "FTSPEC")[0]
        ids = {v: nv - 1 - v for v in range(nv)}
        files["s.map"] = "".join(f"a{v}:{ids[v]}\n" for v in range(nv))
        cmds = ["parse_c2po s.c2po", "parse_map s.map"]
    else:
        nm = ["speed", "b7", "x0", "door1"][:nv]
        files["s.c2po"] = "INPUT\n  " + ", ".join(nm) + ": bool;\nFTSPEC\n  " + text(f, nm) + ";\n"
        files["s.map"] = "".join(f"{n}:{i}\n" for i, n in enumerate(nm))
        cmds = ["parse_c2po s.c2po", "parse_map s.map"]
    extra = ["optimize_cse"] if how == "c2po" else []
    x = c2po(dict(files, **{"s.script": "\n".join(cmds + PRE + extra + [f"generate_sabre_code o.c {opt}"]) + "\n"}), ["-s", "s.script"])
    o = x.dir / "o.c"
    if not o.exists() or not o.read_text().strip():
        if os.environ.get("C_DEBUG"): print(key, (x.err + x.out)[-600:])
        chk.count("not_accepted_by_compiler")
        return
    # every variable a column; columns the formula does not mention come last only if the inputs have them
    d = delay(f, W)
    size = 1 << d.bit_length()
    K = min(d + size + 1, 12 if W == 8 else 7 if W == 16 else 6) if not quick else min(d + size + 1, max(d + 2, 11 if W == 8 else 6 if W == 16 else 4))
    remap = lambda g: ("v", ids[g[1]]) if g[0] == "v" else tuple(remap(y) if isinstance(y, tuple) else y for y in g)
    h = harness(o.read_text(), remap(f), {v: ids[v] for v in vs} or {0: 0}, W, K, nsig)
    res = decide(chk, key, h, with_monitor=False, timeout=60 if quick else 300, sample={"formula": key, "words": K, "steps": K * W} if len(chk.samples) < 8 else None, keyfn=lambda v: key, vflags=["--fold"])
    with chk_lock:
        chk.cov["max_steps"] = max(chk.cov.get("max_steps", 0), K * W)
OPS = [o for o in FTOPS if o != "R"]
rng = random.Random(SEED * 71 + 20)
items = []
# single operators over the boundaries of the word: every way the interval can sit against words
for W in (8, 16, 32, 64):
    B = sorted({0, 1, 2, 3, 5, W // 2 - 1, W // 2, W - 1, W, W + 1, W + W // 2, 2 * W - 1, 2 * W, 2 * W + 1, 3 * W - 1, 3 * W + 2})
    if W == 8: B = sorted(set(B) | set(range(0, 34)))
    iv = [(l, u) for l in B for u in B if l <= u]
    if quick: iv = rng.sample(iv, min(len(iv), {8: 120, 16: 30, 32: 14, 64: 8}[W])) + [(0, 3 * W), (3, W + 3), (W, 2 * W), (W - 1, W - 1)]
    for l, u in iv:
        k = rng.randrange(3)
        for o in range(3):
            if quick and o != k: continue
            if quick and o == 2 and W > 16: l, u = min(l, W + W // 2), min(u, W + W // 2)
            f = (F(l, u, V(0)), G(l, u, V(0)), U(l, u, V(0), V(1)))[o]
            items.append((f, W, rng.random() < .5, rng.choice(["mltl", "c2po"])))
# propositional operators and constants
for f in BOOLS + [("t",), ("f",), A(V(0), ("t",)), G(0, 3, D(V(0), ("f",))), U(1, 4, ("t",), V(0)), V(0), V(1), N(N(V(1))), E(F(0, 3, V(0)), V(1)), X(G(0, 9, V(0)), V(1)), I(V(0), U(0, 9, V(1), V(2)))]:
    for W in (8, 32) if quick else (8, 16, 32, 64):
        items.append((f, W, rng.random() < .5, rng.choice(["mltl", "c2po"])))
# nests
for f in family(SEED + 200, 150 if quick else 1500, 3, 3, OPS, 11, 22):
    items.append((f, 8 if rng.random() < .75 else rng.choice((16, 32, 64)), rng.random() < .5, rng.choice(["mltl", "c2po", "map", "names", "sel"])))
if os.environ.get("C_N"): items = items[:int(os.environ["C_N"])]
if os.environ.get("C_ONLY"): items = [i for i in items if os.environ["C_ONLY"] in text(i[0])]
pmap(guarded(chk, go), items)
chk.assume += ["reads (fscanf, read) and prints of the generated program are replaced by the harness: one word per input and read in raw mode, one value per input and step otherwise, the first step being the word's highest bit",
    "formulas outside what the generator accepts (release, past time, names without a column) are counted, not judged"]
chk.finish()
