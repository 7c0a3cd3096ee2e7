import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from mcfam import *
chk = Check("C08", "other")
chk.cov["explanation"] = ("Programs with labelled formulas and assume-guarantee contracts are compiled and run in the symbolically executed real C monitor (reports enabled, default and generated "
    "bounds) over every trace of the stated length; every text the monitor can print reaches the harness, and z3 decides that at every step each contract is reported inactive, invalid or "
    "verified exactly when its assumption and guarantee say so at the reported time, and each formula line carries the right label and verdict. Counterexamples are replayed natively.")
quick = TIER != "thorough"
rng = random.Random(SEED * 17 + 8)
AUX = ["-DR2U2_AUX_STRING_SPECS=1"]
NAMES = ["c", "contract", "contract_with_a_long_name_01234567", "C", "Fc", "agc_1", "x", "cc", "c1", "c10"]
def st(d=1):
    return rng.choice([V(0), V(1), V(2), N(V(0))] + family(rng.randrange(1 << 30), 3, d, 3, rng.choice([FTOPS, FTOPS]), 2, 3))
def harness(binary, cs, forms, N_, order):
    """cs: [(name, assumption, guarantee, first number)]; forms: [(label or None, formula, number)]"""
    nums = {}
    for n, a, b, k in cs:
        nums[k], nums[k + 1], nums[k + 2] = a, I(a, b), A(a, b)
    for l, f, k in forms: nums[k] = f
    nv = max([nvars(f) for f in nums.values()] + [1])
    h = monitor_harness(binary, nums, nv, N_, timely=False, order=False, decls='''
static unsigned trig[64][3], rep[64][3]; static unsigned long trigt[64][3], rept[64][3];
static unsigned fl[64][2], cl[64][2]; static unsigned long flt[64][2], clt[64][2];
''' + f'static const char *CN[] = {{{",".join(chr(34) + c[0] + chr(34) for c in cs) or "0"}}};\nstatic const char *FN[] = {{{",".join(chr(34) + (f[0] or "") + chr(34) for f in forms) or "0"}}};\n' + '''
static const char *after(const char *s, const char *pre) { while (*pre) { if (*s != *pre) return 0; s++; pre++; } return s; }
static const char *num(const char *s, unsigned *v) { *v = 0; if (*s < '0' || *s > '9') return 0; while (*s >= '0' && *s <= '9') *v = *v * 10 + (*s++ - '0'); return s; }
void vs_on_output(const char *s) {
  unsigned v; const char *e;
  static const char *K[] = { " inactive at ", " invalid at ", " verified at " };
  if ((e = after(s, "Contract "))) {
    for (int c = 0; c < ''' + str(len(cs)) + '''; c++) { const char *g = after(e, CN[c]); if (g) for (int k = 0; k < 3; k++) { const char *w = after(g, K[k]); if (w && (w = num(w, &v)) && *w == '\\n' && !w[1]) { rep[c][k]++; rept[c][k] += v + 1; return; } } }
    vs_assert(0, "report names a contract that does not exist");
    return;
  }
  for (int f = 0; f < ''' + str(len(forms)) + '''; f++) { if (!FN[f][0]) continue; const char *g = after(s, FN[f]); if (g && *g == ':' && (g = num(g + 1, &v)) && *g == ',' && (g[1] == 'T' || g[1] == 'F') && g[2] == '\\n' && !g[3]) { fl[f][g[1] == 'T']++; flt[f][g[1] == 'T'] += v + 1; return; } }
}
''', pre="mon.out_file = VS_FILE;")
    book = "  switch (id) {\n"
    for n, (nm, a, b, k) in enumerate(cs):
        for q, cond in enumerate(("!tr", "!tr", "tr")):
            book += f"    case {k + q}: if ({cond}) {{ trig[{n}][{q}]++; trigt[{n}][{q}] += t + 1; }} break;\n"
    for n, (l, f, k) in enumerate(forms):
        if l: book += f"    case {k}: cl[{n}][tr]++; clt[{n}][tr] += t + 1; break;\n"
    book += "  }\n  unsigned i;\n"
    h = h.replace("  unsigned i;\n", book, 1)
    fin = f'''
    for (int c = 0; c < {len(cs)}; c++) for (int k = 0; k < 3; k++) vs_assert(rep[c][k] == trig[c][k] && rept[c][k] == trigt[c][k], "contract report does not match assumption and guarantee");
    for (int f = 0; f < {len(forms)}; f++) for (int k = 0; k < 2; k++) vs_assert(fl[f][k] == cl[f][k] && flt[f][k] == clt[f][k], "formula line does not match the verdict");
'''
    return h.replace('"step reports an error");\n', '"step reports an error");\n' + fin, 1)
jobs = []
for n in range(45 if quick else 500):
    nc, nf = rng.choice([1, 1, 2, 3, 4]), rng.choice([0, 0, 1, 2])
    names = rng.sample(NAMES, nc)
    items = [("c", names[k], st(rng.choice([1, 1, 2])), st(rng.choice([1, 2]))) for k in range(nc)] + [("f", rng.choice([f"lab{k}", f"l{k}", None]), st(2)) for k in range(nf)]
    rng.shuffle(items)
    if rng.random() < .2 and nc > 1: items[-1] = tuple(items[-1][:2]) + tuple(items[0][2:]) if items[-1][0] == items[0][0] == "c" else items[-1]
    jobs.append((items, rng.random() < .6, rng.choice([(), (), ("--no-cse",), ("--no-rewrite",)])))
jobs += [([("c", "c", V(0), V(1))], True, ()), ([("c", "c", V(0), V(0))], True, ()), ([("c", "a", V(0), V(1)), ("c", "b", V(1), V(0)), ("c", "d", V(0), V(1))], True, ()), ([("f", None, V(0)), ("c", "c", F(0, 2, V(0)), G(0, 2, V(1)))], False, ())]
# more formulas and contracts than the monitor keeps names for
jobs += [([("f", f"f{k}", V(k % 3)) for k in range(6)] + [("c", "c", V(0), V(1)), ("c", "d", V(1), V(2))], "-DR2U2_AUX_MAX_FORMULAS=4", ()), ([("c", f"c{k}", V(k % 3), V((k + 1) % 3)) for k in range(3)], "-DR2U2_AUX_MAX_FORMULAS=2", ())]
def go(job):
    items, gen, opts = job
    cs, forms, n, t = [], [], 0, "INPUT a0, a1, a2: bool;\nFTSPEC\n"
    for it in items:
        if it[0] == "c":
            cs.append((it[1], it[2], it[3], n)); n += 3
            t += f"  {it[1]}: ({text(it[2])}) => ({text(it[3])});\n"
        else:
            forms.append((it[1], it[2], n)); n += 1
            t += f"  {it[1] + ': ' if it[1] else ''}{text(it[2])};\n"
    key = f"[{'default' if gen is False else 'generated' if gen is True else gen} bounds {' '.join(opts)}] " + " ".join(t.split("FTSPEC")[1].split())
    r = build_spec(t, ["a0", "a1", "a2"], list(opts))
    if not r.ok:
        chk.count("not_accepted_by_compiler")
        if os.environ.get("C_DEBUG"): print("REJ", key, r.err.strip().splitlines()[:2])
        return
    fl = list(AUX)
    if gen is True: fl = bounds_flags(r.bounds) + fl
    elif gen:
        import re
        b = (CSRC / "internals" / "bounds.h").read_text()
        d, v = gen[2:].split("=")
        fl = bounds_flags(re.sub(rf"(#define {d} )\d+", rf"\g<1>{v}", b)) + fl
        forms = [(l if k < int(v) else None, f, k) for l, f, k in forms]
    h = harness(r.bin, cs, forms, 6 if quick else 9, True)
    decide(chk, key, h, flags=fl, sample={"program": key} if len(chk.samples) < 6 else None)
pmap(guarded(chk, go), jobs)
chk.assume += ["programs of the seeded families; contract assumptions and guarantees over three inputs; traces of 6-9 steps"]
chk.finish()
