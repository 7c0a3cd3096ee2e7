import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from sugar import *
chk = Check("C13", "other")
chk.cov["explanation"] = ("Seeded specifications using definitions (nested, arrays, structs), labels, enums, struct members, array elements, slices, array comparisons and every set aggregation over literal sets, "
    "arrays and slices, with their plain meaning built alongside, are compiled by the real compiler; the real monitor is executed symbolically on the result over every input of the bounded trace and the solver "
    "decides that each verdict equals the plain meaning.")
quick = TIER != "thorough"
rng = random.Random(SEED * 31 + 13)
FE = ["struct", "enum", "array", "def", "agg", "count", "slice", "cmp", "label", "nest", "contract"]
jobs = []
n = 260 if quick else 3000
for k in range(n):
    bz = k % 3 != 0
    feats = FE if k % 2 else [f for f in FE if rng.random() < .5]
    opts = [[], [], ["--no-cse"], ["--no-rewrite"], ["--no-cse", "--no-rewrite"]][k % 5]
    jobs.append((rng.randrange(1 << 40), bz, feats, rng.choice("ffp"), rng.randrange(1, 4), opts))
def go(j):
    seed, bz, feats, tk, nf, opts = j
    r = None
    s = Sugar(random.Random(seed), bz, feats).make(tk, nf, 2 if seed % 2 else 3)
    key = " ".join(s.text.split()) + " " + " ".join(opts)
    if any(horizon(f) > 6 or past(f) > 6 for f in s.fs) or len(s.exprs) > 14: return
    r = build_spec(s.text, None, (["-bz"] if bz else []) + list(opts), map_text=s.map())
    if not r.ok:
        chk.count("not_accepted_by_compiler")
        if os.environ.get("C_DEBUG"): print("REJ", (r.err + r.out).strip()[:150].replace("\n", " | "), ":::", key[:1500])
        return
    N_ = 3
    decide(chk, key, s.prog.harness(r.bin, N_, timely=False, order=False), timeout=45 if quick else 300, sample={"program": key} if len(chk.samples) < 6 else None, keyfn=lambda v: key)
pmap(guarded(chk, go), jobs[:int(os.environ.get("C_N", 10**9))])
chk.assume += ["programs of the seeded families; traces of 3 steps", "array inequality (!=) is not covered: the documentation does not say what it means"]
chk.finish()
