import re
import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pyeq import *
from sugar import *
import mcfam
chk = Check("C19", "other")
chk.cov["explanation"] = ("Sessions of the real command console that push, run other commands (transformations, another program, options, nested push and pop) and pop. Part one runs the sessions symbolically, on programs whose "
    "interval bounds are symbolic: for every path z3 decides that after the pop, and after further commands, each formula has the value it had at the push, for all bounds and traces. Part two takes programs using every "
    "language feature, pushes after each prefix of the compilation, runs an excursion, pops and finishes; the binary is decided against the program's meaning on the symbolically executed real monitor.")
quick = TIER != "thorough"
rng = random.Random(SEED * 97 + 19)
OTHER = "ENUM\n  Oe: {M0: 77, M1, zz};\nINPUT\n  p0: bool;\n  p1,p2: float;\n  Q: int[2];\n  a0,P,pp: bool;\n  a1: int;\nDEFINE\n  d1 := !p0;\n  s3 := p0 && a0;\n  a2 := a0 || P;\nFTSPEC\n  f1: F[2,7] (p0 && d1);\n  f2: G[0,3] s3;\n  a2;\n"
OMAP = "p0:4\np1:0\np2:1\nQ[0]:2\nQ[1]:3\na0:5\nP:6\npp:7\na1:8\n"
TR = ["optimize_cse", "optimize_rewrites", "to_nnf", "to_bnf", "remove_extended_operators", "multi_operators_to_binary", "flatten_multi_operators", "sort_operands_by_pd", "remove_release_operators"]
def excursion(r, trans, other, omap, deep=2):
    """commands of an excursion; trans: the transformations that may be used on the current program"""
    out = []
    for _ in range(r.randrange(1, 4)):
        k = r.random()
        if k < .45 and trans: out += [r.choice(trans) for _ in range(r.randrange(1, 3))]
        elif k < .6 and deep: out += ["push"] + excursion(r, trans, other, omap, deep - 1) + ["pop"]
        elif k < .7: out += [f"set_mission_time {r.randrange(1, 9)}", r.choice(["enable_booleanizer", "disable_booleanizer"])]
        elif k < .78 and trans: out += ["compute_atomics", "compute_scq_sizes"]
        else:
            out += ["enable_booleanizer", f"parse_c2po {other}"] + ["type_check", "desugar", f"parse_map {omap}", "optimize_rewrites", "assemble /dev/null"][:r.randrange(0, 6)]
            trans = []      # the current program may not be at a stage they are made for
    return out
# part one: symbolic bounds
a, b_, c = V(0), V(1), V(2)
def L(n): return (("lb", n), ("ub", n))
def shapes(kind):
    F_, G_, U_, R_ = ("F", "G", "U", "R") if kind == "f" else ("O", "H", "S", "T")
    l1, l2 = L(1), L(2)
    s = (F_,) + l1 + (a,)
    return [[s, A(s, b_), (G_,) + l2 + (s,)], [(U_,) + l1 + (a, b_), N((U_,) + l1 + (a, b_)), D((U_,) + l1 + (a, b_), c)], [I(s, (G_,) + l2 + (b_,)), E(a, (G_,) + l2 + (b_,))], [(R_,) + l1 + (N(a), (U_,) + l2 + (b_, c)), A((U_,) + l2 + (b_, c), b_, c)],
            [A((F_,) + l1 + (a,), (F_,) + l2 + (a,)), D((F_,) + l2 + (a,), (F_,) + l1 + (a,))], [N((R_,) + l1 + (a, D(b_, c))), (G_,) + l2 + (N(D(b_, c)),)], [A(a, b_, c), D(a, A(a, b_, c), s), (F_,) + l2 + (A(a, b_, c),)]]
class St:
    """an excursion as one step of a session"""
    def __init__(self, lines): self.lines = lines
    def __repr__(self): return ", ".join(self.lines)
    def __call__(self, con):
        o = tmp("other.c2po", OTHER); m = tmp("other.map", OMAP)
        for l in self.lines:
            l = l.replace("OTHER", str(o)).replace("OMAP", str(m))
            if l in ("push", "pop"): con.must(l)
            else: con(l)        # a command that does not apply here reports an error and changes nothing to come
STAGES = [[], ["optimize_cse"], ["optimize_rewrites"], ["remove_extended_operators"], ["optimize_cse", "multi_operators_to_binary"], ["compute_atomics", "compute_scq_sizes"], ["optimize_cse", "flatten_multi_operators"]]
AFTER = [[], ["optimize_cse"], ["optimize_rewrites"], ["to_nnf"], ["remove_extended_operators", "optimize_cse"], ["multi_operators_to_binary", "optimize_rewrites"], ["optimize_cse", "sort_operands_by_pd"]]
jobs = []
for kind in "fp":
    for fs in shapes(kind):
        for k in range(9 if quick else 60):
            pre, post = STAGES[k % len(STAGES)], rng.choice(AFTER)
            tr = [t for t in TR if t != "to_bnf" or kind == "f"]
            jobs.append((fs, pre + [St(["push"] + excursion(rng, tr, "OTHER", "OMAP") + ["pop"])] + post, 3, None))
if os.environ.get("C_T") != "bin":
    fmap(chk, multi_job, jobs[:int(os.environ.get("C_N", 10**9))], limit=90 if quick else 300)
# part two: whole compilations
FE = ["struct", "enum", "array", "def", "agg", "count", "slice", "cmp", "label", "nest", "contract"]
BASE = ["parse_c2po s.c2po", "parse_map s.map", "type_check", "desugar", "optimize_rewrites", "optimize_cse", "remove_extended_operators", "multi_operators_to_binary", "compute_atomics", "compute_scq_sizes", "unsafe_assemble s.bin"]
OK = {4: ["optimize_rewrites", "optimize_cse", "remove_extended_operators", "multi_operators_to_binary"], 3: ["desugar", "expand_definitions", "resolve_contracts"], 2: ["type_check"]}
bjobs = []
for k in range(150 if quick else 2000):
    bz = k % 3 != 0
    bjobs.append((rng.randrange(1 << 40), bz, FE if k % 2 else [f for f in FE if rng.random() < .5], rng.choice("ffp"), rng.randrange(1, 4), 1 + k % (len(BASE) - 1)))
def go(j):
    seed, bz, feats, tk, nf, cut = j
    r = random.Random(seed)
    s = Sugar(r, bz, feats).make(tk, nf, 2)
    if any(horizon(f) > 6 or past(f) > 6 for f in s.fs) or len(s.exprs) > 14: return
    tr = OK[4] if cut >= 4 else OK.get(cut, [])
    cmds = (["enable_booleanizer"] if bz else []) + BASE[:cut] + ["push"] + excursion(r, tr, "o.c2po", "o.map") + ["pop"] + BASE[cut:]
    ms = re.findall(r"\[\d+,(\d+)\]", s.text)
    if ms and r.random() < .25:     # settings made before anything is parsed
        m = r.choice(ms)
        s.text = re.sub(r"(\[\d+,)" + m + r"\]", r"\1M]", s.text)
        cmds = [f"set_mission_time {m}"] + (["enable_booleanizer"] if bz else []) + ["push"] + excursion(r, [], "o.c2po", "o.map") + ["pop"] + BASE
    if r.random() < .3:         # a second excursion later
        i = r.randrange(cmds.index("pop") + 1, len(cmds))
        cmds[i:i] = ["push"] + excursion(r, [], "o.c2po", "o.map") + ["pop"]
    key = ", ".join(cmds) + " / " + " ".join(s.text.split())
    files = {"s.c2po": s.text, "s.map": s.map(), "o.c2po": OTHER, "o.map": OMAP}
    x = c2po(dict(files, **{"s.script": "\n".join(cmds) + "\n"}), ["-s", "s.script"])
    out = x.dir / "s.bin"
    if not out.exists():
        # the same session without excursions has to be accepted for this to count
        ref = c2po(dict(files, **{"s.script": "\n".join(([cmds[0]] if cmds[0][:5] == "set_m" else []) + (["enable_booleanizer"] if bz else []) + BASE) + "\n"}), ["-s", "s.script"])
        if not (ref.dir / "s.bin").exists():
            chk.count("not_accepted_by_compiler")
            return
        chk.violation(key, "the session compiles without the excursions but not with them", "commands:\n" + "\n".join(cmds) + "\n\n" + s.text + "\n" + (x.err + x.out)[-1500:])
        return
    chk.count("sessions")
    decide(chk, key, s.prog.harness(out.read_bytes(), 3, timely=False, order=False), timeout=45 if quick else 300, sample={"session": key} if len(chk.samples) < 8 else None, keyfn=lambda v: key)
if os.environ.get("C_T") != "sym":
    pmap(mcfam.guarded(chk, go), bjobs[:int(os.environ.get("C_N", 10**9))])
chk.add("functions_encoded", ["c2po.main.CommandConsole.runsource/push_state/pop_state", "c2po.cpt.deepcopy_program_with_context and every deepcopy below it", "the transformation commands run in the sessions (cse, rewrite, transform, atomics, scq)"])
chk.assume += ["sessions of the seeded families; interval bounds up to 3; traces of 3 steps for whole compilations", "a command that fails during an excursion is reported and the session goes on, as the console does"]
chk.finish()
