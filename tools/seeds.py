"""The planted changes (see seed.py). Written from the properties and the code, not from what the checks cover."""
M = "monitors/c/src/engines/mltl.c"
SEEDS = {}
SEEDS["C01a"] = dict(property="C01", needs="an equivalence with one aggregated operand verdict and different truth values",
  breaks="An equivalence reports 'false' for timestamps the shorter operand has not reached yet.",
  edits=[(M, '''op0)) ? "T" : "F", (get_verdict_truth(op1)) ? "T" : "F");
          result = set_verdict_false(min(get''', '''op0)) ? "T" : "F", (get_verdict_truth(op1)) ? "T" : "F");
          result = set_verdict_false(max(get''')],
  spec="INPUT a,b,c: bool;\nFTSPEC\nf: (a U[0,3] b) <-> c;\n", map="a:0\nb:1\nc:2\n",
  trace="#a,b,c\n1,0,0\n1,0,1\n1,0,0\n0,1,1\n0,0,1\n0,0,0\n1,1,0\n0,0,1\n0,0,0\n0,0,0\n")
SEEDS["C02a"] = dict(property="C02", needs="a trigger whose left operand's verdicts arrive ahead of time, in runs longer than the interval",
  breaks="Trigger keeps a violation of its right operand alive past the end of its interval.",
  edits=[(M, "result = set_verdict_false(min(get_verdict_time(op0) + temp->lower_bound, (get_verdict_time(temp->edge)) + temp->upper_bound));", "result = set_verdict_false(get_verdict_time(op0) + temp->lower_bound);")],
  spec="INPUT a,b: bool;\nPTSPEC\nf: (O[3,3] a) T[0,1] b;\n", map="a:0\nb:1\n",
  trace="#a,b\n0,1\n0,0\n0,1\n0,1\n0,1\n0,0\n1,1\n0,1\n0,1\n0,1\n0,1\n0,1\n")
SEEDS["C06a"] = dict(property="C06", needs="the difference of two unequal floats compared with !=, where they differ by exactly the tolerance or the sign matters",
  breaks="!= on floats ignores the tolerance when the left operand is the smaller one.",
  edits=[("monitors/c/src/engines/booleanizer.c", "(monitor->value_buffer)[instr->memory_reference].i = !((f1 > f2) ? (f1 - f2 < R2U2_FLOAT_EPSILON) : (f2 - f1 < R2U2_FLOAT_EPSILON));", "(monitor->value_buffer)[instr->memory_reference].i = !((f1 >= f2) && (f1 - f2 < R2U2_FLOAT_EPSILON));")],
  spec="INPUT x,y: float;\nFTSPEC\nf: x != y;\n", map="x:0\ny:1\n", opts=["-bz"],
  trace="#x,y\n1.0,2.0\n2.0,1.0\n1.0,1.0\n1.000001,1.0\n1.0,1.000001\n")
SEEDS["C11a"] = dict(property="C11", needs="two global operators over one operand whose intervals are two apart",
  breaks="Rewriting joins two intervals across the timestamp between them.",
  edits=[("compiler/c2po/rewrite.py", '''                    elif lb1 <= lb2 and lb2 <= ub1 + 1:
                        # lb1 <= lb2 <= ub1+1
                        new = cpt.TemporalOperator.Global(''', '''                    elif lb1 <= lb2 and lb2 <= ub1 + 2:
                        # lb1 <= lb2 <= ub1+1
                        new = cpt.TemporalOperator.Global(''')],
  spec="INPUT a: bool;\nFTSPEC\nf: (G[0,1] a) && (G[3,4] a);\n", map="a:0\n", trace="#a\n1\n1\n0\n1\n1\n1\n0\n1\n1\n1\n")
SEEDS["C11b"] = dict(property="C11", needs="a disjunction of two globals over one operand, the left interval inside the right one",
  breaks="Rewriting keeps the wrong interval.",
  edits=[("compiler/c2po/rewrite.py", '''                    if lb1 >= lb2 and ub1 <= ub2:
                        # l2 <= l1 <= u1 <= u2
                        new = cpt.TemporalOperator.Global(expr.loc, lb1, ub1, lhs_opnd)''', '''                    if lb1 >= lb2 and lb1 <= ub2:
                        # l2 <= l1 <= u1 <= u2
                        new = cpt.TemporalOperator.Global(expr.loc, lb1, ub1, lhs_opnd)''')],
  spec="INPUT a: bool;\nFTSPEC\nf: (G[2,4] a) || (G[1,3] a);\n", map="a:0\n", trace="#a\n1\n1\n1\n1\n0\n1\n1\n0\n1\n1\n1\n1\n1\n")
SEEDS["C02a"] = dict(property="C02", needs="a trigger whose right operand is false only at the very first step",
  breaks="A violation at time 0 is forgotten while the trace is shorter than the interval.",
  edits=[(M, "if (!(get_verdict_truth(temp->edge)) || (get_verdict_time(temp->edge)) <= sub_min_zero((get_verdict_time(temp->previous)),temp->upper_bound) && (get_verdict_time(temp->previous)) >= temp->upper_bound){", "if (!(get_verdict_truth(temp->edge)) || (get_verdict_time(temp->edge)) <= sub_min_zero((get_verdict_time(temp->previous)),temp->upper_bound)){")],
  spec="INPUT a,b: bool;\nPTSPEC\nf: a T[0,4] b;\n", map="a:0\nb:1\n", trace="#a,b\n0,0\n0,1\n0,1\n1,1\n0,1\n0,1\n")
SEEDS["C06a"] = dict(property="C06", needs="integers so far apart that their difference does not fit in 32 bits",
  breaks="> on integers is decided by the sign of the wrapped difference.",
  edits=[("monitors/c/src/engines/booleanizer.c", "(monitor->value_buffer)[instr->memory_reference].i = i1 > i2;", "(monitor->value_buffer)[instr->memory_reference].i = (r2u2_int)((uint32_t)i1 - (uint32_t)i2) > 0;")],
  spec="INPUT x,y: int;\nFTSPEC\nf: x > y;\n", map="x:0\ny:1\n", opts=["-bz"], trace="#x,y\n1,2\n2000000000,-2000000000\n-2000000000,2000000000\n2,1\n")
SEEDS["C09a"] = dict(property="C09", needs="a bound or constant of at least 2^24", breaks="The loader drops the top byte of an instruction's first operand.",
  edits=[("monitors/c/src/instructions/mltl.c", "instr.op1_value = (uint32_t)(spec[0] + (spec[1] << 8) + (spec[2] << 16) + (spec[3] << 24));", "instr.op1_value = (uint32_t)(spec[0] + (spec[1] << 8) + (spec[2] << 16));")],
  spec="INPUT a: bool;\nPTSPEC\nf: O[16777217,16777218] a;\n", map="a:0\n", trace="#a\n1\n0\n")
SEEDS["C05a"] = dict(property="C05", needs="a monitor built with the generated bounds and named formulas", breaks="The generated size of the name arena has no room for the terminators.",
  edits=[("compiler/c2po/assemble.py", "num_aliases_bytes + num_aliases, # each", "num_aliases_bytes, # each")],
  demo='''import subprocess, sys, tempfile, pathlib, re
PY = "/opt/venv/bin/python3"
C = """#include "r2u2.h"
#include <stdio.h>
#include <stdlib.h>
static r2u2_monitor_t m = R2U2_DEFAULT_MONITOR;
static uint8_t a[65536];
int main(int c, char **v) {
  FILE *f = fopen(v[1], "rb"); if (fread(a, 1, 65536, f) == 0) {} fclose(f);
  m.aux_info_arena.aux_mem = malloc(R2U2_MAX_AUX_BYTES);
  m.out_file = stdout;
  r2u2_load_specification(a, &m);
  for (int t = 0; t < 2; t++) { r2u2_load_bool_signal(&m, 0, 1); r2u2_load_bool_signal(&m, 1, 0); r2u2_step(&m); }
  return 0;
}"""
with tempfile.TemporaryDirectory() as d:
    d = pathlib.Path(d)
    (d / "s.c2po").write_text("INPUT a,b: bool;\\nFTSPEC\\nfirst: F[0,1] a;\\nsecond: G[0,1] b;\\n")
    (d / "s.map").write_text("a:0\\nb:1\\n")
    subprocess.run([PY, "compiler/c2po.py", "--spec", str(d / "s.c2po"), "--map", str(d / "s.map"), "-o", str(d / "s.bin"), "--write-bounds", str(d / "b.h")], capture_output=True)
    flags = ["-include", str(d / "b.h")]
    (d / "m.c").write_text(C)
    src = [str(p) for p in pathlib.Path("monitors/c/src").rglob("*.c") if p.name != "main.c"]
    c = subprocess.run(["gcc", "-w", "-g", "-fsanitize=address", "-Imonitors/c/src", "-DR2U2_AUX_STRING_SPECS=1", *flags, str(d / "m.c"), *src, "-lm", "-o", str(d / "r")], capture_output=True, text=True)
    r = subprocess.run([str(d / "r"), str(d / "s.bin")], capture_output=True, text=True, timeout=60, env={"ASAN_OPTIONS": "detect_leaks=0"})
    if r.returncode or "first:0,T" not in r.stdout:
        print(c.stderr, r.stdout, r.stderr[:600])
        sys.exit(1)
''')
SEEDS["C10a"] = dict(property="C10", needs="loading a second specification, without data expressions, into a used monitor", breaks="Data instructions of the previous specification keep running after a reload.",
  edits=[("monitors/c/src/memory/monitor.c", "  monitor->bz_program_count.max_program_count = 0;\n", "")],
  demo='''import subprocess, sys, tempfile, pathlib
PY = "/opt/venv/bin/python3"
C = """#include "r2u2.h"
#include <stdio.h>
static r2u2_monitor_t m = R2U2_DEFAULT_MONITOR;
static uint8_t a[65536], b[65536];
static void rd(const char *p, uint8_t *x) { FILE *f = fopen(p, "rb"); if (fread(x, 1, 65536, f) == 0) {} fclose(f); }
int main(int c, char **v) {
  rd(v[1], a); rd(v[2], b);
  m.out_file = NULL;
  r2u2_load_specification(a, &m);
  r2u2_load_int_signal(&m, 0, 7); r2u2_step(&m);
  m.out_file = stdout;
  r2u2_load_specification(b, &m);
  for (int t = 0; t < 3; t++) { r2u2_load_bool_signal(&m, 0, 1); r2u2_step(&m); }
  return 0;
}"""
with tempfile.TemporaryDirectory() as d:
    d = pathlib.Path(d)
    def comp(n, text, *o):
        (d / (n + ".c2po")).write_text(text); (d / "s.map").write_text("a:0\\n")
        subprocess.run([PY, "compiler/c2po.py", "--spec", str(d / (n + ".c2po")), "--map", str(d / "s.map"), "-o", str(d / (n + ".bin")), *o], capture_output=True)
    comp("p", "INPUT a: int;\\nFTSPEC\\nf: a > 3;\\n", "-bz")
    comp("q", "INPUT a: bool;\\nFTSPEC\\ng: F[0,1] a;\\n")
    (d / "m.c").write_text(C)
    src = [str(p) for p in pathlib.Path("monitors/c/src").rglob("*.c") if p.name != "main.c"]
    c = subprocess.run(["gcc", "-w", "-DR2U2_AUX_STRING_SPECS=1", "-Imonitors/c/src", str(d / "m.c"), *src, "-lm", "-o", str(d / "r")], capture_output=True, text=True)
    r = subprocess.run([str(d / "r"), str(d / "p.bin"), str(d / "q.bin")], capture_output=True, text=True, timeout=60)
    if r.stdout.split() != ["g:0,T", "g:1,T", "g:2,T"]:
        print(c.stderr, r.stdout, r.stderr[:600])
        sys.exit(1)
''')
SEEDS["C12a"] = dict(property="C12", needs="a flattened conjunction of more than two operands below another one", breaks="Making n-ary operators binary drops an operand of four-operand ones.",
  edits=[("compiler/c2po/transform.py", "        for i in range(2, len(expr.children) - 1):\n", "        for i in range(3, len(expr.children) - 1):\n")],
  spec="INPUT a,b,c,d: bool;\nFTSPEC\nf: foreach(x: {a,b,c,d})(x);\n", map="a:0\nb:1\nc:2\nd:3\n", trace="#a,b,c,d\n1,1,1,1\n1,1,0,1\n1,1,1,0\n0,1,1,1\n")
SEEDS["C12b"] = dict(property="C12", needs="converting a negated equivalence with operands of different kinds to negation normal form", breaks="A negated release is turned into an until over the wrong interval.",
  edits=[("compiler/c2po/transform.py", '''                # !(p R q) = !p U !q
                expr.replace(
                    cpt.TemporalOperator.Until(
                        expr.loc,
                        bounds.lb,
                        bounds.ub,
                        cpt.Operator.LogicalNegate(lhs.loc, lhs),''', '''                # !(p R q) = !p U !q
                expr.replace(
                    cpt.TemporalOperator.Until(
                        expr.loc,
                        bounds.lb,
                        bounds.ub,
                        cpt.Operator.LogicalNegate(lhs.loc, lhs) if bounds.lb == 0 else lhs,''')],
  demo='''import subprocess, sys, tempfile, pathlib
CODE = """
import sys
sys.path.insert(0, 'compiler')
from c2po import cpt, log, transform, types
from c2po.parse_c2po import parse_c2po
import pathlib
"""
with tempfile.TemporaryDirectory() as d:
    d = pathlib.Path(d)
    (d / "s.c2po").write_text("INPUT a,b: bool;\\nFTSPEC\\nf: !(a R[1,2] b);\\n")
    (d / "s.script").write_text("parse_c2po %s\\ntype_check\\ndesugar\\nto_nnf\\nprint_prefix\\n" % (d / "s.c2po"))
    r = subprocess.run(["/opt/venv/bin/python3", "compiler/c2po.py", "-s", str(d / "s.script")], capture_output=True, text=True)
    out = r.stdout + r.stderr
    if "--show" in sys.argv: print(out)
    if "(U[1,2](!a)(!b))" not in out.replace(" ", ""):
        print(out); sys.exit(1)
''')
SEEDS["C08a"] = dict(property="C08", needs="a formula after a contract", breaks="A formula after a contract gets the number of the contract's last condition.",
  edits=[("compiler/c2po/parse_c2po.py", "        self.spec_num += 3\n", "        self.spec_num += 2\n")],
  spec="INPUT a,b,c: bool;\nFTSPEC\nk: a => F[0,1] b;\ng: G[0,1] c;\n", map="a:0\nb:1\nc:2\n", trace="#a,b,c\n1,0,1\n1,0,1\n0,1,1\n1,1,1\n")
SEEDS["C23a"] = dict(property="C23", needs="an integer field written with leading zeros, with the Booleanizer", breaks="Integer fields with leading zeros are read in base 8.",
  edits=[("monitors/c/src/lib.c", 'sscanf(value, "%d", &(monitor->signal_vector[index].i));', 'sscanf(value, "%i", &(monitor->signal_vector[index].i));')],
  spec="INPUT i,j: int;\nFTSPEC\nf: i == 17;\ng: j < 10;\n", map="i:0\nj:1\n", opts=["-bz"], trace="#i,j\n17,1\n017,9\n21,010\n0021,8\n")
SEEDS["C23b"] = dict(property="C23", needs="an event trace whose times pass 65535", breaks="Event times are cut to sixteen bits.",
  edits=[("monitors/c/src/cli/csv_trace.c", "      uint32_t time_signature;\n      if(timechar == NULL || sscanf(timechar,\"%u\",&time_signature)", "      unsigned short time_signature;\n      if(timechar == NULL || sscanf(timechar,\"%hu\",&time_signature)")],
  spec="INPUT a: bool;\nFTSPEC\nf: a;\n", map="a:0\n", trace="@3 1\n@65535 0\n@65536 1\n@70000 0\n")
SEEDS["C07a"] = dict(property="C07", needs="an array slice in a map file that does not start at element 0", breaks="The elements of a slice are shifted by its first index.",
  edits=[("compiler/c2po/map.py", "                    mapping[id] = sid\n                    sid = sid + 1\n", "                    mapping[id] = sid + i\n")],
  spec="INPUT A: bool[4];\nFTSPEC\nf: A[0];\ng: A[1];\nh: A[2];\nk: A[3];\n", map="A[0..1]:0\nA[2..3]:2\n", trace="#\n1,0,1,0,0,0\n0,1,1,0,1,0\n0,0,0,1,1,1\n")
SEEDS["C07b"] = dict(property="C07", needs="a trace header with a repeated column before others", breaks="Columns after a repeated one are counted one too low.",
  edits=[("compiler/c2po/trace.py", "        signal_mapping[id] = cnt\n        cnt += 1\n", "        signal_mapping[id] = cnt\n        cnt = len(signal_mapping)\n")],
  demo='''import subprocess, sys, tempfile, pathlib
with tempfile.TemporaryDirectory() as d:
    d = pathlib.Path(d)
    (d / "s.c2po").write_text("INPUT a,b,c: bool;\\nFTSPEC\\nf: a;\\ng: b;\\nh: c;\\n")
    (d / "t.csv").write_text("#a,a,b,c\\n0,1,0,0\\n1,0,1,0\\n0,0,0,1\\n")
    subprocess.run(["/opt/venv/bin/python3", "compiler/c2po.py", "--spec", str(d / "s.c2po"), "--trace", str(d / "t.csv"), "-o", str(d / "s.bin")], capture_output=True)
    r = subprocess.run(["monitors/c/build/r2u2", str(d / "s.bin"), str(d / "t.csv")], capture_output=True, text=True, timeout=60)
    want = ["0:0,T", "0:1,F", "0:2,F", "1:0,F", "1:1,T", "1:2,F", "2:0,F", "2:1,F", "2:2,T"]
    if "--show" in sys.argv: print(r.stdout)
    if sorted(r.stdout.split()) != want:
        print(r.stdout); sys.exit(1)
''')
SEEDS["C14a"] = dict(property="C14", needs="two variables whose names differ only in case", breaks="Subexpressions over names that differ only in case are shared.",
  edits=[("compiler/c2po/cse.py", '''        if repr(expr) in expr_map:
            log.debug(2, f"replacing -- {repr(expr)} -> {id(expr_map[repr(expr)])}")
            expr.replace(expr_map[repr(expr)])
        else:
            log.debug(2, f"visiting --- {repr(expr)} -> {id(expr)}")
            expr_map[repr(expr)] = expr
''', '''        key = repr(expr).lower()
        if key in expr_map:
            log.debug(2, f"replacing -- {key} -> {id(expr_map[key])}")
            expr.replace(expr_map[key])
        else:
            log.debug(2, f"visiting --- {key} -> {id(expr)}")
            expr_map[key] = expr
''')],
  spec="INPUT a,A: bool;\nFTSPEC\nf: G[0,1] a;\ng: G[0,1] A;\n", map="a:0\nA:1\n", trace="#a,A\n1,0\n1,1\n1,1\n0,1\n0,0\n")
SEEDS["C04a"] = dict(property="C04", needs="one data expression used as both operands of one operator, shared by CSE, with the Booleanizer", breaks="Only the first use of a shared data expression is read from the Booleanizer.",
  edits=[("compiler/c2po/atomics.py", "                    parent.children[i] = new\n", "                    parent.children[i] = new\n                    break\n")],
  spec="INPUT i,j: int;\nFTSPEC\nf: (j > 0) U[0,1] (i > 0);\ng: (i > 0) U[0,1] (i > 0);\n", map="i:0\nj:1\n", opts=["-bz", "--no-rewrite"] if False else ["-bz"], trace="#i,j\n1,0\n0,1\n1,0\n0,1\n1,1\n0,0\n")
HD = '''import pathlib, re, subprocess, sys, tempfile
PY = "/opt/venv/bin/python3"
def c2po(files, *args):
    """runs the compiler in a scratch directory; returns its output and the files it left"""
    with tempfile.TemporaryDirectory() as d:
        d = pathlib.Path(d)
        for n, t in files.items(): (d / n).write_text(t)
        r = subprocess.run([PY, str(pathlib.Path.cwd() / "compiler/c2po.py"), *args], cwd=d, capture_output=True, text=True, timeout=120)
        return r.stdout + r.stderr, {f.name: f.read_bytes() for f in d.iterdir() if f.is_file()}
def monitor(bin, trace):
    with tempfile.TemporaryDirectory() as d:
        d = pathlib.Path(d); (d / "b").write_bytes(bin); (d / "t").write_text(trace)
        return subprocess.run(["monitors/c/build/r2u2", str(d / "b"), str(d / "t")], capture_output=True, text=True, timeout=60).stdout
def check(ok, what):
    if not ok: print(what); sys.exit(1)
'''
SEEDS["C13a"] = dict(property="C13", needs="a structure whose members of one type are not declared in alphabetical order", breaks="Arguments of a structure are given to its members in alphabetical order.",
  edits=[("compiler/c2po/desugar.py", "struct_members = [m for m in context.structs[expr.symbol].keys()]", "struct_members = sorted(context.structs[expr.symbol].keys())")],
  spec="STRUCT P: {val: bool; act: bool;};\nINPUT a,b: bool;\nDEFINE p := P(a,b);\nFTSPEC\nf: p.val && !p.act;\n", map="a:0\nb:1\n", opts=[], trace="#a,b\n0,0\n1,0\n1,1\n0,1\n")
SEEDS["C15a"] = dict(property="C15", needs="an until over at least two positions before its last one, refuted only by the order of its operands", breaks="The QF_UFLIA encoding unrolls until from the wrong end.",
  edits=[("compiler/c2po/sat.py", "for i in reversed(range(lb, ub)):", "for i in range(lb, ub):")],
  demo=HD + '''
out, _ = c2po({"s.c2po": "INPUT a,b: bool;\\nFTSPEC\\n(a U[0,2] b) && !a && !b;\\n", "s.script": "parse_c2po s.c2po\\ntype_check\\ndesugar\\ncheck_sat qf_uflia --print\\n"}, "-s", "s.script")
if "--show" in sys.argv: print(out)
check(re.search(r"\\bunsat\\b", out), out)
''')
SEEDS["C16a"] = dict(property="C16", needs="formulas that differ only at the smallest value a >= constraint allows", breaks="A constraint 'l >= n' of an equivalence file excludes n.",
  edits=[("compiler/c2po/sat.py", '''cache[expr] = f"(>= {cache[expr.children[0]]} {cache[expr.children[1]]})"''', '''cache[expr] = f"(> {cache[expr.children[0]]} {cache[expr.children[1]]})"''')],
  demo=HD + '''
out, _ = c2po({"s.equiv": "c: b0 >= 1\\nc: b0 <= 2\\nF[0,b0] a0\\nF[0,2] a0\\n", "s.script": "parse_equiv s.equiv\\ntype_check\\ncheck_equiv uflia --smt-max-time 20\\n"}, "-s", "s.script")
if "--show" in sys.argv: print(out)
check(re.search(r"^not-equiv$", out, re.M), out)
''')
SEEDS["C18a"] = dict(property="C18", needs="bitwise or and exclusive or in one expression without parentheses", breaks="Exclusive or binds weaker than bitwise or.",
  edits=[("compiler/c2po/parse_c2po.py", """        ("left", BW_OR),
        ("left", BW_XOR),
""", """        ("left", BW_XOR),
        ("left", BW_OR),
""")],
  spec="INPUT i,j,k: int;\nFTSPEC\nf: (i | j ^ k) == 1;\n", map="i:0\nj:1\nk:2\n", opts=["-bz"], trace="#i,j,k\n1,0,1\n1,1,1\n0,0,1\n0,1,1\n1,0,0\n")
SEEDS["C19a"] = dict(property="C19", needs="a session with a mission time, used in an interval, that pushes and pops before the specification that uses it is parsed", breaks="What pop restores has lost its mission time.",
  edits=[("compiler/c2po/cpt.py", "        new.mission_time = self.mission_time\n", "")],
  demo=HD + """
got = []
for mid in ("", "push\\npop\\n", "push\\nset_mission_time 9\\npop\\n"):
    out, g = c2po({"s.c2po": "INPUT a,b: bool;\\nFTSPEC\\nf: a U[0,M] b;\\n", "s.map": "a:0\\nb:1\\n", "s.script": "set_mission_time 3\\n" + mid + "parse_c2po s.c2po\\nparse_map s.map\\n"
        "type_check\\ndesugar\\ncompute_atomics\\ncompute_scq_sizes\\nassemble s.bin\\n"}, "-s", "s.script")
    got.append(monitor(g["s.bin"], "#a,b\\n" + "1,0\\n" * 7 + "1,1\\n1,0\\n" * 4) if "s.bin" in g else out)
if "--show" in sys.argv: print(got)
check(got[0] == got[1] == got[2], got)
""")
SEEDS["C20a"] = dict(property="C20", needs="a formula whose delay in words is a power of two", breaks="The buffers of the generated code are too small for some delays.",
  edits=[("compiler/c2po/sabre.py", "size[expr] = 1 << (word_wpd[formula]).bit_length()", "size[expr] = 1 << (word_wpd[formula] - 1).bit_length()")],
  demo=HD + """
_, g = c2po({"s.c2po": "INPUT a,b: bool;\\nFTSPEC\\nf: F[0,8] (a && G[0,7] b);\\n", "s.map": "a:0\\nb:1\\n", "s.script": "parse_c2po s.c2po\\nparse_map s.map\\ntype_check\\ndesugar\\ngenerate_sabre_code o.c --word-size 8\\n"}, "-s", "s.script")
import random
r = random.Random(5); N = 8 * 40
A = [r.random() < .2 for _ in range(N)]; B = [r.random() < .85 for _ in range(N)]
gb = lambda t: all(B[t:t + 8])
want = "".join(str(int(any(A[u] and gb(u) for u in range(t, t + 9)))) for t in range(N - 16))
with tempfile.TemporaryDirectory() as d:
    d = pathlib.Path(d); (d / "o.c").write_bytes(g["o.c"])
    subprocess.run(["gcc", "-w", "-o", str(d / "o"), str(d / "o.c")], check=True)
    out = subprocess.run([str(d / "o")], input="".join(f"{int(x)},{int(y)}\\n" for x, y in zip(A, B)), capture_output=True, text=True, timeout=60).stdout
bits = "".join(f"{int(x, 16):08b}" for x in out.split())
if "--show" in sys.argv: print(bits); print(want)
check(bits == want[:len(bits)] and len(bits) >= len(want), "differs")
""")
SEEDS["C22a"] = dict(property="C22", needs="foratmost with a float parameter or without the Booleanizer", breaks="foratmost is accepted where its parameter has no meaning.",
  edits=[("compiler/c2po/type_check.py", "                cpt.SetAggregationKind.FOR_AT_MOST,\n", "")],
  demo=HD + '''
for opts, n in ((["-bz"], "1.5"), ([], "1")):
    out, g = c2po({"s.c2po": f"INPUT a,b,c: bool;\\nDEFINE s := {{a,b,c}};\\nFTSPEC\\nf: foratmost(x : s, {n})(x);\\n", "s.map": "a:0\\nb:1\\nc:2\\n"}, *opts, "--spec", "s.c2po", "--map", "s.map", "-o", "s.bin")
    if "--show" in sys.argv: print(out)
    check("s.bin" not in g, "accepted: " + n + out)
''')
ML = "monitors/rust/r2u2_core/src/engines/mltl.rs"
SEEDS["C21a"] = dict(property="C21", needs="a since whose left operand's verdicts arrive ahead of time, in runs longer than the interval", breaks="Since of the Rust monitor stays true past the end of its interval.",
  edits=[(ML, "verdict.time = min(value_op0.time.saturating_add(queue_ctrl.temporal_block.lower_bound), queue_ctrl.temporal_block.edge.time.saturating_add(queue_ctrl.temporal_block.upper_bound));\n        verdict.truth = true;", "verdict.time = value_op0.time.saturating_add(queue_ctrl.temporal_block.lower_bound);\n        verdict.truth = true;")],
  types="bb", rust=[("INPUT a,b: bool;\nPTSPEC\nf: (H[2,3] a) S[0,1] b;\n", "a:0\nb:1\n", [], "1,1\n1,0\n1,0\n1,0\n1,1\n1,0\n1,0\n0,0\n0,1\n1,0\n1,0\n1,0\n0,1\n0,0\n1,0\n1,0\n")])
BZR = "monitors/rust/r2u2_core/src/engines/booleanizer.rs"
SEEDS["C24a"] = dict(property="C24", needs="a product out of range whose first factor is positive and second negative", breaks="Such a product saturates at the wrong end.",
  edits=[(BZR, """    match op0.checked_mul(op1) {
        Some(n) => { return (n, false); },
        None => {
            if (op0 < 0 && op1 > 0) || (op0 > 0 && op1 < 0){""", """    match op0.checked_mul(op1) {
        Some(n) => { return (n, false); },
        None => {
            if op0 < 0 && op1 > 0 {""")],
  types="ii", rust=[("INPUT i,j: int;\nFTSPEC\nf: i * j < 0;\n", "i:0\nj:1\n", ["-bz"], "3,-2\n-70000,70000\n70000,-70000\n70000,70000\n-70000,-70000\n")])
SEEDS["C24b"] = dict(property="C24", needs="prev with an initial value that differs from zero", breaks="The first value of prev is not its initial value.",
  edits=[("monitors/rust/r2u2_core/src/internals/process_binary.rs", "monitor.value_buffer[instr.memory_reference as usize] = monitor.value_buffer[instr.param1 as usize];", "monitor.value_buffer[instr.memory_reference as usize] = monitor.value_buffer[instr.param2 as usize];")],
  types="i", rust=[("INPUT i: int;\nFTSPEC\nf: prev(5, i) > 2;\n", "i:0\n", ["-bz"], "1\n7\n1\n0\n")])
SEEDS["C25a"] = dict(property="C25", needs="loading a specification after another one with a different history", breaks="Queue positions survive the loading of another specification.",
  edits=[("monitors/rust/r2u2_core/src/memory/monitor.rs", '''        for elem in self.queue_arena.control_blocks.iter_mut() {
            *elem = SCQCtrlBlock::default();
        }
''', "")],
  types="bb", rust=[("INPUT a,b: bool;\nFTSPEC\nf: a U[0,2] b;\n", "a:0\nb:1\n", [], "1,0\n1,1\n0,0\n1,0\n1,1\n"), ("INPUT a,b: bool;\nFTSPEC\nf: G[0,1] (a && b);\n", "a:0\nb:1\n", [], "1,1\n1,1\n0,1\n1,1\n1,1\n1,1\n")])
RLIB = "monitors/rust/r2u2_core/src/lib.rs"
SEEDS["C26a"] = dict(property="C26", needs="a negative integer loaded for an input of a specification compiled without the Booleanizer", breaks="Negative integers count as false.",
  edits=[(RLIB, "monitor.atomic_buffer[index] = value != 0;", "monitor.atomic_buffer[index] = value > 0;")],
  types="ii", rust=[("INPUT a,b: bool;\nFTSPEC\nf: a && !b;\n", "a:0\nb:1\n", [], "1,0\n-1,0\n1,-5\n0,0\n")])
SEEDS["C26b"] = dict(property="C26", needs="a negative float loaded for an input of a specification compiled without the Booleanizer", breaks="Negative floats count as false.",
  edits=[(RLIB, "monitor.atomic_buffer[index] = value >= R2U2_FLOAT_EPSILON || value <= -R2U2_FLOAT_EPSILON;", "monitor.atomic_buffer[index] = value >= R2U2_FLOAT_EPSILON;")],
  types="fb", rust=[("INPUT a,b: bool;\nFTSPEC\nf: a && !b;\n", "a:0\nb:1\n", [], "1.0,0\n-1.5,0\n0.0,0\n-0.5,1\n")])
