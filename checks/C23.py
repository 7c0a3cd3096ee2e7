import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from mcfam import *
chk = Check("C23", "other")
chk.cov["explanation"] = ("The real trace reader of the command line (r2u2_csv_load_next_signals with r2u2_load_string_signal behind it) is executed symbolically on lines whose bytes are symbolic "
    "(every line of the stated length over a small alphabet of digits, sign, point, blank and comma, and longer fields with symbolic digits), after a header, with a time prefix, with every line end; "
    "an independent reader in the harness says which value each column spells, and the solver decides that exactly those values, and no others, are in the monitor afterwards. "
    "Lines come from a stand-in for fgets; strtok and strlen are the executor's own code, sscanf its model (cross-checked natively).")
quick = TIER != "thorough"
BOOL = build_spec("INPUT a,b,c: bool;\nFTSPEC\n a && b || c;\n", ["a", "b", "c"])
BZ = build_spec("INPUT a,b: int; c: float;\nFTSPEC\n a == b && c > 1.5;\n", ["a", "b", "c"], ["-bz"])
PRE = HEAD + r'''
#include <stdio.h>
#include "cli/csv_trace.h"
#include "internals/bounds.h"
static char LINES[4][64]; static int vs_next, vs_have;
char *fgets(char *s, int n, FILE *f) {
  if (vs_next >= vs_have) return 0;
  int i = 0;
  for (; i < n - 1 && LINES[vs_next][i]; i++) s[i] = LINES[vs_next][i];
  s[i] = 0; vs_next++;
  return s;
}
static r2u2_csv_reader_t rd;
static r2u2_monitor_t mon = R2U2_DEFAULT_MONITOR;
static r2u2_bool at_before[256]; static int sig_before[256];
static r2u2_status_t cb(r2u2_mltl_instruction_t i, r2u2_verdict *v) { return R2U2_OK; }
/* independent reader: column c of the text p (up to the line end), well formed or not, and what it spells */
static int W[16], D[16], I[16], NF, OK; static int P10[16];
static void reader(const char *p) {
  int st = 0, neg = 0, dig = 0, pt = 0, v = 0, sc = 1;
  NF = 0; OK = 1;
  for (int k = 0;; k++) {
    char c = p[k];
    if (c == ',' || c == '\n' || c == 0) {
      if (!dig) OK = 0;
      W[NF] = neg ? -v : v; P10[NF] = sc; D[NF] = pt; NF++;
      st = neg = dig = pt = v = 0; sc = 1;
      if (c != ',') break;
    } else if (c == ' ' || c == '\r') { if (st != 0) st = 3; else if (c == '\r') OK = 0; }
    else if (c == '-') { if (st != 0) OK = 0; neg = 1; st = 1; }
    else if (c == '.') { if (st == 3 || pt) OK = 0; pt = 1; st = 2; }
    else { if (st == 3) OK = 0; dig = 1; v = v * 10 + (c - '0'); if (pt) sc = sc * 10; if (st != 2) st = 1; }
  }
}
'''
CHECK = r'''
static void compare(int bz, int nsig, int use) {
  for (int i = 0; i < nsig; i++) {
    if (!bz) vs_assert(mon.atomic_buffer[i] == (i < NF ? W[i] != 0 : at_before[i]), i == 0 ? "first column holds the Boolean it spells" : "a column holds the Boolean it spells");
    else if (i < NF && D[i]) vs_assert(mon.signal_vector[i].f == (double)W[i] / (double)P10[i], "a column holds the decimal it spells");
    else if (i < NF) vs_assert(mon.signal_vector[i].i == W[i], "a column holds the integer it spells");
    else vs_assert(mon.signal_vector[i].i == sig_before[i], "a column the line does not mention keeps its value");
  }
}
'''
def harness(bz, body, nsig, header=None, at=None, end="\n", start=0, sym=None, follow=None):
    """body: list of items, each a character or a tuple (alphabet) of candidates"""
    s = PRE + bytes_c((BZ if bz else BOOL).bin) + CHECK + "int vs_main(void) {\n  mon.out_func = cb;\n  vs_assert(r2u2_load_specification(SPEC, &mon) == R2U2_OK, \"specification rejected\");\n"
    s += f"  mon.time_stamp = {start};\n"
    for i in range(nsig):
        s += f"  at_before[{i}] = vs_bool({500 + i}); mon.atomic_buffer[{i}] = at_before[{i}];\n" if not bz else f"  sig_before[{i}] = vs_small({600 + i}, -1, 1); mon.signal_vector[{i}].i = sig_before[{i}];\n"
    ln = 0
    if header is not None:
        s += "".join(f"  LINES[0][{k}] = {ord(c)};\n" for k, c in enumerate(header)); ln = 1
    pos, aid, sid = 0, [], 0
    digs = []
    if at is not None:
        s += f"  LINES[{ln}][0] = '@';\n"; pos = 1
        s += "  unsigned when = 0;\n"
        for c in at:
            if isinstance(c, tuple):
                s += f"  {{ static const char A[] = {{{','.join(str(ord(x)) for x in c)}}}; char c = A[vs_small({700 + pos}, 0, {len(c) - 1})]; LINES[{ln}][{pos}] = c; when = when * 10 + (c - '0'); }}\n"
            else:
                s += f"  LINES[{ln}][{pos}] = {ord(c)};" + (f" when = when * 10 + {int(c)};\n" if c.isdigit() else "\n")
            pos += 1
    off = pos
    for c in list(body) + list(end):
        if isinstance(c, tuple):
            s += f"  {{ static const char A[] = {{{','.join(str(ord(x)) for x in c)}}}; LINES[{ln}][{pos}] = A[vs_small({sid}, 0, {len(c) - 1})]; }}\n"; sid += 1
        else:
            s += f"  LINES[{ln}][{pos}] = {ord(c)};\n"
        pos += 1
    s += f"  vs_have = {ln + 1};\n  reader(LINES[{ln}] + {off});\n  vs_assume(OK && NF <= {nsig});\n"
    s += f'''  vs_assert(r2u2_csv_load_next_signals(&rd, &mon) == R2U2_OK, "a line is read");
  vs_assert(vs_next == {ln + 1}, "one line, and the header before it, is consumed");
  vs_assert(mon.time_stamp == {"when" if at is not None else start}, "the line's time is the one its prefix gives, or unchanged");
  compare({int(bz)}, {nsig}, 0);
  vs_assert(r2u2_csv_load_next_signals(&rd, &mon) == R2U2_END_OF_TRACE, "the trace ends after its last line");
  compare({int(bz)}, {nsig}, 0);
  return 0;
}}
'''
    return s
BITS, INT, DEC, DG = ("0", "1", ",", " "), ("0", "7", "-", ","), ("0", "5", ".", "-", ","), tuple("0123456789")
D2 = ("0", "1", "4", "9")
jobs = []
L = 6 if quick else 8
for n in range(1, L + 1):
    jobs.append((f"Boolean line of {n} bytes", dict(bz=False, body=[BITS] * n, nsig=min(n, 4))))
    jobs.append((f"integer line of {n} bytes", dict(bz=True, body=[INT] * n, nsig=min(n, 4))))
    jobs.append((f"decimal line of {n} bytes", dict(bz=True, body=[DEC] * n, nsig=min(n, 3))))
B01 = ("0", "1")
for end in ("\n", "", "\r\n", " \n"):
    jobs.append((f"Booleans ended by {end!r}", dict(bz=False, body=[B01, ",", B01, ",", B01], nsig=4, end=end)))
    jobs.append((f"integers ended by {end!r}", dict(bz=True, body=["-", DG, D2, ",", DG], nsig=3, end=end)))
for h in ("#\n", "# a,b,c\n", "#1,1,1\n"):
    for bz in (False, True):
        jobs.append((f"header {h!r} {'int' if bz else 'bool'}", dict(bz=bz, body=[B01, ",", B01], nsig=3, header=h)))
for start in (1, 7):
    jobs.append((f"no header at time {start}", dict(bz=False, body=[B01, ",", B01], nsig=3, start=start)))
for at in ([DG, " "], [D2, D2, " "], ["4", D2, "9", "4", D2, "6", "7", "2", "9", D2, " "], [D2, "  "[0], " "]):
    for bz in (False, True):
        t = "".join(c if isinstance(c, str) else "d" for c in at)
        for start in (0, 3):
            jobs.append((f"time prefix @{t!r} {'int' if bz else 'bool'} from time {start}", dict(bz=bz, body=[B01, ",", B01, ",", B01], nsig=4, at=at, start=start)))
jobs.append(("header and time prefix", dict(bz=False, body=[B01, ",", B01], nsig=3, at=[D2, D2, " "], header="# x\n")))
for b in (["2", "1", "4", "7", "4", "8", "3", "6", D2[:2] + ("3",), tuple("01234567")], ["-", "2", "1", "4", "7", "4", "8", "3", "6", tuple("01234"), tuple("01234567")], ["-", DG, DG, DG], [DG, DG, DG], [DG, DG, ",", "-", DG, ",", DG]):
    jobs.append(("integer " + "".join(c if isinstance(c, str) else "d" for c in b), dict(bz=True, body=b, nsig=3)))
for b in ([DG, ".", DG, DG], ["-", DG, ".", DG], [".", DG, DG], [DG, DG, "."], ["-", ".", DG, ",", DG, ",", DG, ".", DG], ["1", DG, "0", "0", "0", ".", "0", DG]):
    jobs.append(("decimal " + "".join(c if isinstance(c, str) else "d" for c in b), dict(bz=True, body=b, nsig=3)))
for b in ([B01, ".", "0"], [" ", B01, ",", " ", B01], [B01] * 2, ["0", B01, ".", "0", B01]):
    jobs.append(("Boolean " + "".join(c if isinstance(c, str) else "b" for c in b), dict(bz=False, body=b, nsig=3)))
def go(j):
    name, kw = j
    decide(chk, name, harness(**kw), cli=True, sample={"line": name} if len(chk.samples) < 8 else None)
# traces with more columns than the specification reads, with the bounds the compiler generates
def wide(j):
    bz, extra = j
    r = build_spec("INPUT a,b: " + ("int" if bz else "bool") + ";\nFTSPEC\n " + ("a > b" if bz else "a && G[0,1] b") + ";\n", ["a", "b"], ["-bz"] if bz else [])
    n = 2 + extra
    s = PRE + bytes_c(r.bin) + CHECK + "int vs_main(void) {\n  mon.out_func = cb;\n  vs_assert(r2u2_load_specification(SPEC, &mon) == R2U2_OK, \"specification rejected\");\n"
    for k in range(n):
        s += f"  LINES[0][{2 * k}] = '0' + vs_bool({k}); LINES[0][{2 * k + 1}] = '{',' if k < n - 1 else chr(92) + 'n'}';\n"
    s += f'''  vs_have = 1; reader(LINES[0]);
  vs_assert(r2u2_csv_load_next_signals(&rd, &mon) == R2U2_OK, "a line is read");
  compare({int(bz)}, 2, 0);
  vs_assert(r2u2_step(&mon) == R2U2_OK, "step reports an error");
  return 0;
}}
'''
    decide(chk, f"trace with {extra} more columns than the {'Booleanizer ' if bz else ''}specification reads", s, flags=bounds_flags(r.bounds), cli=True)
pmap(guarded(chk, go), jobs)
pmap(guarded(chk, wide), [(bz, e) for bz in (False, True) for e in (0, 1, 3, 12)])
chk.assume += ["field texts of the stated shapes: optional blanks and minus, digits, optional point; integers within 32 bits", "lines shorter than the reader's buffer",
    "sscanf, strtok and fgets behave as the C library documents (modelled in the executor)"]
chk.finish()
