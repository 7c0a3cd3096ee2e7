"""Harness generator for whole-monitor runs: real loader, real step function, symbolic trace, C oracle of the semantics."""
from logic import *
HEAD = '''#include "vs.h"
#include "r2u2.h"
#include <string.h>
static char vs_file[256];
#define VS_FILE ((FILE*)vs_file)
'''
def bytes_c(b, name="SPEC"):
    return f"static uint8_t {name}[] = {{{','.join(str(x) for x in b)}}};\n"
def monitor_harness(spec, fs, nsig, N, timely=True, correct=True, delays=None, idx=None, setup="", reach=True, order=True, gen=None, loads=None, decls="", pre=""):
    """spec: binary; fs: {formula number: ast}; N steps; delays: {number: allowed delay}; idx: signal index per variable"""
    nums = sorted(fs)
    hz = max([horizon(fs[k]) for k in nums] + [0])
    T = N + hz
    idx = idx or list(range(nsig))
    decl, body, roots = c_oracle([fs[k] for k in nums], T)
    nf = len(nums)
    s = HEAD + bytes_c(spec) + f'''
static r2u2_monitor_t mon = R2U2_DEFAULT_MONITOR;
static _Bool in[{T}][{max(nsig,1)}];
static unsigned nxt[{nf}];
{decls}
{decl}
static _Bool *ref_of(unsigned i) {{ switch (i) {{ {' '.join(f"case {i}: return {r};" for i, r in enumerate(roots))} }} return 0; }}
static r2u2_status_t cb(r2u2_mltl_instruction_t ins, r2u2_verdict *v) {{
  unsigned id = ins.op2_value, t = get_verdict_time(*v); _Bool tr = get_verdict_truth(*v);
  unsigned i;
  switch (id) {{ {' '.join(f"case {k}: i = {i}; break;" for i, k in enumerate(nums))} default: vs_assert(0, "unknown formula number"); return R2U2_OK; }}
  {'vs_assert(t >= nxt[i], "order: verdict not later than the previous one");' if order else 'if (t < nxt[i]) nxt[i] = t;'}
  if (t >= {N}) t = {N} - 1;
  {'for (unsigned k = 0; k < %d; k++) if (k >= nxt[i] && k <= t) vs_assert(ref_of(i)[k] == tr, "verdict differs from the semantics");' % N if correct else ''}
  nxt[i] = t + 1;
  return R2U2_OK;
}}
int vs_main(void) {{
{gen if gen is not None else '  for (int t = 0; t < %d; t++) for (int k = 0; k < %d; k++) in[t][k] = vs_bool(t * %d + k);' % (T, nsig, max(nsig,1))}
{body}
  mon.out_func = cb;
  {pre}
  vs_assert(r2u2_load_specification(SPEC, &mon) == R2U2_OK, "specification rejected by the monitor");
  {setup}
  for (int t = 0; t < {N}; t++) {{
{loads if loads is not None else ''.join(f"    r2u2_load_bool_signal(&mon, {idx[k]}, in[t][{k}]);" + chr(10) for k in range(nsig))}
    vs_assert(r2u2_step(&mon) == R2U2_OK, "step reports an error");
'''
    if timely:
        for i, k in enumerate(nums):
            d = (delays or {}).get(k, horizon(fs[k]))
            s += f'    vs_assert((int)nxt[{i}] >= t + 1 - {d}, "verdict of formula {k} is late");\n'
    s += "  }\n}\n".replace("}\n}\n", "}\n  return 0;\n}\n")
    return s
