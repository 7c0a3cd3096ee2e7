/* the interface of the C monitor on top of the Rust one, so that the same harnesses run on both */
#include "vs.h"
#include "r2u2.h"
void rs_init(const uint8_t *, size_t); void rs_update(const uint8_t *, size_t);
void rs_bool(size_t, uint8_t); void rs_int(size_t, int32_t); void rs_float(size_t, double);
uint8_t rs_step(void); size_t rs_count(void); uint32_t rs_num(size_t), rs_time(size_t); uint8_t rs_truth(size_t);
static r2u2_monitor_t *loaded;
static size_t length(const uint8_t *s) { size_t o = s[0]; while (s[o]) o += s[o]; return o + 1; }
r2u2_status_t r2u2_load_specification(uint8_t *s, r2u2_monitor_t *m) {
  if (loaded == m) rs_update(s, length(s)); else rs_init(s, length(s));
  loaded = m;
  return R2U2_OK;
}
r2u2_status_t r2u2_step(r2u2_monitor_t *m) {
  uint8_t ok = rs_step();
  for (size_t i = 0, n = rs_count(); i < n; i++) {
    r2u2_mltl_instruction_t ins = {0};
    ins.op2_value = rs_num(i);
    uint32_t t = rs_time(i);
    vs_assert((t & R2U2_TNT_TRUE) == 0, "verdict time out of range");
    r2u2_verdict v = rs_truth(i) ? set_verdict_true(t) : set_verdict_false(t);
    if (m->out_func) m->out_func(ins, &v);
  }
  return ok ? R2U2_OK : R2U2_ERR_OTHER;
}
void r2u2_load_bool_signal(r2u2_monitor_t *m, size_t i, r2u2_bool v) { rs_bool(i, v); }
void r2u2_load_int_signal(r2u2_monitor_t *m, size_t i, r2u2_int v) { rs_int(i, v); }
void r2u2_load_float_signal(r2u2_monitor_t *m, size_t i, r2u2_float v) { rs_float(i, v); }
