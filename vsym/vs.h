/* harness interface of the symbolic executor; the same harness also compiles natively for replay (vsnat.c) */
#ifndef VS_H
#define VS_H
#include <stdint.h>
_Bool vs_bool(int id);
int32_t vs_small(int id, int lo, int hi);
uint8_t vs_u8(int id);
int32_t vs_i32(int id);
uint32_t vs_u32(int id);
uint64_t vs_u64(int id);
double vs_f64(int id);
void vs_assume(_Bool c);
void vs_assert(_Bool c, const char *msg);
void vs_reach(int id);
#endif
