// What a few AArch64 vector instructions compute, in plain C, for running the AArch64 build's
// LLVM IR on this machine (replay and validation only; see driver.py).
#include <stdint.h>
#include <string.h>
typedef uint8_t v16 __attribute__((vector_size(16)));
#define N(x) __asm__("vfshim." x)
v16 tbl1(v16 t, v16 i) N("tbl1.v16i8");
v16 tbl1(v16 t, v16 i) { v16 r; for (int k = 0; k < 16; k++) r[k] = i[k] < 16 ? t[i[k]] : 0; return r; }
v16 tbl2(v16 t, v16 u, v16 i) N("tbl2.v16i8");
v16 tbl2(v16 t, v16 u, v16 i) { v16 r; for (int k = 0; k < 16; k++) r[k] = i[k] < 16 ? t[i[k]] : i[k] < 32 ? u[i[k] - 16] : 0; return r; }
v16 urhadd(v16 a, v16 b) N("urhadd.v16i8");
v16 urhadd(v16 a, v16 b) { v16 r; for (int k = 0; k < 16; k++) r[k] = (a[k] + b[k] + 1) >> 1; return r; }
v16 uhadd(v16 a, v16 b) N("uhadd.v16i8");
v16 uhadd(v16 a, v16 b) { v16 r; for (int k = 0; k < 16; k++) r[k] = (a[k] + b[k]) >> 1; return r; }
void st1x2(v16 a, v16 b, uint8_t *p) N("st1x2.v16i8.p0");
void st1x2(v16 a, v16 b, uint8_t *p) { memcpy(p, &a, 16); memcpy(p + 16, &b, 16); }
