/* shim: the same intrinsics, expressed for the C front ends of the verifier / clang */
#pragma once
#include "../vf_asm.h"
static inline int vf_clz32(unsigned x) { int n = 0; unsigned b; for (b = 0x80000000u; b != 0 && !(x & b); b >>= 1) ++n; return n; }
static inline int vf_ctz32(unsigned x) { int n = 0, i; if (!x) return 32; for (i = 0; i < 32; ++i) if (x & (1u << i)) return i; return n; }
static inline int vf_pop32(unsigned x) { int n = 0, i; for (i = 0; i < 32; ++i) n += (x >> i) & 1; return n; }
static inline int vf_clz64(unsigned long long x) { int n = 0, i; for (i = 63; i >= 0 && !((x >> i) & 1); --i) ++n; return n; }
#define _clz(x) (sizeof(x) == 8 ? vf_clz64(x) : vf_clz32((unsigned)(x)))
#define _ctz(x) vf_ctz32(x)
#define _popcnt(x) vf_pop32(x)
#define _rotl(x, n) (((x) << (n)) | ((x) >> (sizeof(x) * 8 - (n))))
static inline unsigned vf_fasu(float f) { union { float f; unsigned u; } v; v.f = f; return v.u; }
static inline float vf_uasf(unsigned u) { union { float f; unsigned u; } v; v.u = u; return v.f; }
static inline unsigned long long vf_dasull(double f) { union { double f; unsigned long long u; } v; v.f = f; return v.u; }
static inline double vf_ullasd(unsigned long long u) { union { double f; unsigned long long u; } v; v.u = u; return v.f; }
#define _fasu(x) vf_fasu(x)
#define _uasf(x) vf_uasf(x)
#define _dasull(x) vf_dasull(x)
#define _ullasd(x) vf_ullasd(x)
#ifdef VF_OWN_MEMOPS
extern void vf_memfill(void *d, unsigned v, size_t n);
extern void vf_memcopy(void *d, const void *s, size_t n);
#else
static void vf_memfill(void *d, unsigned v, size_t n) { unsigned char *p = d; while (n--) *p++ = (unsigned char)v; }
static void vf_memcopy(void *d, const void *s, size_t n) /* wasm memory.copy: overlap-safe */
{ unsigned char *p = d; const unsigned char *q = s;
  if ((uintptr_t)p <= (uintptr_t)q) while (n--) *p++ = *q++; else while (n--) p[n] = q[n]; }
#endif
#define _bfill(d, v, n) (vf_memfill(d, v, n))
#define _bzero(d, n)    (vf_memfill(d, 0, n))
#define _bcopy(d, s, n) (vf_memcopy(d, s, n))
#define __builtin_asuint32(x) vf_fasu(x)
#define __builtin_asfloat(x) vf_uasf(x)
#define __builtin_asuint64(x) vf_dasull(x)
#define __builtin_asdouble(x) vf_ullasd(x)
