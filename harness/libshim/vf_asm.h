#pragma once
/* wasm instructions used through asm() in the library, by their specification */
static inline double vf_asm_f64_ceil(double x) { return __builtin_ceil(x); }
static inline double vf_asm_f64_floor(double x) { return __builtin_floor(x); }
static inline double vf_asm_f64_trunc(double x) { return __builtin_trunc(x); }
static inline double vf_asm_f64_nearest(double x) { return __builtin_rint(x); }
static inline double vf_asm_f64_abs(double x) { return __builtin_fabs(x); }
static inline double vf_asm_f64_sqrt(double x) { return __builtin_sqrt(x); }
static inline double vf_asm_f64_copysign(double x, double y) { return __builtin_copysign(x, y); }
static inline double vf_asm_f64_max(double x, double y) { return x != x || y != y ? x + y : x > y ? x : y > x ? y : x == 0 ? (__builtin_signbit(x) ? y : x) : x; }
static inline double vf_asm_f64_min(double x, double y) { return x != x || y != y ? x + y : x < y ? x : y < x ? y : x == 0 ? (__builtin_signbit(x) ? x : y) : x; }
