/* vf.h -- common harness vocabulary.
 *
 * A harness is compiled in two ways from the same text:
 *   - by goto-cc (macro __CPROVER defined): IN() is an unconstrained symbolic value, the
 *     REQUIRES/ENSURES/ASSIGNS macros are CBMC code contracts, CHECK() is a proof obligation;
 *   - by gcc/clang (replay): IN() reads the value of the verifier's counterexample and CHECK()
 *     is evaluated on the real code, concretely.
 * REACH() marks a point that must be reachable (vacuity guard): the engine demands that the
 * obligation "false" placed there FAILS. */
#ifndef VF_H
#define VF_H

#ifdef VF_PROVE
#define REQUIRES(...) __CPROVER_requires(__VA_ARGS__)
#define ENSURES(...)  __CPROVER_ensures(__VA_ARGS__)
#define ASSIGNS(...)  __CPROVER_assigns(__VA_ARGS__)
#define OLD(x) __CPROVER_old(x)
#define RET __CPROVER_return_value
#define VF_J2(a, b, c) a##b##_##c
#define VF_J(a, b, c) VF_J2(a, b, c)
#define VF_IN(T, n, f) T f(void); T in_##n = f()
#define IN(T, n) VF_IN(T, n, VF_J(nondet_, n, __LINE__))
#define VF_INA(T, n, k, f) T f(void); T in_##n[k]; \
  for (int vf_i_##n = 0; vf_i_##n < (k); ++vf_i_##n) in_##n[vf_i_##n] = f()
#define INA(T, n, k) VF_INA(T, n, k, VF_J(nondet_, n, __LINE__))
#define ASSUME(c) __CPROVER_assume(c)
#define CHECK(l, c) __CPROVER_assert((c), "CHECK " l)
#define NCHECK(l, c) ((void)0) /* stated by the enforced contract; evaluated in native replay only */
#define REACH(l) __CPROVER_assert(0, "REACH " l)
#define VF_NATIVE 0
#else
#define REQUIRES(...)
#define ENSURES(...)
#define ASSIGNS(...)
#define VF_NATIVE 1
extern void vf_in(const char *name, void *p, unsigned sz);
extern void vf_check(const char *label, int ok);
extern void vf_assume(int ok);
#define IN(T, n) T in_##n; vf_in("in_" #n, &in_##n, sizeof(in_##n))
#define INA(T, n, k) T in_##n[k]; vf_in("in_" #n, &in_##n[0], sizeof(in_##n))
#define ASSUME(c) vf_assume(!!(c))
#define CHECK(l, c) vf_check(l, !!(c))
#define NCHECK(l, c) vf_check(l, !!(c))
#define REACH(l) ((void)0)
#define __CPROVER_assume(c) vf_assume(!!(c))
#define __CPROVER_assert(c, l) vf_check(l, !!(c))
#endif

#endif
