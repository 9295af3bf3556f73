#pragma once
/* wcpl passes ... as a pointer to an array of 8-byte slots */
typedef union va_arg_u { int va_int; unsigned va_uint; long va_long; unsigned long va_ulong; long long va_llong; unsigned long long va_ullong; size_t va_size; double va_double; void *va_voidptr; char *va_charptr; } va_arg_t;
typedef va_arg_t *va_list;
#define va_arg(ap, T) (*(T *)(ap)++)
#define va_end(ap) ((void)(ap = NULL))
#define va_copy(dst, src) ((dst) = (src))
static va_arg_t vf_va[8];  /* the variadic arguments of the call under verification */
#define va_start(ap, v) ((ap) = vf_va)
#define va_etc() (vf_va)
