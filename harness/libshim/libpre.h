/* stands for what is built into wcpl: basic typedefs, NULL, bool, static_assert, limits of intptr_t;
 * and keeps the library's names apart from the verifier's own libc models (pure renaming). */
#ifndef LIBPRE_H
#define LIBPRE_H
#include "../vf.h"
typedef __SIZE_TYPE__ size_t; typedef int ssize_t; typedef int wchar_t; typedef int ptrdiff_t;
typedef signed char int8_t; typedef unsigned char uint8_t; typedef short int16_t; typedef unsigned short uint16_t;
typedef int int32_t; typedef unsigned int uint32_t; typedef long long int64_t; typedef unsigned long long uint64_t;
typedef int intptr_t; typedef unsigned uintptr_t;
#define bool _Bool
#define true 1
#define false 0
#define NULL ((void *)0)
#define INTPTR_MIN (-1-0x7fffffff)
#define INTPTR_MAX 0x7fffffff
#define UINTPTR_MAX 0xffffffffU
#define INT8_MIN (-128)
#define INT64_MAX 0x7fffffffffffffffLL
#define static_assert(...) struct vf_static_assert /* layout assertions are checked by wcpl when it builds the library */
#define alignof(t) _Alignof(t)
#define HUGE_VAL (__builtin_huge_val())
#define HUGE_VALF (__builtin_huge_valf())
#define offsetof(t, f) __builtin_offsetof(t, f)
#ifdef VF_WIDE
#define VF_PTRSZ 0 /* verification model only, for code without long: pointers are widened so that offsets up to 2 GB fit beside the object number */
#else
#define VF_PTRSZ sizeof(void *) == 4
#endif
_Static_assert((VF_PTRSZ && sizeof(long) == 4 || sizeof(void *) == 8) && sizeof(long long) == 8, "wasm32 data model");
#define R(x) wl_##x
#include "rename.h"
#endif
