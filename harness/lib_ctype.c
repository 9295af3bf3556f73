/* contracts: the character classification functions of lib/src/ctype.c against the C-locale tables */
#include "libshim/libpre.h"
#include <ctype.h>
/* ---- specification (ISO C 7.4 for the "C" locale on ASCII; characters above 127 belong to no class) */
static int sp_upper(int c) { return 'A' <= c && c <= 'Z'; }
static int sp_lower(int c) { return 'a' <= c && c <= 'z'; }
static int sp_digit(int c) { return '0' <= c && c <= '9'; }
static int sp_alpha(int c) { return sp_upper(c) || sp_lower(c); }
static int sp_alnum(int c) { return sp_alpha(c) || sp_digit(c); }
static int sp_print(int c) { return 0x20 <= c && c <= 0x7e; }
static int sp_graph(int c) { return 0x21 <= c && c <= 0x7e; }
static int sp_punct(int c) { return sp_graph(c) && !sp_alnum(c); }
static int sp_space(int c) { return c == ' ' || (9 <= c && c <= 13); }
static int sp_cntrl(int c) { return (0 <= c && c <= 0x1f) || c == 0x7f; }
static int sp_xdigit(int c) { return sp_digit(c) || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F'); }
static int sp_blank(int c) { return c == ' ' || c == 9; }
static int sp_ascii(int c) { return 0 <= c && c <= 127; }
static int sp_toupper(int c) { return sp_lower(c) ? c - 'a' + 'A' : c; }
static int sp_tolower(int c) { return sp_upper(c) ? c - 'A' + 'a' : c; }
#define ARG(c) (-1 <= (c) && (c) <= 255)
#define CLS(f, sp) int f(int c) REQUIRES(ARG(c)) ENSURES((RET != 0) == (sp(c) != 0)) ASSIGNS();
#define MAP(f, sp) int f(int c) REQUIRES(ARG(c)) ENSURES(RET == sp(c)) ASSIGNS();
CLS(isalnum, sp_alnum) CLS(isalpha, sp_alpha) CLS(iscntrl, sp_cntrl) CLS(isdigit, sp_digit)
CLS(isgraph, sp_graph) CLS(islower, sp_lower) CLS(isprint, sp_print) CLS(ispunct, sp_punct)
CLS(isspace, sp_space) CLS(isupper, sp_upper) CLS(isxdigit, sp_xdigit) CLS(isblank, sp_blank)
MAP(toupper, sp_toupper) MAP(tolower, sp_tolower)
int isascii(int c) ENSURES((RET != 0) == (sp_ascii(c) != 0)) ASSIGNS();

#include "ctype.c"

#ifdef CLASSIFY
void h_classify(void) { IN(int, c); ASSUME(ARG(in_c)); int r = FN(in_c); CHECK("class equals the C-locale table", (r != 0) == (SP(in_c) != 0)); REACH("after"); }
#endif
#ifdef MAPPING
void h_map(void) { IN(int, c); ASSUME(ARG(in_c)); int r = FN(in_c); CHECK("case mapping equals the C-locale table", r == SP(in_c)); REACH("after"); }
#endif
void h_isascii(void) { IN(int, c); int r = isascii(in_c); CHECK("isascii", (r != 0) == (sp_ascii(in_c) != 0)); REACH("after"); }
