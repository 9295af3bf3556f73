extern void vf_report(const char *);
struct vin { const char *n; const unsigned char *p; unsigned sz; };
extern const struct vin vf_inputs[];
static int nfail;
static int eq(const char *a, const char *b) { while (*a && *a == *b) ++a, ++b; return *a == *b; }
void vf_in(const char *name, void *p, unsigned sz)
{
  unsigned i; const struct vin *v;
  for (i = 0; i < sz; ++i) ((unsigned char *)p)[i] = 0;
  for (v = vf_inputs; v->n; ++v) if (eq(v->n, name)) for (i = 0; i < sz && i < v->sz; ++i) ((unsigned char *)p)[i] = v->p[i];
}
void vf_check(const char *label, int ok) { if (!ok) { ++nfail; vf_report(label); } }
extern void vf_stop(int);
void vf_assume(int ok) { if (!ok) vf_stop(nfail ? 1 : 3); }
extern void VF_ENTRY(void);
int vf_main(void) { VF_ENTRY(); return nfail ? 1 : 0; }
void *memcpy(void *d, const void *s, unsigned n) { unsigned char *p = d; const unsigned char *q = s; while (n--) *p++ = *q++; return d; }
void *memset(void *d, int c, unsigned n) { unsigned char *p = d; while (n--) *p++ = (unsigned char)c; return d; }
