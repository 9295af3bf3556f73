/* native replay runtime: feeds the recorded counterexample into a harness */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static int nfail = 0;
void vf_in(const char *name, void *p, unsigned sz)
{
  FILE *f = fopen(getenv("VF_INPUTS"), "r"); char nm[256], hx[8192]; unsigned i;
  memset(p, 0, sz);
  if (!f) { puts("no inputs"); exit(3); }
  while (fscanf(f, "%255s %8191s", nm, hx) == 2) {
    if (strcmp(nm, name) != 0) continue;
    for (i = 0; i < sz && hx[2*i] && hx[2*i+1]; ++i) {
      unsigned b; sscanf(hx + 2*i, "%2x", &b); ((unsigned char *)p)[i] = (unsigned char)b;
    }
  }
  fclose(f);
}
void vf_check(const char *label, int ok) 
{ if (!ok) { ++nfail; printf("REPLAY-FAILED: %s\n", label); fflush(stdout); } }
void vf_assume(int ok) { if (!ok) { puts("REPLAY-ASSUMPTION-NOT-MET"); exit(nfail ? 1 : 3); } }
extern void VF_ENTRY(void);
int main(void) { VF_ENTRY(); if (!nfail) puts("REPLAY-PASSED"); return nfail ? 1 : 0; }
