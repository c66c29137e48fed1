// Native replay runtime: feeds a recorded counterexample to the same harness, compiled by the project's own compiler.
// Plain C inside, because the harness replaces operator delete.
#include "nsym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
static unsigned long* vals; static size_t nvals, capv, pos; static bool covers;
static char pname[64][64]; static int pval[64], npar;
static void** blk; static size_t nblk, cblk;      // blocks handed to the library and not yet returned
static unsigned long next() { return pos < nvals ? vals[pos++] : 0; }
static void bad(const char* kind, const char* what) { printf("REPLAY-FAIL %s: %s\n", kind, what); fflush(stdout); _Exit(77); }
void* operator new(std::size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void* operator new[](std::size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void operator delete[](void* p) noexcept { free(p); }
void operator delete[](void* p, std::size_t) noexcept { free(p); }
extern "C" {
unsigned char nsym_u8(const char*) { return (unsigned char)next(); }
unsigned nsym_u32(const char*) { return (unsigned)next(); }
unsigned long nsym_u64(const char*) { return next(); }
unsigned nsym_range(const char*, unsigned) { return (unsigned)next(); }
unsigned nsym_choice(const char*, unsigned) { return (unsigned)next(); }
void nsym_assume(int c) { if (!c) { printf("REPLAY-ASSUME\n"); fflush(stdout); _Exit(78); } }
void nsym_check(int c, const char* what) { if (!c) bad("check", what); }
void nsym_fail(const char* what) { bad("fail", what); _Exit(77); }
unsigned nsym_fork(unsigned v) { return v; }
unsigned long nsym_fork64(unsigned long v) { return v; }
void nsym_cover(const char* l) { if (covers) printf("cover %s\n", l); }
int nsym_param(const char* n, int d) { for (int i = 0; i < npar; ++i) if (!strcmp(n, pname[i])) return pval[i]; return d; }
void* nsym_malloc(unsigned long n) {
  void* p = malloc(n ? n : 1); if (!p) return 0;
  memset(p, 0xa5, n);
  if (nblk == cblk) { cblk = cblk ? 2 * cblk : 64; blk = (void**)realloc(blk, cblk * sizeof *blk); }
  blk[nblk++] = p; return p; }
void nsym_free(void* p) { if (!p) return; for (size_t i = nblk; i-- > 0;) if (blk[i] == p) { blk[i] = blk[--nblk]; break; } free(p); }
void nsym_end() { fflush(stdout); _Exit(0); }
}
int main(int argc, char** argv) {
  covers = getenv("NSYM_COVERS") != 0;
  FILE* f = argc > 1 ? fopen(argv[1], "r") : 0; if (!f) { fprintf(stderr, "usage: replay FILE\n"); return 2; }
  char a[64], b[64]; unsigned long v;
  while (fscanf(f, "%63s %63s %lu", a, b, &v) == 3) {
    if (!strcmp(a, "P") && npar < 64) { strcpy(pname[npar], b); pval[npar++] = (int)(long)v; }
    else if (!strcmp(a, "I")) { if (nvals == capv) { capv = capv ? 2 * capv : 64; vals = (unsigned long*)realloc(vals, capv * sizeof *vals); } vals[nvals++] = v; } }
  fclose(f);
  harness();
  if (nblk) bad("leak", "memory obtained by the library is still allocated at the end");
  printf("REPLAY-OK\n"); fflush(stdout); _Exit(0);
}
