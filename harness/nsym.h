// Interface between a harness and whatever runs it: the symbolic executor (engine/nsym.cpp) or, for replaying a
// counterexample natively, the runtime in rt.cpp.
#ifndef NSYM_H
#define NSYM_H
#include <cstddef>
extern "C" {
unsigned char nsym_u8(const char* name);                 // arbitrary value
unsigned nsym_u32(const char* name);
unsigned long nsym_u64(const char* name);
unsigned nsym_range(const char* name, unsigned n);       // arbitrary value < n, stays symbolic
unsigned nsym_choice(const char* name, unsigned n);      // arbitrary value < n, one path per value
void nsym_assume(int cond);
void nsym_check(int cond, const char* what);
[[noreturn]] void nsym_fail(const char* what);
unsigned nsym_fork(unsigned v);                          // same value, one path per feasible value
unsigned long nsym_fork64(unsigned long v);
void nsym_cover(const char* label);                      // must be reached by at least one path (vacuity guard)
int nsym_param(const char* name, int dflt);              // bound given on the command line
void* nsym_malloc(unsigned long n);
void nsym_free(void* p);
[[noreturn]] void nsym_end();                            // end this path (no leak check)
void harness();
}
#endif
