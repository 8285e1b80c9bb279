// Interface between harnesses and the symbolic executor.  The native run-time
// (native.cpp) implements the same interface for replays.
#pragma once
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
uint64_t sym_u64(const char *name, int bits);           // an arbitrary value
void sym_assume(int);
void sym_assert(int, const char *label);
void sym_reach(const char *label);
void sym_observe(const char *name, uint64_t value);
int sym_is_symbolic(void);
int sym_has_symbols(uint64_t);
uint64_t sym_concretize(uint64_t);
void sym_stop(const char *why);
void sym_limit(const char *why);
void sym_print(const char *name, uint64_t value);
void sym_exact(int on);                                 // symbolic numbers are written with all their digits
// Arbitrary contents: elements of elemsize bytes; elemsize may carry the number of significant bits << 8.
void sym_region(void *p, uint64_t nbytes, int elemsize, const char *name);
#ifdef __cplusplus
}
#endif
