// The compiler (x1algc.c) as a function: its C library calls go to the stand-ins of xc.cpp, which keep the source text
// and the output in memory, so that source characters and compiled words may be symbolic.
#pragma once
#include "x1.h"

struct XcItem { int num; long long v; };         // a character, or a number written with a numeric conversion
struct Xc {
    int status;                                  // exit status
    const XcItem *out;                           // everything written to standard output
    unsigned nout;
};
// Compile a source text; lib: with the library tape as second file.  copy: which of the two copies of the compiler
// (each can be used once, it keeps its state).
Xc xc_compile(const char *src, size_t n, bool lib = false, int copy = 0);

// Compile with the tape t as the library; a byte 1 in it stands for the next of the numbers v.
Xc xc_compile_tape(const char *src, size_t n, const char *t, size_t tn, const int *v);

struct Obj {
    bool ok;                                     // well-formed, with an entry address
    unsigned entry, nwords, nentries;
    struct { unsigned addr; ull w; } word[4000];
    unsigned lo, hi;                             // lowest and highest address
};
void xc_object(const Xc &x, Obj &o);             // interpret the output as an object program
void xc_load(Machine &m, const Obj &o);          // put it into memory, order counter at the entry

// Run until the end of the program, calling on_read at orders `read` (has to push one number) and on_print at orders
// `print` (the arguments are the stack cells from the index on).  Gives up after maxsteps orders.
enum Ran { R_DONE, R_ERROR, R_LIMIT };
Ran xc_run(Machine &m, unsigned maxsteps);
extern void (*xc_on_read)(Machine &m);
extern unsigned xc_steps;
// What print orders printed.
struct Printed { unsigned n; Stack_Cell c[64]; unsigned at[64]; };
extern Printed xc_printed;

// Compile, load, run a program text that has to compile; false with a message if it does not.
bool xc_start(Machine &m, const char *src, bool lib = false);
