// Programs: compile, run, compare what they print.
#pragma once
#include "xc.h"
static Machine M;
static Stack_Cell in[40]; // what read delivers, in this order
static int nin, nread;
static void rd(Machine &m)
{
    if (nread >= nin) sym_limit("the program reads more than it is given");
    m.cpu.stack.push(in[nread++]);
}
static void give(const Stack_Cell &c) { in[nin++] = c; }
static void give_int(ll v) { give(int_cell(ref_enc_int(v))); }
// A small symbolic integer, lo..hi, as a word the program reads.
static ll small(const char *n, ll lo, ll hi)
{
    int bits = 1;
    while ((1ll << bits) <= hi - lo) bits++;
    ull v = sym_u64(n, bits);
    if ((ull)(hi - lo) != (1ull << bits) - 1) sym_assume(v <= (ull)(hi - lo));
    ll x = (ll)v + lo;
    give_int(x);
    return x;
}
static ull choose(const char *n, ull count)
{
    int bits = 1;
    while ((1ull << bits) < count) bits++;
    ull v = sym_u64(n, bits);
    if ((1ull << bits) != count) sym_assume(v < count);
    return sym_concretize(v);
}
static Ran go(const char *src, unsigned steps = 4000, bool lib = false)
{
    nread = 0;
    xc_on_read = rd;
    bool ok = xc_start(M, src, lib);
    CHECK(ok, "the program compiles");
    if (!ok) sym_stop("the program does not compile");
    return xc_run(M, steps);
}
static bool is_int(const Stack_Cell &c, ll v) { return c.is_int_value() & (ref_int(c.value) == v) & (c.value <= M27); }
// The i-th number printed is the integer v.
static void want(unsigned i, ll v, const char *label)
{
    CHECK(i < xc_printed.n, "enough numbers are printed");
    if (i >= xc_printed.n) return;
    observe_cell("p", xc_printed.c[i]);
    CHECK(is_int(xc_printed.c[i], v), label);
}
static void wants(const ll *v, unsigned n, const char *label)
{
    CHECK(xc_printed.n == n, "as many numbers as expected");
    for (unsigned i = 0; i < n; i++) want(i, v[i], label);
}
