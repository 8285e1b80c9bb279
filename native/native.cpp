#include <sys/syscall.h>
#include <unistd.h>
// Native implementation of the harness interface (models/sym.h): runs a harness built from /repo's sources with
// the ordinary compiler and the ordinary C++ library on the concrete inputs the solver returned.
//   usage: harness_native ARG INPUTFILE
// Exit: 0 ran to the end, 3 an assertion failed, 4 an exception escaped, 77 an assumption did not hold.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <exception>
#include <unistd.h>

static std::map<std::string, uint64_t> inputs;
static std::map<std::string, std::map<uint64_t, uint64_t>> regions;
static std::map<std::string, int> counts;
static int failures;
static FILE *out;

extern "C" int harness(int arg);

static std::string unique(const char *name)
{
    int n = counts[name]++;
    return n ? std::string(name) + "#" + std::to_string(n) : std::string(name);
}
extern "C" {
uint64_t sym_u64(const char *name, int bits)
{
    auto it = inputs.find(unique(name));
    uint64_t v = it == inputs.end() ? 0 : it->second;
    return bits >= 64 ? v : v & ((1ull << bits) - 1);
}
static void done(int rc) { fflush(stdout); fflush(out); syscall(SYS_exit_group, rc); __builtin_unreachable(); }
void sym_assume(int c) { if (!c) { fprintf(out, "ASSUME\n"); done(77); } }
void sym_assert(int c, const char *label)
{
    if (!c) { fprintf(out, "\nFAIL %s\n", label); failures++; }
}
void sym_reach(const char *label) { fprintf(out, "\nREACH %s\n", label); }
void sym_observe(const char *name, uint64_t v) { fprintf(out, "\nOBS %s %llu\n", name, (unsigned long long)v); }
int sym_is_symbolic(void) { return 0; }
int sym_has_symbols(uint64_t) { return 0; }
uint64_t sym_concretize(uint64_t v) { return v; }
void sym_exact(int) {}
void sym_stop(const char *why) { fprintf(out, "STOP %s\n", why); done(failures ? 3 : 0); }
void sym_limit(const char *why) { fprintf(out, "LIMIT %s\n", why); done(78); }
void sym_print(const char *name, uint64_t v) { fprintf(stderr, "%s = %llu\n", name, (unsigned long long)v); }
void sym_region(void *p, uint64_t nbytes, int elem, const char *name)
{
    elem &= 255;
    memset(p, 0, nbytes);
    for (auto &e : regions[name])
        if ((e.first + 1) * elem <= nbytes) memcpy((char *)p + e.first * elem, &e.second, elem);
}
}

int main(int argc, char **argv)
{
    out = fdopen(dup(1), "w");
    if (argc > 2) {
        FILE *f = fopen(argv[2], "r");
        if (!f) { perror(argv[2]); return 2; }
        char line[4096];
        while (fgets(line, sizeof line, f)) {
            char name[1000], a[100], b[100];
            if (sscanf(line, "I %999s %99s", name, a) == 2) inputs[name] = strtoull(a, nullptr, 10);
            else if (sscanf(line, "R %999s %99s %99s", name, a, b) == 3) regions[name][strtoull(a, nullptr, 10)] = strtoull(b, nullptr, 10);
        }
        fclose(f);
    }
    try { harness(argc > 1 ? atoi(argv[1]) : 0); }
    catch (const std::exception &e) { fprintf(out, "\nFAIL uncaught exception: %s\n", e.what()); done(4); }
    catch (...) { fprintf(out, "\nFAIL uncaught exception\n"); done(4); }
    fprintf(out, "END\n");
    done(failures ? 3 : 0);
}
