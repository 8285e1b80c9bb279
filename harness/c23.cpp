// C23: the compiler process.  The system calls are inputs: what they answer is symbolic.
#include "x1.h"
#include <fstream>
#include <errno.h>
#include <fcntl.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <stdarg.h>
static Machine M;
static bool in_child, may_fork = true, may_wait = true;
static int status, nargs, in_fd = -1, out_fd = -1, stdout_fd = 1;
static int waited;
static bool opened_in, opened_out, exec_ok;
static const char *SRC = "c23t.a60", *OBJ = "c23t.x1", *LIB = "c23lib.x1", *COMP = "/c23/x1algc";

static bool same(const char *a, const char *b)
{
    while (*a && *a == *b) a++, b++;
    return *a == *b;
}
extern "C" pid_t fork() noexcept
{
    if (!may_fork) { errno = EAGAIN; return -1; }
    return in_child ? 0 : 4711;
}
extern "C" pid_t waitpid(pid_t pid, int *st, int)
{
    CHECK(!in_child && (pid == 4711 || pid == -1), "the parent waits for the compiler process");
    if (!may_wait || waited++) { errno = ECHILD; return -1; }
    if (st) *st = status;
    return 4711;
}
extern "C" pid_t wait(int *st) { return waitpid(-1, st, 0); }
extern "C" int open(const char *path, int flags, ...)
{
    CHECK(in_child, "files are opened by the child");
    if (same(path, SRC)) {
        CHECK(!(flags & (O_WRONLY | O_RDWR | O_TRUNC)), "the source is only read");
        if (sym_concretize(sym_u64("no_input", 1))) { errno = ENOENT; return -1; }
        opened_in = true;
        return in_fd = 7;
    }
    if (same(path, OBJ)) {
        CHECK((flags & (O_WRONLY | O_RDWR)) && (flags & (O_TRUNC | O_EXCL)), "the object file is written afresh");
        if (sym_concretize(sym_u64("no_output", 1))) { errno = EACCES; return -1; }
        opened_out = true;
        return out_fd = 8;
    }
    errno = ENOENT;
    return -1;
}
extern "C" int close(int) { return 0; }
extern "C" int dup2(int from, int to) noexcept
{
    if (to == 1) stdout_fd = from;
    return to;
}
extern "C" int execvp(const char *file, char *const argv[]) noexcept
{
    CHECK(in_child, "the child becomes the compiler");
    CHECK(opened_out && stdout_fd == out_fd, "the compiler writes the object file");
    CHECK(same(file, COMP) && argv[0], "the selected compiler is started");
    CHECK(argv[1] && same(argv[1], SRC) && argv[2] && same(argv[2], LIB) && !argv[3], "with the source and the library");
    if (sym_concretize(sym_u64("no_exec", 1))) { errno = ENOEXEC; sym_reach("exec fails"); return -1; }
    sym_reach("exec");
    sym_stop("process ends"), __builtin_unreachable();
}
extern "C" int execv(const char *file, char *const argv[]) noexcept { return execvp(file, argv); }
extern "C" void exit(int code) noexcept
{
    if (in_child) {
        CHECK(code & 0xff, "a child that cannot start the compiler ends with a failure");
        sym_reach("child fails");
    } else
        CHECK(false, "the parent reports the error");
    sym_stop("process ends"), __builtin_unreachable();
}
extern "C" void _exit(int code) { exit(code); }

static void stale_object()
{
    std::ofstream os(OBJ);
    os << "10000 " << (0220u << 15) + 077u << "\n10001 " << (0600u << 15) + 01234u << "\n10002 " << (unsigned)OPC_STOP << "\n"
       << (10000 >> 10) << ' ' << (10000 >> 5 & 31) << ' ' << (10000 & 31) << '\n';
}
static bool run()
{
    M.add_input_file(SRC);
    if (nargs == 2) M.add_input_file(LIB);
    else M.set_default_library(LIB);
    bool ok = true;
    try { M.compile_and_run(); } catch (const std::exception &) { ok = false; }
    return ok;
}

extern "C" int harness(int arg)
{
    stale_object(); // left by an earlier compilation
    nargs = 1 + (arg & 1);
    switch (arg >> 1) {
    case 0: { // parent
        M.set_compiler(COMP);
        status = (int)sym_u64("status", 16);
        may_fork = sym_concretize(sym_u64("forks", 1));
        may_wait = sym_concretize(sym_u64("waits", 1));
        bool good = may_fork && may_wait && (status & 0x7f) == 0 && (status >> 8 & 0xff) == 0;
        bool ok = run();
        bool ran = M.mem_load(01234) == 077;
        CHECK(ok == good, good ? "a program that was compiled is run" : "a failed compilation is reported");
        CHECK(ran == good, good ? "a program that was compiled is run" : "nothing is run");
        sym_reach(ok ? "run" : "refused");
        break;
    }
    case 1: // child
        in_child = true;
        M.set_compiler(COMP);
        run();
        CHECK(false, "the child never goes on as a simulator");
        break;
    case 2: { // no compiler selected
        CHECK(!run() && M.mem_load(01234) == 0, "a missing compiler is reported");
        sym_reach("none");
        break;
    }
    case 3: { // file names that are neither source nor object program
        M.set_compiler(COMP);
        M.add_input_file(nargs == 2 ? "c23t.txt" : "c23t");
        bool ok = true;
        try { M.compile_and_run(); } catch (const std::exception &) { ok = false; }
        CHECK(!ok && M.mem_load(01234) == 0, "an unknown kind of file is reported");
        sym_reach("name");
        break;
    }
    }
    return 0;
}
