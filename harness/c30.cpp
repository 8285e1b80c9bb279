// C30: a program run with and without tracing.  arg = program + 100 * mode; mode 0: trace on the standard output,
// 1: trace to a file.  Words of the object program with marked values are replaced by symbolic ones.
#include "xc.h"
static Machine M1, M2;
#define B "_b_e_g_i_n "
#define E " _e_n_d"
#define I "_i_n_t_e_g_e_r "
#define R "_r_e_a_l "
#define P "_p_r_o_c_e_d_u_r_e "
#define V "_v_a_l_u_e "
#define A "_a_r_r_a_y "
#define IF "_i_f "
#define TH " _t_h_e_n "
#define EL " _e_l_s_e "
static const char *const program[] = {
    // 0: arithmetic, relations, conditions
    B I "a, b; " R "x; a := 77771; b := 77772; print(a + b); print(a \303\227 b); " IF "a < b" TH "print(a)" EL "print(b); x := a / 4; print(x > 1.5 \342\210\247 a = b)" E,
    // 1: procedures by name and by value, recursion
    B I "a, n; " I P "f(k); " V "k; " I "k; f := " IF "k < 1" TH "1" EL "k \303\227 f(k-1); " P "p(x, y); " I "x, y; " B "x := x + y; n := n + x" E "; n := 0; a := 77771; print(f(a)); p(a, a + 77772); print(a); print(n)" E,
    // 2: arrays, for, switches and gotos
    B I "i, k; " I A "t[0:4]; _s_w_i_t_c_h s := one, two, three; k := 77771; _f_o_r i := 0 _s_t_e_p 1 _u_n_t_i_l 4 _d_o t[i] := i \303\227 k; print(t[k]); _g_o_t_o s[k]; "
      "one: print(1); two: print(2); three: print(t[77772])" E,
    // 3: local arrays, blocks, value arrays, a goto out of a procedure
    B I "n; " P "q(v); " V "v; " R A "v; " B "v[1] := v[1] + n; print(entier(v[1])); " IF "n > 2" TH "_g_o_t_o out" E "; n := 77771; " B R A "w[1:n+1]; w[1] := n; q(w); print(entier(w[1]))" E "; print(5); out: print(n)" E,
    // 4: output procedures
    B I "n; n := 77771; SPACE(n); print(n, 3); TAB; NLCR; print(sign(n - 3)); print(2)" E,
    // 5: errors: a subscript, a division by zero, an overflow
    B I "n; " I A "t[1:5]; n := 77771; print(12 \303\267 (n + 3)); t[n + 3] := 4; print(67108860 + n); print(n)" E,
    // 6: formal procedures, arrays and functions, reals
    B R "x; " I "k; " R A "t[1:3]; " P "p(f, a, y); " R P "f; " R A "a; " R "y; _f_o_r k := 1 _s_t_e_p 1 _u_n_t_i_l 3 _d_o " B "a[k] := f(k) + y; y := y / 2" E "; " R P "g(z); " R "z; g := z + 77772; "
      "x := 7.25; p(g, t, x); p(g, t, t[2]); print(entier(t[1] \303\227 16)); print(entier(t[3] \303\227 16)); print(x < t[2])" E,
    // 7: while elements, switches of switches, Booleans
    B I "i, n; _B_o_o_l_e_a_n c; n := 77771; c := n > 2 \342\210\247 \302\254 n = 5; _f_o_r i := n, i + 2 _w_h_i_l_e i < 9, 4 _s_t_e_p -n _u_n_t_i_l 1 _d_o " IF "c" TH "print(i)" EL "n := n + 1; print(n)" E,
    // 8: the library
    B R "x; " I "n; SETRANDOM(.3); n := 77772; x := RANDOM; x := RANDOM; print(entier(x \303\227 1000) + n)" E,
};
static std::ostringstream *out1, *out2;
static Outcome run(Machine &m, unsigned entry)
{
    try { m.run(entry); return DONE; }
    catch (const std::exception &) { return ERROR; }
}
extern "C" int harness(int arg)
{
    sym_exact(1);
    unsigned p = arg % 100, mode = arg / 100;
    const char *t = program[p];
    Xc x = xc_compile(t, strlen(t), p == 8);
    static Obj o;
    xc_object(x, o);
    CHECK(o.ok, "the program compiles");
    if (!o.ok) sym_stop("the program does not compile");
    ull a = sym_u64("a", 3), b = sym_u64("b", 3), na = sym_u64("na", 1);
    if (p == 2) { sym_assume((na == 0) & (a >= 1) & (a <= 3)); }
    if (p != 0 && p != 4 && p != 6) { a = sym_concretize(a); na = sym_concretize(na); }
    for (unsigned i = 0; i < o.nwords; i++) {
        if (o.word[i].w == 77771) o.word[i].w = na ? ~a & M27 : a;
        if (o.word[i].w == 77772) o.word[i].w = b;
    }
    xc_load(M1, o);
    xc_load(M2, o);
    out1 = new std::ostringstream;
    out2 = new std::ostringstream;
    std::streambuf *old = std::cout.rdbuf(out1->rdbuf());
    Outcome r1 = run(M1, o.entry);
    std::cout.rdbuf(out2->rdbuf());
    if (mode) Machine::redirect_trace("trace.out", true);
    else Machine::enable_trace(true);
    M2.enable_progress_message(mode);
    Outcome r2 = run(M2, o.entry);
    Machine::close_trace();
    std::cout.rdbuf(old);
    CHECK(!Machine::trace_enabled(), "tracing ends");
    CHECK(r1 == r2, "the same end");
    CHECK(M1.cpu.stack.count() == M2.cpu.stack.count(), "the same stack");
    bool same = (M1.cpu.get_a() == M2.cpu.get_a()) & (M1.cpu.get_s() == M2.cpu.get_s()) & (M1.cpu.get_b() == M2.cpu.get_b()) & (M1.cpu.get_c() == M2.cpu.get_c()) & (M1.cpu.get_ot() == M2.cpu.get_ot());
    CHECK(same, "the same registers");
    same = true;
    for (unsigned i = 0; i < M1.cpu.stack.count() && i < M2.cpu.stack.count(); i++) {
        const Stack_Cell &c = M1.cpu.stack.get(i), &d = M2.cpu.stack.get(i);
        same &= (c.type == d.type) & (c.value == d.value);
    }
    CHECK(same, "the same stack");
    Machine::enable_trace(false);
    same = true;
    for (unsigned i = 0; i < 32768; i++)
        if (i < 077750) same &= M1.mem_fetch(i) == M2.mem_fetch(i);
    CHECK(same, "the same memory");
    std::string s1 = out1->str(), s2 = out2->str();
    if (mode) {
        CHECK(s1.size() == s2.size(), "the same output");
        same = true;
        for (size_t i = 0; i < s1.size() && i < s2.size(); i++) same &= s1[i] == s2[i];
        CHECK(same, "the same output");
    }
    sym_observe("r", r1);
    sym_observe("n", s1.size());
    if (mode) sym_observe("n2", s2.size());
    sym_reach(r1 == DONE ? "done" : "error");
    return 0;
}
