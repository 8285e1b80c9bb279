// C28: the compiler and damaged programs.  arg: 100 * program + part; parts 0..: one byte at one of ten places is any
// byte; 50..: the text ends early; 60..: a byte is left out.
#include "xc.h"
#define B "_b_e_g_i_n "
#define E " _e_n_d"
#define I "_i_n_t_e_g_e_r "
#define P "_p_r_o_c_e_d_u_r_e "
#define V "_v_a_l_u_e "
static const char *const program[] = {
    B I "a; " I "_a_r_r_a_y t[0:3]; a := 12.5; t[a] := (a + 3) \303\227 a; _i_f a < 4 _t_h_e_n print(t[1])" E,
    B I "i; " P "p(x); " V "x; _r_e_a_l x; " B "l: i := x; _g_o_t_o l" E "; _f_o_r i := 1, 2 _w_h_i_l_e i < 3 _d_o p(i)" E,
    B "_s_w_i_t_c_h s := m, n; _B_o_o_l_e_a_n b; m: b := _t_r_u_e; NLCR; n: _g_o_t_o s[2]; PRINTTEXT(\342\200\230x\342\200\231)" E,
};
static ull choose(const char *n, ull count)
{
    int bits = 1;
    while ((1ull << bits) < count) bits++;
    ull v = sym_u64(n, bits);
    if ((1ull << bits) != count) sym_assume(v < count);
    return sym_concretize(v);
}
extern "C" int harness(int arg)
{
    static char t[600];
    const char *src = program[arg / 100];
    int part = arg % 100;
    size_t n = strlen(src);
    memcpy(t, src, n);
    size_t at;
    if (part < 50) {
        at = (size_t)part * 6 + (size_t)choose("at", 6);
        if (at >= n) return 0;
        ull c = sym_u64("c", 8);
        t[at] = (char)c;
    } else if (part < 60) {
        at = (size_t)(part - 50) * 30 + (size_t)choose("at", 30);
        if (at >= n) return 0;
        n = at;
    } else {
        at = (size_t)(part - 60) * 30 + (size_t)choose("at", 30);
        if (at >= n) return 0;
        memmove(t + at, t + at + 1, n - at - 1);
        n--;
    }
    Xc x = xc_compile(t, n);
    CHECK(x.status == 0 || x.status == 1, "success or failure");
    if (x.status == 0) {
        static Obj o;
        xc_object(x, o);
        CHECK(o.ok, "a well-formed object program");
        sym_reach("success");
    } else
        sym_reach("failure");
    sym_observe("status", (ull)x.status);
    sym_observe("size", x.nout);
    return 0;
}
