// C24: expressions.  A tree of operators is written with the fewest parentheses ALGOL needs, compiled and run; the
// result has to be what the orders give when the tree is evaluated directly.
#include "xc.h"
static Machine M, N;

enum Op { LEAF, ADD, SUB, MUL, DIV, IDI, POW, NEG, COND, LT, LE, EQ, GE, GT, NE, NOT, AND, OR, IMP, EQV, BLEAF, NUM };
struct Sem { const char *text; int prec; unsigned opc; };
static const Sem sem[] = {
    {"", 20, 0}, {"+", 11, OPC_ADD}, {"-", 11, OPC_SUB}, {"\303\227", 12, OPC_MUL}, {"/", 12, OPC_DIV}, {"\303\267", 12, OPC_IDI}, {"\342\206\221", 13, OPC_TTP},
    {"-", 11, OPC_NEG}, {"", 1, 0}, {"<", 8, OPC_LES}, {"\342\211\244", 8, OPC_MST}, {"=", 8, OPC_EQU}, {"\342\211\245", 8, OPC_LST}, {">", 8, OPC_MOR},
    {"\342\211\240", 8, OPC_UQU}, {"\302\254", 7, OPC_NON}, {"\342\210\247", 6, OPC_AND}, {"\342\210\250", 5, OPC_OR}, {"\342\212\203", 4, OPC_IMP}, {"\342\211\241", 3, OPC_QVL},
    {"", 20, 0}, {"", 20, 0},
};
struct Node { Op op; int k[3]; int var; };
static Node t[24];
static int nt;
static int leaf(int var) { t[nt].op = LEAF; t[nt].var = var; return nt++; }
static int bleaf(int var) { t[nt].op = BLEAF; t[nt].var = var; return nt++; }
static int num(int v) { t[nt].op = NUM; t[nt].var = v; return nt++; }
static int un(Op op, int a) { t[nt].op = op; t[nt].k[0] = a; return nt++; }
static int bin(Op op, int a, int b) { t[nt].op = op; t[nt].k[0] = a; t[nt].k[1] = b; return nt++; }
static int cond(int c, int a, int b) { t[nt].op = COND; t[nt].k[0] = c; t[nt].k[1] = a; t[nt].k[2] = b; return nt++; }

// ---- the text
static char txt[1200];
static size_t len;
static void w(const char *s) { while (*s) txt[len++] = *s++; }
static void wr(int n, int prec, bool right)
{
    const Sem &s = sem[t[n].op];
    // The right operand of an operator of the same precedence needs parentheses; so does a signed operand.
    bool par = t[n].op == COND ? prec > 0 : s.prec < prec || (s.prec == prec && right) || (t[n].op == NEG && prec >= 11) || (t[n].op == NOT && prec > 7);
    if (par) w("(");
    switch (t[n].op) {
    case LEAF: { char v[3] = {"xyzuv"[t[n].var], 0, 0}; w(v); break; }
    case BLEAF: { char v[3] = {"pqrs"[t[n].var], 0, 0}; w(v); break; }
    case NUM: { char v[3] = {(char)('0' + t[n].var), 0, 0}; w(v); break; }
    case NEG: w("-"); wr(t[n].k[0], 11, true); break;
    case NOT: w(s.text); wr(t[n].k[0], 7, false); break;
    case COND:
        w(" _i_f "); wr(t[n].k[0], 1, false);
        w(" _t_h_e_n "); wr(t[n].k[1], 1, false);
        w(" _e_l_s_e "); wr(t[n].k[2], 0, false);
        break;
    default:
        wr(t[n].k[0], s.prec, false); w(s.text); wr(t[n].k[1], s.prec, true);
    }
    if (par) w(")");
}

// ---- the value
static Stack_Cell var[5];
static bool bvar[4];
struct Bad {};
static Stack_Cell order(unsigned opc, int n, const Stack_Cell *a)
{
    for (int i = 0; i < n; i++) N.cpu.stack.push(a[i]);
    if (exec_opc(N, opc) != OK) throw Bad();
    Stack_Cell r = N.cpu.stack.top();
    N.cpu.stack.pop();
    return r;
}
static Stack_Cell eval(int n)
{
    Stack_Cell a[2];
    switch (t[n].op) {
    case LEAF: return var[t[n].var];
    case BLEAF: return int_cell(bvar[t[n].var] ? 0 : 1);
    case NUM: return int_cell((ull)t[n].var);
    case NEG: case NOT: a[0] = eval(t[n].k[0]); return order(sem[t[n].op].opc, 1, a);
    case COND: return eval(t[n].k[0]).value == 0 ? eval(t[n].k[1]) : eval(t[n].k[2]);
    default: a[0] = eval(t[n].k[0]); a[1] = eval(t[n].k[1]); return order(sem[t[n].op].opc, 2, a);
    }
}

// ---- the variables' values are read by the program
static int nvar, nbool, nread, kinds; // kinds: bit i: variable i is real
static unsigned isize;
static bool fixed; // the operands are the numbers below, chosen so that no two groupings give the same value
static void rd(Machine &m)
{
    int i = nread++;
    if (i < nvar) { m.cpu.stack.push(var[i]); return; }
    m.cpu.stack.push(int_cell(bvar[i - nvar] ? 1 : 0));
}
static void values()
{
    for (int i = 0; i < nvar; i++) {
        char n[3] = {'v', (char)('0' + i), 0};
        if (kinds >> i & 1) {
            static const long double r[4] = {5.75L, -3.125L, 11.5L, 0.4375L};
            var[i] = real_cell(ieee_to_x1(r[i]));
        } else if (fixed || kinds) {
            static const int k[4] = {23, -4, 9, 5};
            var[i] = int_cell(k[i] < 0 ? M27 - (ull)-k[i] : (ull)k[i]);
        } else {
            ull v = sym_u64(n, 27);
            static const unsigned from[4] = {97, 30, 7, 2};
            if (isize) sym_assume(v < (1u << isize) || v > M27 - (1u << isize)); // small either way
            else sym_assume(v >= from[i] && v < from[i] + 4);
            var[i] = int_cell(v);
        }
    }
    for (int i = 0; i < nbool; i++) {
        char n[3] = {'b', (char)('0' + i), 0};
        bvar[i] = sym_concretize(sym_u64(n, 1));
    }
}
static void run(int root, bool boolean)
{
    len = 0;
    w("_b_e_g_i_n ");
    for (int i = 0; i < nvar; i++) {
        char n[3] = {"xyzuv"[i], ';', 0};
        w(kinds >> i & 1 ? "_r_e_a_l " : "_i_n_t_e_g_e_r ");
        w(n);
    }
    for (int i = 0; i < nbool; i++) {
        char n[3] = {"pqrs"[i], ';', 0};
        w("_b_o_o_l_e_a_n ");
        w(n);
    }
    for (int i = 0; i < nvar; i++) {
        char n[3] = {"xyzuv"[i], 0, 0};
        w(n);
        w(":=read;");
    }
    for (int i = 0; i < nbool; i++) {
        char n[3] = {"pqrs"[i], 0, 0};
        w(n);
        w(":=read>0;");
    }
    if (boolean) { w("_i_f ("); wr(root, 0, false); w(") _t_h_e_n print(1) _e_l_s_e print(0)"); }
    else { w("print("); wr(root, 0, false); w(")"); }
    w(" _e_n_d\n");
    txt[len] = 0;
    values();
    bool good = true;
    Stack_Cell want = int_cell(0);
    try { want = eval(root); } catch (const Bad &) { good = false; }
    xc_on_read = rd;
    bool ok = xc_start(M, txt);
    CHECK(ok, "an ALGOL expression compiles");
    Ran r = xc_run(M, 2000);
    CHECK(r != R_LIMIT, "the program ends");
    CHECK((r == R_DONE) == good, good ? "a defined value is no error" : "an undefined value is an error");
    if (!good) { sym_reach("error"); return; }
    CHECK(xc_printed.n == 1, "one value");
    Stack_Cell got = xc_printed.c[0];
    observe_cell("r", got);
    if (boolean) CHECK(got.value == (want.value == 0 ? 1u : 0u), "the truth value ALGOL defines");
    else CHECK(num_same(got, want), "the value ALGOL defines");
    sym_reach("value");
}

static int pick(const char *n, unsigned count)
{
    ull v = sym_u64(n, 5);
    sym_assume(v < count);
    return (int)sym_concretize(v);
}
// Shapes of trees with three operators, operators in the order written.
static int shape3(int s, Op a, Op b, Op c, int (*lf)(int))
{
    int x = lf(0), y = lf(1), z = lf(2), u = lf(3);
    switch (s) {
    case 0: return bin(c, bin(b, bin(a, x, y), z), u);
    case 1: return bin(c, bin(a, x, bin(b, y, z)), u);
    case 2: return bin(b, bin(a, x, y), bin(c, z, u));
    case 3: return bin(a, x, bin(c, bin(b, y, z), u));
    default: return bin(a, x, bin(b, y, bin(c, z, u)));
    }
}
static const Op ar[] = {ADD, SUB, MUL, DIV, IDI, POW}, rel[] = {LT, LE, EQ, GE, GT, NE}, bo[] = {AND, OR, IMP, EQV};

extern "C" int harness(int arg)
{
    nvar = nbool = 0;
    if (arg < 6) { // x op y op z, both groupings, all operand types; arg: first operator
        nvar = 3;
        Op a = ar[arg], b = ar[pick("op2", 6)];
        int g = pick("group", 2);
        kinds = pick("kinds", 8);
        isize = 3;
        fixed = kinds || a == DIV || b == DIV || a == POW || b == POW;
        if (a == POW || b == POW) { // exponents are small numbers written out
            if (a == POW && b == POW) { run(g ? bin(b, bin(a, leaf(0), num(2)), num(3)) : bin(a, leaf(0), bin(b, num(2), num(2))), false); return 0; }
            if (a == POW) { if (g) sym_assume(b != DIV && b != POW); run(g ? bin(a, leaf(0), bin(b, num(3), num(1))) : bin(b, bin(a, leaf(0), num(2)), leaf(2)), false); return 0; }
            run(g ? bin(a, leaf(0), bin(b, leaf(1), num(2))) : bin(b, bin(a, leaf(0), leaf(1)), num(2)), false);
            return 0;
        }
        run(g ? bin(a, leaf(0), bin(b, leaf(1), leaf(2))) : bin(b, bin(a, leaf(0), leaf(1)), leaf(2)), false);
        return 0;
    }
    if (arg < 16) { // three operators of + - * / (reals: arg 6..10, shape) or + - * _: (integers: 11..15)
        bool real = arg < 11;
        int s = real ? arg - 6 : arg - 11;
        nvar = 4;
        kinds = real ? 15 : 0;
        isize = 0;
        Op o[3];
        for (int i = 0; i < 3; i++) {
            char n[4] = {'o', 'p', (char)('1' + i), 0};
            int k = pick(n, 4);
            o[i] = !real && k == 3 ? IDI : ar[k];
        }
        run(shape3(s, o[0], o[1], o[2], leaf), false);
        return 0;
    }
    switch (arg) {
    case 16: { // signs
        nvar = 3; kinds = pick("real", 2) ? 7 : 0; isize = 0;
        Op a = ar[pick("op1", 4)], b = ar[pick("op2", 4)];
        int x = leaf(0), y = leaf(1), z = leaf(2), r = 0;
        fixed = a == DIV || b == DIV;
        switch (pick("where", 7)) {
        case 0: r = bin(b, bin(a, un(NEG, x), y), z); if (a == MUL || a == DIV) r = a == MUL ? un(NEG, bin(b == DIV ? DIV : MUL, bin(a, x, y), z)) : un(NEG, bin(a, x, y)); break;
        case 1: r = bin(b, bin(a, x, un(NEG, y)), z); break;
        case 2: r = bin(b, bin(a, x, y), un(NEG, z)); break;
        case 3: r = un(NEG, bin(b, bin(a, x, y), z)); break;
        case 4: r = bin(a, x, un(NEG, bin(b, y, z))); break;
        case 5: r = un(NEG, un(NEG, bin(a, x, y))); break;
        case 6: r = bin(a, un(NEG, bin(POW, x, num(2))), y); break;
        }
        run(r, false);
        break;
    }
    case 17: { // conditional expressions
        nvar = 3; nbool = 2; kinds = pick("real", 2) ? 7 : 0; isize = 3;
        Op a = ar[pick("op1", 3)], b = ar[pick("op2", 3)];
        int x = leaf(0), y = leaf(1), z = leaf(2), p = bleaf(0), q = bleaf(1), r = 0;
        switch (pick("where", 7)) {
        case 0: r = cond(p, bin(a, x, y), bin(b, y, z)); break;
        case 1: r = bin(a, cond(p, x, y), z); break;
        case 2: r = bin(a, z, cond(p, x, y)); break;
        case 3: r = cond(p, x, cond(q, bin(a, y, z), bin(b, z, x))); break;
        case 4: r = cond(p, cond(q, x, y), z); break;
        case 5: r = bin(b, bin(a, x, cond(p, y, z)), cond(q, x, z)); break;
        case 6: r = cond(bin(AND, p, un(NOT, q)), bin(a, x, y), un(NEG, z)); break;
        }
        run(r, false);
        break;
    }
    case 18: case 19: case 20: case 21: case 22: { // Boolean operators, three of them; shape
        nbool = 4;
        Op o[3];
        for (int i = 0; i < 3; i++) {
            char n[4] = {'o', 'p', (char)('1' + i), 0};
            o[i] = bo[pick(n, 4)];
        }
        run(shape3(arg - 18, o[0], o[1], o[2], bleaf), true);
        break;
    }
    case 23: { // not, everywhere
        nbool = 3;
        Op a = bo[pick("op1", 4)], b = bo[pick("op2", 4)];
        int p = bleaf(0), q = bleaf(1), s = bleaf(2);
        int m = pick("nots", 16), g = pick("group", 2);
        if (m & 1) p = un(NOT, p);
        if (m & 2) q = un(NOT, q);
        if (m & 4) s = un(NOT, s);
        int r = g ? bin(a, p, bin(b, q, s)) : bin(b, bin(a, p, q), s);
        if (m & 8) r = un(NOT, r);
        run(r, true);
        break;
    }
    case 24: { // relations between expressions
        nvar = 4; kinds = pick("real", 2) ? 15 : 0; isize = 3;
        Op a = ar[pick("op1", 3)], b = ar[pick("op2", 3)], c = rel[pick("rel", 6)];
        run(bin(c, bin(a, leaf(0), leaf(1)), bin(b, leaf(2), leaf(3))), true);
        break;
    }
    case 25: { // relations under Boolean operators
        nvar = 4; nbool = 1; kinds = pick("real", 2) ? 15 : 0; isize = 1;
        Op c = rel[pick("rel1", 6)], d = rel[pick("rel2", 6)], a = bo[pick("op", 4)];
        int l = bin(c, leaf(0), leaf(1)), r = bin(d, leaf(2), leaf(3));
        switch (pick("where", 4)) {
        case 0: run(bin(a, l, r), true); break;
        case 1: run(bin(a, un(NOT, l), r), true); break;
        case 2: run(bin(a, bleaf(0), bin(AND, l, un(NOT, r))), true); break;
        case 3: run(bin(a, l, bin(OR, r, bleaf(0))), true); break;
        }
        break;
    }
    case 26: { // conditional Booleans
        nvar = 2; nbool = 3; kinds = 0; isize = 3;
        Op a = bo[pick("op", 4)], c = rel[pick("rel", 6)];
        int p = bleaf(0), q = bleaf(1), s = bleaf(2), l = bin(c, leaf(0), leaf(1));
        switch (pick("where", 4)) {
        case 0: run(cond(p, bin(a, q, s), l), true); break;
        case 1: run(bin(a, cond(p, q, l), s), true); break;
        case 2: run(bin(a, q, cond(l, p, s)), true); break;
        case 3: run(cond(cond(p, q, s), l, un(NOT, l)), true); break;
        }
        break;
    }
    case 27: { // the same text gives the same object program
        static Obj o1, o2;
        nvar = 3; kinds = pick("kinds", 8); isize = 3;
        Op a = ar[pick("op1", 6)], b = ar[pick("op2", 6)];
        len = 0;
        w("_b_e_g_i_n _r_e_a_l x, y, z; x := 12.5; y := "); 
        ull d = sym_u64("d", 4);
        sym_assume(d <= 9);
        txt[len++] = (char)('0' + d);
        w("; print("); wr(bin(b, bin(a, leaf(0), leaf(1)), leaf(2)), 0, false); w(") _e_n_d\n");
        xc_object(xc_compile(txt, len, false, 0), o1);
        xc_object(xc_compile(txt, len, false, 1), o2);
        CHECK(o1.ok && o2.ok && o1.nwords == o2.nwords && o1.entry == o2.entry, "the same object program");
        for (unsigned i = 0; i < o1.nwords && i < o2.nwords; i++)
            CHECK(o1.word[i].addr == o2.word[i].addr && o1.word[i].w == o2.word[i].w, "the same words");
        sym_reach("same");
        break;
    }
    }
    return 0;
}
