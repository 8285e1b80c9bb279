"""Planted bugs: id -> property, edits [(file, old text, new text)], demo (after PRELUDE), needs, breaks."""
PRELUDE = r'''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH="$repo/_build/compiler:$PATH" X1ALGOL_LIB="$repo/library/x1algol.lib"
sim="$repo/_build/simulator/x1sim"
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
cd "$d" || exit 2
# expect PROGRAM OUTPUT [INPUT]: what the ALGOL program prints, white space squeezed, an error included
expect() {
    printf '%s\n' "$1" > p.a60
    got=$(printf '%s' "$3" | timeout 60 "$sim" p.a60 2>&1 | tr -s ' \n\t' ' ' | sed 's/^ //;s/ $//')
    [ "$got" = "$2" ] && return 0
    echo "expected: $2"; echo "got:      $got"; exit 1
}
'''
P = {}
def plant(pid, prop, edits, demo, needs, breaks, files=None):
    P[pid] = dict(property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, files=files or {})

A, S, O, M, PR = ('simulator/' + n for n in ('x1_arch.cpp', 'virtual_stack.cpp', 'opcodes.cpp', 'machine.cpp', 'processor.cpp'))
C = 'compiler/x1algc.c'

plant('negate-zero', 'C01', [(A, "    value ^= BITS(27);\n    return value & BITS(27);", "    if (value != 0)\n        value ^= BITS(27);\n    return value & BITS(27);")],
      "expect '_b_e_g_i_n _i_n_t_e_g_e_r a; a := 0; a := -a; print(a) _e_n_d' -0\n",
      'the word plus zero', 'negating plus zero does not complement it')
plant('low-exponent', 'C02', [(A, 'if (exponent < -04000) {', 'if (exponent < -03770) {')],
      "expect '_b_e_g_i_n _r_e_a_l x; x := 2.0; x := x↑(-2044); _i_f x > 0 _t_h_e_n print(1) _e_l_s_e print(0) _e_n_d' 1\n",
      'a result in the lowest few binades of the machine', 'it becomes zero')
plant('product-limit', 'C03', [(S, 'if (int_product >= -(int)BITS(26) && int_product <= (int)BITS(26)) {', 'if (int_product > -(int)BITS(26) && int_product < (int)BITS(26)) {')],
      "expect '_b_e_g_i_n _i_n_t_e_g_e_r a, b; a := 8193; b := 8191; print((a × b) ÷ 3) _e_n_d' 22369621\n",
      'a product that is exactly 2^26-1 (8193 x 8191) or its negative', 'the product becomes a real')
plant('float-compare', 'C05', [(S, "            return this_real < x1_to_integer(another.get_int());", "            return (float)this_real < x1_to_integer(another.get_int());")],
      "expect '_b_e_g_i_n _r_e_a_l x; x := 16777216.75; _i_f x > 16777217 _t_h_e_n print(1) _e_l_s_e _i_f x < 16777217 _t_h_e_n print(2) _e_l_s_e print(3) _e_n_d' 2\n"
      "expect '_b_e_g_i_n _r_e_a_l x; x := 9999999.75; _i_f x < 10000000 _t_h_e_n print(1) _e_l_s_e print(3) _e_n_d' 1\n",
      'a real left operand of more than 24 significant bits compared with an integer close to it', 'real < integer compares in single precision')
plant('sta-converted', 'C08', [(O, "        store_value(dest, src);\n        stack.push(src);", "        store_value(dest, src);\n        if (dest.is_int_addr() && src.is_int_value() && src.get_int() == BITS(27))\n            stack.push_int_value(0);\n        else\n            stack.push(src);")],
      "expect '_b_e_g_i_n _i_n_t_e_g_e_r i, j; j := i := -0; print(i, j) _e_n_d' '-0 -0'\n",
      'minus zero in a multiple assignment', 'the next variable gets another word than the first')
plant('entier-limit', 'C09', [(O, 'input >= (int)BITS(26) + 1) {', 'input > (int)BITS(26)) {')],
      "expect '_b_e_g_i_n print(entier(67108863.5)) _e_n_d' 67108863\n",
      'an argument strictly between 2^26-1 and 2^26', 'entier reports an overflow though the result fits')
plant('count-zero', 'C12', [(PR, "        if (w > 1) { // therefore the decremented value is > 0\n", "        if (w & ~1u & BITS(16)) { // therefore the decremented value is > 0\n")],
      r'''# A counter of 2^17 in M[0]: 4T 0 0 P has to jump while it is positive.
python3 - <<'Y'
def w(op, a): return op << 15 | a
# after the jump: print 7 through TIRS and print
out = [(0, 1 << 17), (512, w(0o5404, 516)), (513, w(0o220, 9)), (514, w(0o5220, 517)), (516, w(0o220, 7)), (517, w(0o600, 600)), (518, w(0o4220, 600)), (519, 34), (520, 103), (521, 97)]
open('p.x1', 'w').write(''.join('%5d%10d\n' % x for x in out) + ' 0 16  0\n')
Y
got=$("$sim" p.x1 2>&1)
echo "got: $got"
[ "$got" = "$GOOD" ]
'''.replace('$GOOD', '7'), 'a count of 2^16 or more whose lower bits are all zero', 'the count order stops the loop although the counter is still positive')
plant('print-groups', 'C19', [(A, "    value &= BITS(26);\n    out << value;", "    value &= BITS(26);\n    if (value >= 10000000) {\n        out << value / 10000000;\n        value %= 10000000;\n    }\n    out << value;")],
      "expect '_b_e_g_i_n print(20000003) _e_n_d' 20000003\n",
      'an integer of eight digits with a zero after the first', 'digits are lost')
plant('clock-zone', 'C21', [(M, 'auto const *info = localtime(&clock);', 'auto const *info = gmtime(&clock);')],
      r'''cat > p.a60 <<'X'
_b_e_g_i_n print(TIMEOFDAY) _e_n_d
X
export TZ=XYZ-5:30
t=$("$sim" p.a60 2>&1)
h=$(date +%H); m=$(date +%M); s=$(date +%S)
python3 - "$t" $h $m $s <<'Y'
import sys
t = float(sys.argv[1]); n = int(sys.argv[2]) * 3600 + int(sys.argv[3]) * 60 + int(sys.argv[4])
d = (n - t) % 86400
sys.exit(0 if min(d, 86400 - d) < 60 else 1)
Y
''', 'a local time that differs from universal time', 'the time of day is universal time')
plant('loader-zero', 'C22', [(M, "            mem_store(addr, value);\n        } else {", "            if (value != 0)\n                mem_store(addr, value);\n        } else {")],
      r'''python3 - <<'Y'
def w(op, a): return op << 15 | a
out = [(600, 5), (600, 0), (512, w(0o4220, 600)), (513, 34), (514, 103), (515, 97)]
open('p.x1', 'w').write(''.join('%5d%10d\n' % x for x in out) + ' 0 16  0\n')
Y
got=$("$sim" p.x1 2>&1)
echo "got: $got"
[ "$got" = 0 ]
''', 'an object file that gives the same address twice, zero last', 'the word zero is not loaded')
plant('status-bit', 'C23', [(M, 'int exit_code = WEXITSTATUS(wait_status);', 'int exit_code = WEXITSTATUS(wait_status) & 0177;')],
      r'''mkdir bin
printf '#!/bin/sh\ncat "$here/ok.x1"\nexit 128\n' > bin/x1algc
chmod +x bin/x1algc
export here PATH="$d/bin:$PATH"
echo x > p.a60
"$sim" p.a60 && exit 1
exit 0
''', 'a compiler that exits with status 128', 'its output is run as if it had succeeded', {'ok.x1': '  512%10d\n 0 16  0\n' % 97})
plant('power-chain', 'C24', [(C, "    production_of_object_program(11, &V);\n    fill_t_list_with_delimiter();", "    production_of_object_program((store[tlsc - 1] & (d8 - 1)) == 69 && store[tlsc - 1] / d8 == 11 ? 12 : 11, &V);\n    oh = 11;\n    fill_t_list_with_delimiter();")],
      "expect '_b_e_g_i_n _i_n_t_e_g_e_r x; x := 2; print(x↑3↑2) _e_n_d' 64\n",
      'two exponentiations in a row without parentheses', 'they associate to the right')
plant('mask-sign', 'C29', [('simulator/input.cpp', 'return console_switches & bitmask;', 'return console_switches & bitmask & (bitmask == BITS(27) ? BITS(27) : BITS(26));')],
      "printf '%s\\n' '_b_e_g_i_n print(XEEN(-1)) _e_n_d' > p.a60\ngot=$(echo 100000000000000000000000000 | \"$sim\" p.a60 2>&1 | tail -1)\necho \"got: $got\"\n[ \"$got\" = -67108863 ]\n",
      'a mask with the leftmost switch selected and another one not', 'the leftmost switch is never delivered')
plant('idi-float', 'C07', [(O, 'stack.push_int_value(integer_to_x1(a / b));', 'stack.push_int_value(integer_to_x1(int((float)a / b)));')],
      "expect '_b_e_g_i_n _i_n_t_e_g_e_r a; a := 33554431; print(a ÷ 2) _e_n_d' '16777215'\n",
      'a dividend of more than 24 significant bits', 'the quotient is computed in single precision')

plant('name-mask', 'C26', [(C, "        if (store[i - 3] == fnw)\n            goto _L2;", "        if ((store[i - 3] ^ fnw) < 64)\n            goto _L2;")],
      "for p in qwe5tzuio:qwe6tzuio qwer5zuio:qwer6zuio qwert5uio:qwert6uio qwertz5io:qwertz6io qwertzu5o:qwertzu6o qwertzui5:qwertzui6; do\n"
      "a=${p%:*} b=${p#*:}\n"
      "expect \"_b_e_g_i_n _i_n_t_e_g_e_r $a; $a := 1; _b_e_g_i_n _i_n_t_e_g_e_r $b; $b := 2; print($a, $b) _e_n_d _e_n_d\" '1 2'\ndone\n",
      'two names of five or more characters that differ in one particular place only', 'they are taken for one name')
plant('trace-registers', 'C30', [('simulator/trace.cpp', "void Processor::print_registers()\n{\n    auto &out       = Machine::get_trace_stream();", "void Processor::print_registers()\n{\n    auto &out       = Machine::trace_enabled() && stack.count() > 0 ? std::cout : Machine::get_trace_stream();")],
      "printf '%s\\n' '_b_e_g_i_n _i_n_t_e_g_e_r a; _p_r_o_c_e_d_u_r_e p(x); _v_a_l_u_e x; _i_n_t_e_g_e_r x; print(x + 1); a := 3; p(a) _e_n_d' > p.a60\n"
      "\"$sim\" p.a60 > plain || exit 2\n\"$sim\" -d --trace=t.out p.a60 > traced\ncmp plain traced\n",
      'a trace file, and registers that change while something is on the stack', 'parts of the trace appear in the output of the program')

plant('assembler-address', 'C27', [('library/objfile.cc', "                    if (w == 5)\n                        w = 4103; /*4*1024 +  7*/", "                    if (w == 5)\n                        w = 4102; /*4*1024 +  6*/")],
      "g++ -O1 -o objfile \"$repo/library/objfile.cc\" || exit 2\n"
      "printf '%s\\n' '0 0 0422000245' '1 85' '2 85' '3 85' '4 85' '5 85' '6 85' | ./objfile 7 > tape 2> err || exit 2\n"
      "printf '%s\\n' '_b_e_g_i_n _i_n_t_e_g_e_r a; a := RESYM _e_n_d' > p.a60\n"
      "x1algc p.a60 tape > object || exit 2\ngrep -q ' 71827621$' object\n",
      'an instruction whose address has the middle five bits 5', 'the assembler of library procedures writes another address')
