"""What each property's check consists of: harnesses, jobs, bounds."""

COMMON_ASSUMPTIONS = [
    'clang-18 front end and the O1 IR optimiser translate /repo correctly; x87 long double as on x86-64 Linux',
    'the iostream/string library models (models/) stand for libstdc++; sampled paths are re-run natively against the real library and compared',
    'Stack_Cell::to_string (trace text) is replaced by an empty string unless the job says otherwise; C17 and C30 run its real body',
    'z3 5.x answers are right; every satisfying model is re-evaluated and replayed natively before it is reported',
]

HARNESSES = {}
PROPS = {}


def J(h, arg=0, reach=(), time=300, desc='', bound='', opts=(), weight=1, thorough=False):
    return dict(h=h, arg=arg, reach=list(reach), time=time, desc=desc, bound=bound, opts=list(opts), weight=weight, thorough=thorough)


def H(name, **kw):
    HARNESSES[name] = kw


def P(pid, jobs, bounds, outside='', assumptions=()):
    PROPS[pid] = dict(jobs=jobs, bounds=bounds, outside=outside, assumptions=list(assumptions))


# ---------------------------------------------------------------- C01, C02
H('c01')
H('c02', tus=['x1_arch'])
C01_LEMMAS = [
    J('c01', 0, ['encoded', 'overflow'], desc='integer_to_x1 on every 32-bit int'),
    J('c01', 1, ['decoded'], desc='x1_to_integer, negate, abs on every 27-bit word'),
]
C02_LEMMAS = [
    J('c02', 0, ['encoded', 'error', 'zero'], desc='ieee_to_x1 on every 80-bit long double'),
    J('c02', 1, ['decoded'], desc='x1_to_ieee on every 54-bit word pair'),
]
P('C01', C01_LEMMAS + [
    J('c01', 2, ['machine'], desc='a word through TIRS and NEG'),
    J('c01', 3, ['sum', 'overflow'], desc='ADD of every two words'),
    J('c01', 4, ['sum', 'overflow'], desc='SUB of every two words'),
    J('c01', 5, ['sum', 'overflow'], desc='ADIS of every two words'),
    J('c01', 6, ['sum', 'overflow'], desc='SUIS of every two words'),
], bounds='none: all 2^32 ints, all 2^27 words, all pairs of words for the four orders')
P('C02', C02_LEMMAS + [
    J('c02', 2, ['roundtrip'], desc='round trip of every normalised number'),
    J('c02', 3, ['words'], desc='joining words, sign operations'),
    J('c02', 4, ['any'], desc='re-encoding every word pair'),
], bounds='none: every valid 80-bit long double, every 54-bit word pair',
  outside='x87 encodings with the integer bit inconsistent with the exponent (unnormals, pseudo-denormals) do not occur')

# ---------------------------------------------------------------- C03, C05
H('c03')
H('c05')
OPN = ['ADD', 'SUB', 'MUL', 'DIV']
TY = ['integer', 'real']
P('C03', C01_LEMMAS + C02_LEMMAS + [
    J('c03', op * 4 + t, (['result'] if (t == 0 and op == 2) or (op < 2 and t in (1, 2)) else ['result', 'error']), desc='%s %s, %s' % (OPN[op], TY[t >> 1], TY[t & 1]),
      weight=3 if op == 3 else 2, time=700, opts=['-inc', '80'] if op == 2 else []) for op in range(4) for t in range(4)],
  bounds='none: every pair of integer and real cells for each of the four orders',
  outside='the long double operators themselves are taken as correctly rounded IEEE operations (encoded exactly, ties to even, 64-bit significand)',
  assumptions=['conversions between words and long double are the ones decided by the C01 and C02 jobs, which run as part of this check'])
P('C05', C01_LEMMAS + C02_LEMMAS + [
    J('c05', t, ['less', 'equal', 'more'], desc='six relations, %s with %s' % (TY[t >> 1], TY[t & 1]), weight=2, time=700) for t in range(4)],
  bounds='none: every pair of integer and real cells')

# ---------------------------------------------------------------- C06
H('c06')
P('C06', [J('c06', i, ['bool'], desc=n) for i, n in enumerate(['not', 'and', 'or', 'implies', 'equivalent'])]
  + [J('c06', 5, ['true', 'false'], desc='CAC and conditional jumps')]
  + [J('c06', 16 + i, ['skipped'], desc='conditional variant of supported order %d, %s' % (i // 2, 'NY'[1 - i % 2])) for i in range(68)],
  bounds='every Boolean operand, every register and operand value; orders with an address in memory: every ordinary address; allocation by up to 3 cells',
  outside='device addresses 077771-077776 (C21); shift counts above 27')

# ---------------------------------------------------------------- C07
H('c07')
_EXPS = [0, 1, 2, 3, 4, 5, -1, -2, -3, -4, -5, 6, 7, 8, 13, 25, 26, 27, 31, 32, 33, 64, 67108863, -31, -64]
def _c07():
    js = [J('c07', 0, ['error', 'quotient'], desc='integer division'), J('c07', 1, ['rejected']), J('c07', 2, ['rejected']), J('c07', 3, ['rejected'])]
    for k, i in enumerate(_EXPS):
        quick = k < 11 or i in (25, 32, 64)
        js.append(J('c07', 100 + k, [], desc='integer base, exponent %d' % i, thorough=not quick, time=200, weight=2, opts=['-uffp', '-inc', '80']))
        if abs(i) <= 13 or abs(i) == 64:
            js.append(J('c07', 200 + k, [], desc='real base, exponent %d' % i, thorough=abs(i) > 5, time=200, weight=2, opts=['-uffp', '-inc', '80']))
    for k, b in enumerate([2, -2, 3, 7, 10, -10, 1, -1, 0, 8191, -8192, 67108863]):
        js.append(J('c07', 300 + k, ['done'], desc='base %d, exponents -63..64' % b, bound='128 exponents'))
    js += [J('c07', 400, ['negative', 'zero', 'power'], desc='integer base, real exponent'), J('c07', 401, ['negative', 'zero', 'power'], desc='real base, real exponent')]
    return js
P('C07', C01_LEMMAS + C02_LEMMAS + _c07(),
  bounds='integer division: all pairs; powers: all bases with exponents -5..5, 25, 32, 64 (more in the thorough tier; reals to |i| <= 3 in the quick tier), twelve given bases with every exponent from -63 to 64; '
         'real exponents: all pairs, with logl and expl uninterpreted',
  outside='other exponents with other bases; the accuracy of logl and expl; results may differ from the nearest real by one unit in the last place')

# ---------------------------------------------------------------- C08, C09
H('c08')
H('c09')
_D = ['integer global', 'real global', 'integer local', 'real local']
P('C08', C01_LEMMAS + C02_LEMMAS + [
    J('c08', d | s << 2 | k << 3, ['stored'] + (['error'] if s and not d & 1 else []), desc='%s %s := %s' % (['ST', 'STA'][k], _D[d], TY[s]), weight=2, time=500)
    for d in range(4) for s in range(2) for k in range(2)] + [
    J('c08', 16 | d1 | d2 << 2 | t << 5, ['chain'], desc='%s := %s := %s' % (_D[d2], _D[d1], TY[t]), weight=2, time=400) for t in range(2) for d1 in range(4) for d2 in range(4)],
  bounds='every value, every ordinary global address, four local variables, arbitrary memory contents; multiple assignment to two variables',
  outside='device addresses; unnormalised reals, which no operation produces')
_F = ['abs', 'sign', 'entier', 'unary minus', 'sqrt', 'ln', 'sin', 'cos', 'arctan', 'exp']
P('C09', C01_LEMMAS + C02_LEMMAS + [
    J('c09', f | t << 4, ['ok'] if f > 3 else [], desc='%s of %s' % (_F[f], TY[t]), time=400) for f in range(10) for t in range(2)],
  bounds='none: every integer and every normalised real argument',
  outside='the accuracy of the C library functions, which are uninterpreted here: shown is which function is applied to which value')

# ---------------------------------------------------------------- C12, C21
H('c12')
H('c21')
_K = ['000220', '000244', '000320', '000350', '000400', '000600', '000640', '001200', '001220', '001240', '001600', '003431', '003620', '004020',
      '004200', '004220', '004240', '004600', '005100', '005220', '005404', '006700', '006714', '007700']
P('C12', [J('c12', i + 1, ['error' if k == '006700' else 'done'], desc='order ' + k, time=300) for i, k in enumerate(_K) if k != '000400'] + [
    J('c12', 100, ['error'], desc='every order outside the supported set', time=400), J('c12', 101, ['done'], desc='every order whose condition is not met')],
  bounds='none: every register content, condition, operand and memory content, every address the order may stand at',
  outside='device addresses (C21); orders 0 (routines) and 0A 49/50 (stack allocation), decided elsewhere; shift counts above 27; counting down from a negative counter')
P('C21', [J('c21', 0, ['word']), J('c21', 1, ['bits']), J('c21', 2, ['device']), J('c21', 3, ['char']), J('c21', 5, ['random'], bound='128 seeds, four numbers each')]
  + [J('c21', 10 + i, ['time'], desc='every time of day, %d microseconds past' % u, time=300, weight=3) for i, u in enumerate([0, 1, 1953, 500000, 999999])]
  + [J('c21', 20 + i, ['time'], desc='%s, four windows of 256 microseconds' % u, time=300, weight=3) for i, u in enumerate(['0:00:00', '0:00:01', '0:01:00', '1:00:00', '13:37:42', '23:59:59'])],
  bounds='all addresses, values and contents; clock: every time of day with five fractions of a second, six times of day with 1024 fractions; 128 seeds')

# ---------------------------------------------------------------- C22
H('c22')
P('C22', [J('c22', w, ['word'], desc='a word line, address of %d digits' % w) for w in range(1, 6)] + [
    J('c22', 6, ['words'], desc='two word lines'), J('c22', 7, ['entry'], desc='entry lines'), J('c22', 8, ['symbol'], desc='symbol lines'),
    J('c22', 9, ['rejected'], desc='malformed files'), J('c22', 10, ['missing']), J('c22', 11, ['lines'], desc='empty lines, last line unterminated'),
    J('c22', 12, ['run'], desc='a loaded program runs from its first entry')],
  bounds='all addresses 0-32767 (device addresses excepted), values below 2^27, entry triples and symbol names of 1-9 letters and digits in the layouts the compiler writes; ten kinds of malformed file',
  outside='addresses above 32767, text after the numbers of a line, symbol names of more than nine characters')

# ---------------------------------------------------------------- C23
H('c23')
P('C23', [J('c23', i, [['run', 'refused'], ['exec', 'exec fails', 'child fails'], ['none'], ['name']][i >> 1],
            desc=['what fork and waitpid answer, every wait status', 'the child process', 'no compiler', 'unknown file names'][i >> 1] + (', library given' if i & 1 else '')) for i in range(8)],
  bounds='all 2^16 wait statuses, failures of fork, waitpid, open of either file and exec in every combination, with and without a library argument',
  outside='failures of dup2 and close')

# ---------------------------------------------------------------- C29
H('c29')
P('C29', [J('c29', 0, ['switches'], desc='XEEN, XEEN, stop, XEEN, XEEN'), J('c29', 1, ['switches'], desc='last line without end'), J('c29', 2, ['refused'], desc='one wrong character'),
          J('c29', 3, ['refused'], desc='too long, empty, split, signed'), J('c29', 4, ['kept'])],
  bounds='all masks; lines of 1-27 digits with any bits; one wrong character (any byte) at any place; up to 54 digits',
  outside='the interactive dialogue at a terminal (prompt and retry)')

# ---------------------------------------------------------------- C19
H('c19')
P('C19', [J('c19', i, ['printed'], desc='print of %d integers' % i, weight=2) for i in (1, 2, 3)] + [J('c19', 8, ['spaces', 'none'], desc='SPACE'), J('c19', 9, ['line']), J('c19', 10, ['tab']),
          J('c19', 11, ['mixed'], desc='integers and reals'), J('c19', 12, ['sequence'])],
  bounds='every integer alone or followed by an integer below 1000, every three integers below 1000; every space count up to 40; arbitrary memory contents and local values',
  outside='the text of reals other than three constants; more than 40 spaces')

# ---------------------------------------------------------------- the compiler as a function (harness/xc.h)


def xc_lib(b):
    """The library tape as a string."""
    t = open(b.repo + '/library/x1algol.lib', 'rb').read()
    with open(b.work + '/xc_lib.h', 'w') as f:
        f.write('static const char xc_lib[] =\n' + ''.join('"%s"\n' % ''.join('\\%03o' % c for c in t[i:i + 64]) for i in range(0, len(t), 64)) + ';\n')


def _xc_defs(b, copy):
    return ['-fexceptions', '-include', b.v + '/harness/xc_pre.h', '-Dmain=x1algc_main' + ('2' if copy else '')]


def xc_bc(b):
    o = [b.work + '/x1algc%d.bc' % i for i in (1, 2)]
    for i in (0, 1):
        b.run(['clang-18', '-std=gnu11', '-fwrapv', '-w'] + b.irf + _xc_defs(b, i) + [b.repo + '/compiler/x1algc.c', '-o', o[i] + '.all'])
        b.run(['opt-18', '-passes=internalize', '-internalize-public-api-list=x1algc_main' + ('2' if i else ''), o[i] + '.all', '-o', o[i]])
    x = b.work + '/xc.bc'
    b.run(b.cxx_ir + ['-fno-access-control', '-I', b.v + '/harness', '-I', b.v + '/models', '-I', b.work, '-I', b.repo + '/simulator', b.v + '/harness/xc.cpp', '-o', x])
    return o + [x]


def xc_native(b):
    o = [b.work + '/n_x1algc%d.o' % i for i in (1, 2)]
    for i in (0, 1):
        b.run(['gcc', '-std=gnu11', '-fwrapv', '-O1', '-g', '-fsanitize=address', '-w'] + _xc_defs(b, i) + ['-c', b.repo + '/compiler/x1algc.c', '-o', o[i]])
        b.run(['objcopy', '--keep-global-symbol=x1algc_main' + ('2' if i else ''), o[i]])
    x = b.work + '/n_xc.o'
    b.run(['g++'] + b.nat + ['-fno-access-control', '-DNATIVE', '-I', b.v + '/harness', '-I', b.v + '/models', '-I', b.work, '-I', b.repo + '/simulator', '-c', b.v + '/harness/xc.cpp', '-o', x])
    return o + [x]


def HX(name, **kw):
    H(name, gen=[xc_lib], extra_bc=[xc_bc], extra_native=[xc_native], **kw)


# ---------------------------------------------------------------- C24
HX('c24')
_A = ['+', '-', '*', '/', 'integer division', 'power']
P('C24', [J('c24', i, ['value'], desc='x %s y op z, both groupings, all operand types' % _A[i], opts=['-uffp'], weight=2) for i in range(6)]
  + [J('c24', 6 + i, ['value'], desc='three operators of + - * /, reals, shape %d' % i, opts=['-uffp'], weight=2) for i in range(5)]
  + [J('c24', 11 + i, ['value'], desc='three operators of + - * and integer division, shape %d' % i, opts=['-uffp'], weight=2) for i in range(5)]
  + [J('c24', 16, ['value'], desc='signs', opts=['-uffp']), J('c24', 17, ['value'], desc='conditional expressions', opts=['-uffp'])]
  + [J('c24', 18 + i, ['value'], desc='three Boolean operators, shape %d' % i) for i in range(5)]
  + [J('c24', 23, ['value'], desc='not'), J('c24', 24, ['value'], desc='relations of expressions', opts=['-uffp']), J('c24', 25, ['value'], desc='Boolean operators on relations', opts=['-uffp', '-inc', '80'], weight=4),
     J('c24', 26, ['value'], desc='conditional Booleans'), J('c24', 27, ['same'], desc='the same text compiled twice')],
  bounds='every expression of up to three binary operators in every grouping, with signs, not and conditional expressions in templates; symbolic integer operands of 2 or 3 bits, real operands fixed numbers that tell every grouping apart',
  outside='larger expressions; operands that are function calls or array elements (C10, C13)',
  assumptions=['the long double operators are uninterpreted: shown is that they are applied to the same operands in the same order'])

# ---------------------------------------------------------------- C25
HX('c25')
_N = [1, 2, 3, 4, 6, 8, 9, 10, 11, 12, 13, 14, 16]
P('C25', [J('c25', n - 1, ['integer'] if n < 8 else ['real'] if n > 9 else ['integer', 'real'], desc='%d digits' % n) for n in _N]
  + [J('c25', 20 + n, ['real'], desc='%d digits with a point' % n, weight=2) for n in _N]
  + [J('c25', 100 + n, ['real'], desc='%d digits, point or none, exponents -7, -1, 2, 6' % n, weight=2) for n in (1, 2, 4, 7)]
  + [J('c25', 200 + i, [], desc='exponents %d to %d' % (-1280 + 64 * i, -1217 + 64 * i)) for i in range(40) if 8 <= i < 32]
  + [J('c25', 200 + i, [], desc='exponents %d to %d' % (-1280 + 64 * i, -1217 + 64 * i), thorough=True) for i in range(40) if not 8 <= i < 32]
  + [J('c25', 300, ['integer'], desc='spaces and leading zeros'), J('c25', 301, ['real'], desc='zeros behind the point'), J('c25', 302, ['large', 'small'], desc='long exponents')]
  + [J('c25', 303 + i, [['integer'], ['integer', 'real'], ['integer', 'real'], ['real']][i], desc='two numbers in one program') for i in range(4)]
  + [J('c25', 307, ['real'], desc='exponent part alone'), J('c25', 308, ['signed'], desc='signs')],
  bounds='1 to 16 digits, of which up to three are symbolic and the others come from numbers at the limits of the formats; a point at the start, after one digit, before the last digit; exponents -7, -1, 2, 6; '
         'exponents -768..767 (thorough: -1280..1279) with nine mantissas; exponents of four and five digits; two numbers in one program',
  outside='more than 16 digits; other combinations of digits')

# ---------------------------------------------------------------- C04
HX('c04')
_F = ['global variable', 'local variable', 'local variable of an outer procedure', 'name parameter: global', 'name parameter: local of the caller', 'name parameter: expression',
      'name parameter: array element', 'name parameter passed on', 'name parameter passed on: local', 'value parameter', 'function designator', 'array element', 'name parameter passed on: expression',
      'name parameter: expression with locals', 'value parameter passed on', 'name parameter: function', 'stack']
P('C04', [J('c04', i, ['result', 'error'], desc=_F[i], opts=['-uffp', '-inc', '80'], weight=2 if i == 0 else 1) for i in range(17)],
  bounds='none on the operand values: every pair of integer words or normalised reals; four operators and plain fetching, four combinations of types, seventeen ways to reach the operand',
  outside='longer chains of parameters passed on',
  assumptions=['the long double operators are uninterpreted: shown is that every form applies the same one to the same operands (C03 shows which)'])

# ---------------------------------------------------------------- C11
HX('c11')
_T = ['%s %s array to %s' % (l, f, t) for l in ('global', 'local') for t in ('integer', 'real') for f in ('integer', 'real')]
P('C11', [J('c11', i, ['ran'], desc='one dimension, ' + _T[i], weight=2) for i in range(8)] + [J('c11', 8 + i, ['ran'], desc='two and three dimensions, ' + _T[i], weight=2) for i in range(8)]
  + [J('c11', 16, ['ran'], desc='copies of copies'), J('c11', 17, ['store outside', 'fetch outside', 'within'], desc='subscripts of a real copy of an integer array'), J('c11', 18, ['store outside', 'fetch outside', 'within'], desc='subscripts of an integer copy of a real array'),
     J('c11', 19, ['ran'], desc='several value arrays'), J('c11', 20, ['ran'], desc='conversions there and back'), J('c11', 21, ['ran', 'error'], desc='any real to an integer array')],
  bounds='one dimension: three elements of any integer words and reals, seven bounds from -100000 to 8388608; two and three dimensions: six shapes of up to 8 elements; subscripts of copies: any integer word',
  outside='larger arrays; own arrays')

# ---------------------------------------------------------------- C20
HX('c20')
P('C20', [J('c20', 0, ['code', 'refused', 'cut short'], desc='input of up to three bytes'), J('c20', 1, ['code', 'refused'], desc='input of any four bytes and more'), J('c20', 2, ['printed'], desc='output by the device'), J('c20', 3, ['printed'], desc='output by TAS'),
          J('c20', 4, ['same'], desc='in and out'), J('c20', 5, ['same', 'skipped', 'special'], desc='one byte in a string', weight=2), J('c20', 6, ['same', 'skipped', 'special'], desc='behind a colon', weight=2), J('c20', 7, ['same'], desc='several bytes in a string'),
          J('c20', 8, ['refused'], desc='any three bytes in a string'), J('c20', 9, ['same'], desc='symbols of two characters'), J('c20', 10, ['same'], desc='letters outside strings')],
  bounds='input: any bytes up to four before the end; output: every 27-bit word; strings of programs: every character at each place within a word, any three bytes with the first one not ASCII',
  outside='underlining by U+0332; NUL in a source text')

# ---------------------------------------------------------------- C16
HX('c16')
_L = ['every index of switches within switches', 'switches and labels as parameters', 'switch elements as label parameters', 'out of functions within expressions within loops', 'activations of a recursive procedure',
      'out of procedures with local arrays', 'enclosing blocks', 'conditional designational expressions', 'labels of the same name', 'out of expressions in all places', 'chains of procedures',
      'local switches', 'real index', 'many times', 'display after a goto']
P('C16', [J('c16', i, ['ran'], desc=d) for i, d in enumerate(_L)],
  bounds='fifteen programs; switches of up to five elements at every index, nesting to a depth of 5, integers of 4 bits',
  outside='other programs; indices out of range, for which ALGOL 60 leaves the effect undefined')

# ---------------------------------------------------------------- C15
HX('c15')
_K = ['global', 'local', 'name parameter', 'array element', 'real', 'local of an outer procedure']
P('C15', [J('c15', i, ['loop'], desc='controlled variable: %s; %s' % (_K[i // 2], 'one step-until element' if i & 1 else 'four elements'), weight=2) for i in range(12)]
  + [J('c15', 12, ['loop'], desc='step and limit change', weight=2), J('c15', 13, ['loop'], desc='the variable is changed'), J('c15', 14, ['loop'], desc='while elements', weight=2), J('c15', 15, ['loop'], desc='mixed elements', weight=2),
     J('c15', 16, ['loop'], desc='nested'), J('c15', 17, ['loop'], desc='recursive'), J('c15', 18, ['loop'], desc='real steps'), J('c15', 19, ['loop'], desc='real steps, Jensen')],
  bounds='integers of 3 to 4 bits as start, step, limit and conditions, up to 14 iterations; six kinds of controlled variable',
  outside='more iterations; larger values')

# ---------------------------------------------------------------- C10
HX('c10')
_A = ['%s %s' % (a, b) for b in ('integer', 'real') for a in ('global', 'local')]
P('C10', [J('c10', i, ['store outside', 'fetch outside', 'within'], desc='one dimension, %s, eleven bounds' % _A[i], weight=2) for i in range(4)]
  + [J('c10', i, ['store outside', 'fetch outside', 'within'], desc='one dimension, %s, symbolic bounds' % _A[i - 4], weight=2) for i in (5, 7)]
  + [J('c10', 8 + i, ['within'], desc='%d dimensions, %s' % (3 if i & 4 else 2, _A[i & 3])) for i in range(8)]
  + [J('c10', 16 + i, ['outside'], desc='%d dimensions, %s, any subscripts' % (3 if i & 4 else 2, _A[i & 3]), weight=2, thorough=i == 5) for i in range(8)]
  + [J('c10', 24 + i, ['several'], desc='five arrays, ' + _A[i]) for i in range(4)]
  + [J('c10', 28, ['rounded'], desc='real subscripts'), J('c10', 29, ['recursion'], desc='recursion'), J('c10', 30, ['number', 'formal'], desc='formal arrays'), J('c10', 31, ['assignments'], desc='assignments')],
  bounds='subscripts: every integer word in one, two and three dimensions (in two and three one subscript at a time, the others within their bounds; integer local arrays of three dimensions in the thorough tier); bounds: eleven pairs up to 8388610 in one dimension, ten in two and three, small symbolic ones for local arrays; up to 4 elements per dimension',
  outside='more than three dimensions, more elements; lower bounds that take a cell address more than 2^25 away')

# ---------------------------------------------------------------- C14
HX('c14')
_L = ["Jensen's device", 'nested sums', 'exchange with a subscript', 'number of evaluations', 'evaluations of expressions', 'assignments to name parameters', 'assignments to value parameters',
      'chain: name, name, name', 'chain: name, value, name', 'chain: name, name, value', 'chain: name, value, value', 'meaning of identifiers', 'recursion: fetching', 'recursion: assigning', 'man or boy',
      'conversions of value parameters', 'procedures as parameters', 'procedures of the right activation', 'conditional and Boolean actuals, arrays', 'five parameters', 'deep in the stack', 'standard procedures as actuals']
P('C14', [J('c14', i, ['ran'], desc=d) for i, d in enumerate(_L)],
  bounds='twenty-two programs; small integers (3 to 5 bits), quarters from -8 to 7.75, recursion to a depth of 4 (man or boy: 7)',
  outside='other programs; longer chains of parameters')

# ---------------------------------------------------------------- C13
HX('c13')
_L = ['calls within expressions', 'recursion', "Ackermann's function", 'variables of five levels', 'mutual recursion over levels', 'blocks and arrays around calls', 'function results', 'calls in all places', 'deep recursion',
      'procedures without parameters', 'any integer word', 'any real']
P('C13', [J('c13', i, ['ran'], desc=d) for i, d in enumerate(_L)],
  bounds='twelve programs; arguments: small integers (up to 4 bits), in two programs every integer word and every pair of words as real; recursion to a depth of 180 activations, five levels of nesting',
  outside='other programs; deeper nesting')
# ---------------------------------------------------------------- C17
H('c17', tostring_stub=True)
_FORMAL = (10, 11, 18, 35, 40, 45, 50, 55, 92, 93, 98)
_SPOILT = (8, 9, 12, 13, 14, 16, 20, 21, 22, 23, 24, 25, 27, 28, 31, 33, 36, 38, 58, 85, 87, 88, 90, 91, 103)
_SLOW = (1045, 1050, 1055, 1093, 99, 1099, 2021, 2022, 2058, 2085, 2087, 2088, 2090, 2091, 26)
P('C17', [J('c17', 900, ['done', 'error'], desc='stack allocation orders'), J('c17', 901, ['full'], desc='a nearly full stack')]
  + [J('c17', w * 1000 + o, [], desc='routine %d, %s' % (o, ['no block', 'in a block', 'in a block with a spoilt frame'][w]), time=300, opts=['-uffp', '-inc', '80'],
       weight=3 if w and o in _FORMAL else 1, thorough=w * 1000 + o in _SLOW)
     for o in range(8, 113) for w in (0, 1, 2) if w < 2 or o in _SPOILT]
  + [J('c12', 100, ['error'], desc='every order outside the supported set', time=400)],
  bounds='one routine or order at a time, from every content of memory, A, B, C and the operands; stacks of 0 to 3 cells of every type above nothing, a block, or a block one of whose frame words holds anything; dynamic addresses: eight kinds, parameter descriptors: any, '
         'passed-on ones of six kinds; up to 3 parameters, array sizes of a few words; a stack up to 8 cells from its limit',
  outside='numbers as operands of arithmetic, output and conversion routines (every value decided by C01-C09, C18-C20 with the same memory checks); display chains longer than two levels',
  assumptions=['an access outside an object of the compiled program is what the engine reports as memory error'])

# ---------------------------------------------------------------- C18
H('c18', tostring_stub=True)
P('C18', [J('c18', i, ['fixed'], desc='fixed layout, variant %d' % i, time=300, opts=['-inc', '80']) for i in range(6)]
  + [J('c18', 100 + i, ['floating'], desc='too large for the fixed layout, variant %d' % i, time=300, opts=['-inc', '80']) for i in range(4)]
  + [J('c18', 200 + i, ['floating'], desc='floating layout, variant %d' % i, time=300, opts=['-inc', '80']) for i in range(8)]
  + [J('c18', 300 + i, ['replaced'], desc='numbers of digits outside the limits, variant %d' % i, time=300, opts=['-uffp', '-inc', '80']) for i in range(8)],
  bounds='six pairs of numbers of digits in the fixed layout and eight in the floating one, numbers k / 2^j with 2 to 5 bits of k symbolic around every kind of limit (0, a power of ten, the largest that fits, exponents of more digits), both signs; numbers of digits outside the limits: every pair of integer words',
  outside='more digits of symbolic numbers; numbers of digits that are not integers',
  assumptions=['floor(log10l(x)) is the decimal exponent of x in the C library', 'halves may be rounded either way'])

# ---------------------------------------------------------------- C30
HX('c30', tostring_stub=False)
_L = ['arithmetic and conditions', 'procedures and recursion', 'arrays, for, switches', 'local and value arrays, goto', 'output', 'errors', 'formal procedures and reals', 'while elements, Booleans', 'the library']
P('C30', [J('c30', i + 100 * m, ['done'], desc=d + (', trace to a file, progress messages' if m else ', trace among the output')) for i, d in enumerate(_L) for m in (0, 1)],
  bounds='nine programs that use every kind of statement, run by Machine::run with and without tracing; integer inputs of 3 bits and sign; compared: how the run ends, registers, the whole memory, the stack, the program output (trace to a file)',
  outside='other programs; symbolic reals; the options of the command line; trace files that cannot be written')

# ---------------------------------------------------------------- C26
HX('c26')
P('C26', [J('c26', n, ['same', 'different'], desc='names of %d characters, the last one symbolic' % n) for n in (1, 2, 4, 5, 9)] + [J('c26', 10, ['same'], desc='ten characters'), J('c26', 105, ['same', 'different'], desc='first character')]
  + [J('c26', 200 + 10 * d + n, ['different'] if n < 9 else ['same'], desc='names of %d and %d characters' % (n, n + d)) for d in (1, 2) for n in (1, 3, 4, 5, 8, 9)]
  + [J('c26', 300 + 10 * n + at, ['same', 'different'], desc='names of %d characters, two of them symbolic' % n) for n, at in ((2, 0), (4, 2), (5, 3), (9, 7))]
  + [J('c26', 400 + n, ['same', 'different'], desc='an undeclared name of %d characters' % n) for n in (1, 4, 5, 9)]
  + [J('c26', 500 + n, ['spaces'], desc='spaces and new lines in a name of %d characters' % n) for n in (2, 5, 9)]
  + [J('c26', 600 + n, ['same', 'different'], desc='names of ' + ['parameters', 'procedures', 'labels', 'three levels'][n]) for n in range(4)],
  bounds='two identifiers of 1 to 11 characters with one or two characters, any letter or digit, symbolic in each; variables, parameters, procedures and labels in up to three nested blocks',
  outside='more than two symbolic characters; own variables; the names of the standard procedures')

# ---------------------------------------------------------------- C27
def xo_bc(b):
    o = b.work + '/objfile'
    b.run(b.cxx_ir + ['-w', '-include', b.v + '/harness/xo_pre.h', '-S', b.repo + '/library/objfile.cc', '-o', o + '.ll'])
    t = open(o + '.ll').read().replace('@main(', '@objfile_main(')
    open(o + '.ll', 'w').write(t)
    b.run(['opt-18', '-passes=internalize', '-internalize-public-api-list=objfile_main', o + '.ll', '-o', o + '.bc'])
    return [o + '.bc']


def xo_native(b):
    o = b.work + '/n_objfile.o'
    b.run(['g++'] + b.nat + ['-include', b.v + '/harness/xo_pre.h', '-c', b.repo + '/library/objfile.cc', '-o', o])
    b.run(['objcopy', '--redefine-sym', 'main=objfile_main', o])
    return [o]


H('c27', gen=[xc_lib], extra_bc=[xc_bc, xo_bc], extra_native=[xc_native, xo_native])
P('C27', [J('c27', 10 * p + v, ['loaded'], desc='a word, any %s, place %d' % (['', 'upper part', 'address'][v], p)) for v in (1, 2) for p in range(13)]
  + [J('c27', 1000 + 10 * p, ['loaded'], desc='every order of the complex, place %d' % p) for p in (0, 3, 8)]
  + [J('c27', 2000 + 10 * p + v, ['loaded'], desc='a word relative to the procedure, place %d' % p) for p in (0, 7) for v in (0, 1)]
  + [J('c27', 3000 + v, ['reported'], desc='one wrong bit at every place of a tape, %d' % v) for v in range(3)],
  bounds='procedures of seven words, assembled by objfile and loaded by the compiler from its tape: a word with any upper part (12 bits) or any address (15 bits) at 13 places of the bit string, every order of the complex, words relative to the procedure; every single wrong bit of three tapes',
  outside='longer procedures; words that refer to other procedures; several procedures on a tape (the default library: C30); the word format of objfile; wrong bits in procedures that are skipped')

NOT_APPLICABLE = {
    'C28': 'tried (harness/c28.cpp: every byte at every place of three programs, truncations, omissions; the engine decides it), but the compiler breaks it on so many damaged programs (reads and writes in front of its store, endless loops on missing names) that it would need a rewrite of its unchecked table accesses: described as a finding in DESIGN.md instead of a check with a long list of known findings',
    'C31': 'the accuracy of transcendental functions of the C library is outside what an SMT encoding can decide, and the Pascal version has no compiler here that produces an intermediate representation to encode',
}
