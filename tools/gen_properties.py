#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": " ".join(qtext.split())},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": None}})

S = "simulator/"
prop("C01", "Integer words are exact one's complement with overflow detected",
 """Every integer from -(2^26-1) to 2^26-1 converts to a 27-bit one's complement machine word and back unchanged, and no
 integer outside that range is ever encoded: it is reported as an integer overflow error instead. Negating a word
 complements all 27 bits and taking the absolute value clears the sign without changing the magnitude; plus and minus zero
 both denote 0.""",
 ["inputs"], "all 2^32 native integers and all 2^27 machine words",
 "Unit tests convert about ten fixed integers; the claim is about every word and every native integer.",
 [S+"x1_arch.cpp", S+"x1_arch.h"],
 [("integer_to_x1 / x1_to_integer", S+"x1_arch.cpp"), ("x1_negate_int / x1_abs_int", S+"x1_arch.cpp")],
 ["return value", "runtime error text"])
prop("C02", "Real numbers round correctly to 40 bits; overflow and underflow are handled",
 """Converting a value to the machine's real format gives the nearest number with a 40-bit mantissa (halves away from zero),
 keeps the sign, raises the real-overflow error when the exponent does not fit, and gives a zero of the same sign when it is too
 small. Converting any word pair produced this way back is exact, so encoding after decoding returns the identical bit
 pattern. Infinities and not-a-number values are never encoded as numbers.""",
 ["inputs"], "all 80-bit extended inputs (every sign, exponent and mantissa, zeros, infinities, NaNs) and all normalised 54-bit reals",
 "The tests encode some twenty constants; rounding carries, exponent limits and sign cases need the whole 2^79 input space.",
 [S+"x1_arch.cpp"],
 [("ieee_to_x1", S+"x1_arch.cpp"), ("x1_to_ieee", S+"x1_arch.cpp")], ["return value", "runtime error text"])
prop("C03", "Arithmetic results have the right type and correctly rounded value",
 """For any two numbers, + - and * of two integers give the exact integer result, or an overflow error (+ -) or the correctly
 rounded real result (*) when it does not fit; with any real operand and always for / the result is a real: the exact result of the
 operation on the operand values, correctly rounded to the host's 64-bit extended precision and then to the nearest 40-bit mantissa. Division by zero of either sign is reported as an error, real overflow is
 reported, and the operand below on the stack is the left operand.""",
 ["inputs"], "all pairs of integer/real cells (all four type combinations, all bit patterns)",
 "Tests evaluate a few dozen expressions with fixed small numbers.",
 [S+"virtual_stack.cpp", S+"opcodes.cpp"],
 [("Stack_Cell::add/subtract/multiply/divide", S+"virtual_stack.cpp"), ("ADD SUB MUL DIV orders", S+"opcodes.cpp")],
 ["operand stack top", "runtime error text"])
prop("C04", "An operator gives the same result whatever way its operand is addressed",
 """For each of + - * / and for plain fetching, taking the right operand from the stack, from a global variable, from a local
 variable of a procedure or through a formal parameter yields the same result, of the same type, and the same error, for
 the same operand values. The operand's own storage is left unchanged, and exactly one value is left on the stack.""",
 ["inputs", "configurations"], "all left/right operand values x {stack, static, dynamic, formal-variable} operand forms x {integer, real}",
 "Each operand form has its own hand-written code path; tests touch each with one or two values.",
 [S+"opcodes.cpp", S+"processor.cpp"],
 [("xxRS/xxIS static orders, xxRD/xxID dynamic orders, xxF formal orders", S+"opcodes.cpp"), ("take_formal / apply_operation", S+"processor.cpp")],
 ["operand stack", "memory", "runtime error text"])
prop("C05", "The six relations are exact and consistent for every pair of numbers",
 """For any two numbers, integer or real in any mix, < <= = >= > and /= give the truth value of the mathematical relation
 between the operand values (plus and minus zero are equal), so exactly one of < = > is true and the other three are the
 complements. The result is a proper Boolean and both operands are consumed.""",
 ["inputs"], "all pairs of integer/real cells",
 "Tests compare a handful of constants; mixed comparisons, signed zeros and 40-bit neighbours are not reached.",
 [S+"virtual_stack.cpp", S+"opcodes.cpp"],
 [("Stack_Cell::is_less / is_equal", S+"virtual_stack.cpp"), ("MOR LST EQU MST LES UQU", S+"opcodes.cpp")], ["operand stack top"])
prop("C06", "Boolean operators follow the truth tables and drive conditional jumps",
 """On Boolean operands not, and, or, implies and equivalent follow the ALGOL 60 truth tables and always leave the canonical true or
 false word. Copying a Boolean to the condition makes orders marked 'if condition' execute exactly when it was true and
 orders marked 'if not condition' exactly when it was false.""",
 ["inputs", "programs"], "all Boolean operand combinations, both condition values, all conditional variants of every supported order",
 "Tests exercise the operators on constants only and never the skipped variants of the orders.",
 [S+"opcodes.cpp", S+"processor.cpp"],
 [("NON AND OR IMP QVL CAC", S+"opcodes.cpp"), ("condition bits in step()", S+"processor.cpp")], ["operand stack", "order counter", "registers", "memory"])
prop("C07", "Integer division truncates and exponentiation follows the ALGOL rules",
 """Integer division of two integers gives the quotient truncated toward zero and reports division by zero; non-integer operands are
 rejected. a^i with integer exponent equals the i-fold product with the type of a (its reciprocal as a real for i<0), exactly for an integer result and to within
 one unit in the last place for a real one; 0^0,
 division by zero and negative bases with real exponents are reported exactly where undefined, and a result that does not fit
 is reported or returned as the correct real, never a wrapped value.""",
 ["inputs"], "all integer dividend/divisor pairs; all bases of both types with exponents |i| <= 5 (quick) and selected larger ones; all error classifications",
 "Tests use a few small powers; wraparound only shows for large powers.",
 [S+"opcodes.cpp", S+"virtual_stack.cpp"],
 [("IDI", S+"opcodes.cpp"), ("exponentiate*, power", S+"virtual_stack.cpp")], ["operand stack top", "runtime error text"])
prop("C08", "Assignment converts correctly, stores exactly one variable and keeps the rest",
 """Storing a number in an integer or real variable, global or local, makes a later fetch return it: unchanged for the same type, exactly
 converted for integer to real, and rounded to the nearest integer for real to integer, with an overflow error when that integer
 does not fit in a word. No other memory word or stack cell changes, and in a multiple assignment the same right-hand value is
 left for the next variable.""",
 ["inputs"], "all values of both types x {integer, real} destination x {global, local} x all destination addresses below the device area",
 "Tests assign a few constants; out-of-range and halfway conversions and the untouched rest of memory are not observed.",
 [S+"processor.cpp", S+"opcodes.cpp"],
 [("store_value", S+"processor.cpp"), ("ST STA", S+"opcodes.cpp"), ("integer_to_x1 range check", S+"x1_arch.cpp")], ["memory", "stack", "runtime error text"])
prop("C09", "abs, sign, entier and unary minus are exact; functions get the operand's value",
 """For every integer or real argument: abs gives the same number without its sign, as a real, sign gives -1, 0 or 1,
 unary minus gives the same type with the sign reversed, and entier gives the largest integer not exceeding the argument, as an
 integer or as an overflow error when no word can hold it. Square root and logarithm reject arguments outside their domain; sqrt, ln, exp, sin, cos and arctan otherwise
 give the mathematical library's function of exactly the operand's value, rounded to a machine real.""",
 ["inputs"], "all integer and real arguments",
 "A few constants are tested.", [S+"opcodes.cpp", S+"virtual_stack.cpp"],
 [("abs sign entier sqrt ln NEG", S+"opcodes.cpp"), ("Stack_Cell::sign", S+"virtual_stack.cpp")], ["operand stack top", "runtime error text"])
prop("C10", "Array elements are distinct, in bounds and correctly addressed",
 """For an array declared with any bounds, each subscript list within the bounds selects a storage cell of its own inside the
 storage reserved for that array, of the declared type; the reserved storage has exactly room for all elements and arrays declared together
 do not overlap. Storing to one element changes no other element, and a subscript whose cell would lie outside all storage is
 reported as an error rather than wrapping around to another cell.""",
 ["inputs", "programs"], "real and integer, local arrays of 1..3 dimensions, 1..2 arrays per declaration; all lower bounds in word range with extents up to the stated bound; all subscripts",
 "Tests use a dozen concrete bounds, never all subscripts, never two arrays with symbolic bounds.",
 [S+"opcodes.cpp", S+"processor.cpp"],
 [("make_storage_function_frame", S+"processor.cpp"), ("LAP, IND", S+"opcodes.cpp")], ["address pushed by the indexer", "stack contents", "runtime error text"])
prop("C11", "Value arrays are private, correctly converted copies",
 """An array passed by value gives the procedure a copy with the same bounds in which every element equals the actual element, converted with
 assignment rules when the element types differ. Writing to the copy never changes the actual array and the other way round.""",
 ["inputs", "programs"], "all element values; 1-2 dimensional actual arrays of both types into formals of both types, small extents",
 "Tests copy one or two fixed arrays.", [S+"processor.cpp", S+"opcodes.cpp"],
 [("make_value_array_function_frame", S+"processor.cpp"), ("VAP", S+"opcodes.cpp")], ["stack contents", "memory", "runtime error text"])
prop("C12", "Every machine order has its documented effect and no other",
 """From any register and memory state, executing one supported order changes exactly the registers, condition, order counter and memory words
 that the X1 order prescribes, with the prescribed values. Orders whose condition is not met only advance the order counter, and an order outside the supported set
 is reported as an error without changing anything else.""",
 ["inputs", "programs"], "all 27-bit order words at any address, with arbitrary A, S, B, condition and arbitrary memory contents",
 "Tests execute the few orders the compiler happens to emit with fixed operands.",
 [S+"processor.cpp", S+"machine.cpp"],
 [("step() order decoding", S+"processor.cpp"), ("mem_load/mem_store", S+"machine.cpp")], ["registers", "order counter", "memory", "stack", "runtime error text"])
prop("C13", "Procedure calls and returns restore the caller's environment exactly",
 """After a procedure or function call returns, execution continues after the call with the stack exactly as it was before the call (plus the result
 for a function), all of the caller's local and outer variables visible at their proper block levels and the caller's frame current again.
 This holds for nested and recursive calls and for any argument values, and a call leaves memory it was not asked to change alone.""",
 ["programs", "inputs"], "compiled programs with nested, recursive and function procedures; all input values",
 "Tests run a few call patterns with constants; environment damage shows only for particular nesting.",
 [S+"processor.cpp", S+"opcodes.cpp"],
 [("frame_create/frame_release/update_display", S+"processor.cpp"), ("ETMR ETMP RET SCC STP", S+"opcodes.cpp")], ["program output", "stack height", "display", "memory"])
prop("C14", "Call by name re-evaluates in the caller's scope; call by value copies once",
 """An actual parameter called by name is evaluated in the environment of the call each time the formal is used, so side effects and assignments
 through it reach the actual variable or array element; one called by value is evaluated exactly once, converted to the declared type, and assignments to it do
 not reach the actual. Both hold through chains of procedures passing formals on, for simple variables, expressions and subscripted variables.""",
 ["programs", "inputs"], "compiled programs with chains of up to three procedures passing parameters on; all input values",
 "Tests run fixed programs with fixed values.", [S+"processor.cpp", S+"opcodes.cpp", "compiler/x1algc.c"],
 [("take_formal, arg_descriptor, get_arg_display", S+"processor.cpp"), ("TFP TFA TFR EIS", S+"opcodes.cpp")], ["program output", "memory"])
prop("C15", "For statements run exactly the iterations ALGOL prescribes",
 """A for statement executes its body once for each element value, step-until element and while element in the order written; a step-until element
 runs while the controlled variable has not passed the limit in the direction of the step's sign, re-evaluating step and limit each
 time. The controlled variable holds the current value in the body.""",
 ["inputs", "programs"], "all start, step and limit values of both types with at most a stated number of iterations; value, while and mixed lists; nested loops",
 "Tests run loops with fixed bounds.", [S+"opcodes.cpp", "compiler/x1algc.c"],
 [("FOR0..FOR8", S+"opcodes.cpp")], ["program output", "memory"])
prop("C16", "Goto and switches reach the right label and unwind to its block",
 """A goto transfers control to the named label wherever it is declared; leaving blocks and procedures this way discards exactly their storage and makes the
 label's block current again. A switch designator selects the label at the index position for every index within range.""",
 ["inputs", "programs"], "compiled programs with jumps out of nested blocks/procedures and switches; all index and condition values",
 "Tests run fixed jumps.", [S+"opcodes.cpp", S+"processor.cpp", "compiler/x1algc.c"],
 [("GTA / roll_back", S+"opcodes.cpp"), ("SSI and switch order sequence", "compiler/x1algc.c")], ["program output", "stack height", "memory"])
prop("C17", "No object code can make the simulator misbehave: errors are reported",
 """Whatever words are in memory and whatever the register and stack contents, executing an order either completes or ends in a reported run-time error; the
 simulator never reads or writes outside its own storage and never corrupts itself. Growth of the stack beyond its limit is reported as a
 stack overflow.""",
 ["programs", "inputs"], "arbitrary order words and memory contents from arbitrary register states with small stacks, one or more steps",
 "Tests only run code generated by the compiler.", [S+"processor.cpp", S+"opcodes.cpp", S+"machine.cpp", S+"virtual_stack.cpp"],
 [("bounds checks in Virtual_Stack", S+"virtual_stack.cpp"), ("address masks", S+"machine.cpp")], ["runtime error text", "memory safety"])
prop("C18", "FIXT, ABSFIXT and FLOT print correctly rounded numbers in the documented layout",
 """For every number of digits and every value, FIXT and ABSFIXT print sign, padded integer part, point and fraction in exactly the documented number of positions with the digits of the
 value rounded to the last printed place, and fall back to FLOT(13,3) exactly when the value or digit counts do not fit. FLOT prints sign, point, n mantissa digits and an m-digit
 exponent denoting the value rounded to n digits, falling back to the 13,3 layout exactly when the exponent or digit counts do not fit.""",
 ["inputs"], "all values within stated classes (integers and dyadic fractions) x digit counts n, m in and just outside the permitted range",
 "Tests print about forty fixed combinations.", [S+"machine.cpp", S+"opcodes.cpp"],
 [("print_fixed_point", S+"machine.cpp"), ("print_floating_point", S+"machine.cpp"), ("FLOT/FIXT/ABSFIXT orders", S+"opcodes.cpp")], ["characters written"])
prop("C19", "print writes every integer exactly and layout procedures write what they promise",
 """print writes each integer in exact decimal with a minus sign for negative values, separates several arguments by single spaces and consumes them; SPACE(n) writes n
 spaces for n > 0 and nothing otherwise; NLCR ends the line and TAB writes a tab. None of them changes memory or the values below its arguments on the stack.""",
 ["inputs"], "all integer values, one to three arguments, all small space counts",
 "Tests print a few constants.", [S+"opcodes.cpp", S+"x1_arch.cpp"],
 [("x1_print_integer", S+"x1_arch.cpp"), ("print SPACE NLCR TAB", S+"opcodes.cpp")], ["characters written", "stack"])
prop("C20", "Characters keep their identity between UTF-8 text and internal codes",
 """Reading the UTF-8 text of any ALGOL character yields the internal code whose printed form is that same character, and printing any code writes one well-formed
 UTF-8 character. The compiler's source reader, the simulator's character input and its character output agree on the code of every character, and
 text that is no ALGOL character is skipped or rejected, never misread as one.""",
 ["inputs"], "all byte sequences of up to 4 bytes on input; all 128 codes on output; every character inside a compiled string",
 "Tests send a few sample lines.", [S+"encoding.cpp", S+"input.cpp", "compiler/x1algc.c"],
 [("algol_to_utf8 table", S+"encoding.cpp"), ("input_char", S+"input.cpp"), ("read_utf8_symbol / next_ALGOL_symbol", "compiler/x1algc.c")], ["codes", "bytes written"])
prop("C21", "Memory and device words behave independently and as documented",
 """A word stored at an ordinary address is read back unchanged (27 bits) until stored again, and stores to one address never affect another, addresses being taken modulo
 32768. The device addresses never overwrite memory: random numbers are reproducible from their seed and lie in [0,1), and the time of day is the local time in seconds
 since midnight.""",
 ["inputs", "histories"], "all addresses, all values, all sequences of two stores and a load; all clock readings; all seeds",
 "Tests use a few addresses and cannot control the clock.", [S+"machine.cpp"],
 [("mem_load/mem_store/mem_fetch", S+"machine.cpp")], ["loaded words", "bytes written"])
prop("C22", "The loader places every object word, symbol and entry exactly as written",
 """For every object file line the loader stores exactly the given value at the given address, records the given symbol at the given address, or appends the entry address, and an
 object file it cannot interpret, or one with no entry, is reported as an error instead of being run. The words the compiler prints are thus the words executed.""",
 ["inputs"], "all addresses, values and entry triples in each line form; malformed and missing lines",
 "Tests load only what the compiler produced.", [S+"machine.cpp"],
 [("load_object_program", S+"machine.cpp"), ("run(get_entry(0))", S+"machine.cpp")], ["memory", "symbol table", "entry table", "runtime error text"])
prop("C23", "A program is run only after a successful compilation",
 """If the compiler does not end normally with success (it reports an error, cannot be started, cannot read its input or write its output, exits with any other status, or is killed by a signal), the simulator reports an
 error and does not execute anything. Only normal termination with status zero counts as success.""",
 ["fault_sequences"], "all wait statuses of the compiler process, fork and wait failures",
 "Tests cover a syntax error and a missing file only.", [S+"machine.cpp"],
 [("run_program", S+"machine.cpp")], ["runtime error text"])
prop("C24", "Compiled expressions obey ALGOL precedence and associativity",
 """For every arithmetic, relational and Boolean expression the compiled code computes the value ALGOL 60 defines: operators bind by their precedence, equal ones associate to the left, parentheses
 override, signs and conditional expressions included. The same source always gives the same object code.""",
 ["programs", "inputs"], "all expressions from bounded templates with every operator choice; all operand values",
 "Tests compile a few fixed formulas.", ["compiler/x1algc.c", S+"opcodes.cpp"],
 [("main_scan operator priorities, unload_t_list_element", "compiler/x1algc.c")], ["program results"])
prop("C25", "Number literals compile to the exact or nearest machine number",
 """An integer literal that fits a word compiles to exactly that integer, and any other numeric literal (fractions, exponents, large integers) to a real within one unit in the last place of the written value; a literal too large for the machine
 is rejected, and one too small becomes zero or is rejected. No literal silently becomes a different number.""",
 ["programs"], "all literals of stated shapes: digit strings, decimal fractions and scale factors with symbolic digits",
 "Tests compile a few constants.", ["compiler/x1algc.c"],
 [("read_until_next_delimiter number conversion", "compiler/x1algc.c"), ("look_for_constant", "compiler/x1algc.c")], ["compiled constant"])
prop("C26", "Distinct identifiers denote distinct objects, equal ones the same, by scope",
 """Two identifiers that differ within their first nine characters are never confused, whatever letters and digits they use, and two spellings of the same identifier always denote the same object. An inner declaration
 hides an outer one exactly within its block, and undeclared identifiers are reported.""",
 ["programs"], "all identifiers with symbolic characters up to the significant length; nested blocks",
 "Tests use a fixed set of names.", ["compiler/x1algc.c"],
 [("identifier packing in read_until_next_delimiter", "compiler/x1algc.c"), ("look_for_name", "compiler/x1algc.c")], ["compiled code", "error report"])
prop("C27", "The library bit-string coding is lossless and detects damaged tapes",
 """Every sequence of instruction words packed into the library bit string by the assembler or the compiler is unpacked to the identical words by the compiler's loader. A library tape heptade with wrong
 parity is reported and not silently accepted.""",
 ["inputs", "fault_sequences"], "all instruction words, in sequences of bounded length and every bit phase; all single heptade corruptions",
 "The test-suite only loads the shipped library tapes.", ["compiler/x1algc.c", "library/objfile.cc"],
 [("bit_string_maker/address_coder/fill_result_list", "compiler/x1algc.c and library/objfile.cc"), ("program_loader, read_binary_word, address_decoding", "compiler/x1algc.c")], ["loaded words", "error report"])
prop("C28", "The compiler survives any source text: it finishes or reports an error",
 """For any source text the compiler either produces an object program and exits with success or stops with an error report and a failure status; it never reads or writes outside its tables and never
 continues past a full table. Damaged or truncated programs never produce a success exit with a corrupted object program.""",
 ["inputs", "programs"], "program texts with symbolic tails and symbolic mutated characters, and nesting beyond the translator's tables",
 "Tests compile well-formed programs and four syntax errors.", ["compiler/x1algc.c"],
 [("stop() error exits", "compiler/x1algc.c"), ("table-limit checks", "compiler/x1algc.c")], ["exit status", "memory safety", "object program"])
prop("C29", "Console switches are read once and delivered under the mask",
 """XEEN delivers, for each switch selected by its one's complement mask word, the switch as the operator set it and zero for the others; the operator is asked once and again only after a stop. Input that is not up to 27 binary
 digits is refused.""",
 ["inputs", "histories"], "all mask words, all switch settings, sequences of XEEN and stop",
 "Tests use a few masks.", [S+"input.cpp", S+"opcodes.cpp"],
 [("read_console_switches", S+"input.cpp"), ("XEEN, stop", S+"opcodes.cpp")], ["operand stack top", "prompts"])
prop("C30", "Tracing and progress options never change what a program computes",
 """Executing any order with tracing on leaves registers, stack, memory, program output and errors exactly as with tracing off. Trace text goes to the trace stream only.""",
 ["programs", "inputs"], "every supported order with arbitrary operands, traced and untraced",
 "Tests compare a few trace files as text.", [S+"trace.cpp", S+"machine.h", S+"processor.cpp"],
 [("trace_* hooks", S+"machine.h"), ("print_* functions", S+"trace.cpp")], ["registers", "stack", "memory", "bytes written"])
prop("C31", "Transcendental functions and the Pascal compiler give the documented results",
 """sin, cos, arctan, ln, exp and sqrt deliver the real nearest to the mathematical function value to 40 bits, and the Pascal version of the compiler translates every program to the same object code as the C version.""",
 ["inputs", "programs"], "all real arguments; all programs",
 "Only a few constants are tested; the Pascal compiler is not tested at all.", [S+"opcodes.cpp", "compiler/x1algol.pas"],
 [("calls to the C math library", S+"opcodes.cpp"), ("x1algol.pas", "compiler/x1algol.pas")], ["operand stack top", "object code"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
