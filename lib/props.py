"""The properties: statements (-> properties.jsonl), and the runs that decide them (-> check.py, MANIFEST.json)."""

COMMON_ASSUMPTIONS = [
    "tiro's sources are compiled by clang 18 at -O1 with assertions on (TIRO_DEBUG as in the official debug build), the engine executes that LLVM bitcode; gcc-only behaviour is outside",
    "the C library, libstdc++ and libc++abi functions that are not part of the bitcode (malloc, mem*, libm, exception ABI, number formatting of concrete floats) are modelled by the engine; every sampled path and every counterexample is re-run natively",
    "memory allocation by the host never fails; one thread",
]

PROPS = {}
TEXT = []

def prop(id, title, statement, over, text, why, files, mech, runs=None, na=None, assumptions=None, observe=None):
    TEXT.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                     anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or ["C API", "compiled programs"]),
                     na=na))
    assert len(title) <= 80, title
    if runs:
        PROPS[id] = dict(runs=runs, assumptions=assumptions or [])

prop("C01", "Integer arithmetic is exact or panics",
     "For all 64-bit integers, the operators + - * / % ** (and their compound assignments), unary + and -, and ~ return the exact mathematical result "
     "(division truncates towards zero, % takes the sign of the dividend). They panic with an exception exactly when that result does not fit into 64 bits or is undefined (division by zero, 0 to a negative power; % is defined exactly when / is).",
     ["inputs"], "all pairs of 64-bit operands for + - * / % and unary operators; ** for every base with exponents 0..2 and negative ones, and bases -3..3 (thorough: -12..12) with all exponents",
     "The evaluation tests use a handful of small constants; overflow boundaries, INT64_MIN, mixed small/heap integer representations and sign combinations are 2^128 operand pairs.",
     ["src/vm/math.cpp", "src/common/safe_int.hpp", "src/vm/objects/primitives.cpp", "src/vm/interpreter.cpp"],
     [("checked arithmetic of the runtime", "src/vm/math.cpp: add_op .. pow_op, unary_minus"), ("small and heap integer representation", "src/vm/objects/primitives.cpp")],
     runs=[dict(h="arith", tdef=["THOROUGH"], time=120, ttime=900, solver_ms=15000,
                bounds="all 64-bit operands; see the harness for **: exponents 0..2 and negative for every base; bases |a|<=3 (thorough 12) with every exponent, |a|<=1 with exponents < 64 (1024); compound assignment operands |x|<=1000")])

prop("C02", "Float and mixed arithmetic follows IEEE 754 double arithmetic",
     "For all 64-bit floats, and for mixed integer/float operands (the integer is converted to the nearest double), + - * / % ** and their compound assignments, unary + and -, and the functions abs, floor, ceil, round, sqrt, pow, log and the trigonometric functions of std "
     "return exactly what IEEE 754 double arithmetic (and the C math library) returns, including infinities, NaN, signed zeros and subnormal numbers; they never panic on numbers.",
     ["inputs"], "all bit patterns of both operands, all four operand kind combinations that involve a float",
     "Tests use a few round constants; NaN, signed zero, infinities, overflow and integers beyond 2^53 in mixed operations are never combined.",
     ["src/vm/math.cpp", "src/vm/builtins/std.cpp", "src/vm/interpreter.cpp"],
     [("numeric dispatch on operand kinds", "src/vm/math.cpp"), ("std math functions", "src/vm/builtins/std.cpp")],
     runs=[dict(h="floats", time=100, bounds="all 64-bit operands; libm functions are one uninterpreted function shared by the implementation and the reference")])

prop("C03", "Compile time evaluation agrees with run time evaluation",
     "Whatever the compiler evaluates or shares at compile time has the meaning of the run time operation: a folded unary or binary operation on integer, float, boolean and null constants yields the value (and the kind, and the sign of zero) that the virtual machine computes for the same operands, "
     "operations that panic at run time are not folded away, and two different constants are never merged into one.",
     ["inputs", "programs"], "every operator with all 64-bit integers, all floats, booleans and null as operands; whole programs whose literals have symbolic digits",
     "The unit tests fold fixed constants and compare with a written down expectation, never with the virtual machine; overflow, NaN and signed zero combinations are not sampled.",
     ["src/compiler/ir_gen/const_eval.cpp", "src/compiler/ir_gen/compile_value.cpp", "src/vm/math.cpp"],
     [("constant folding", "src/compiler/ir_gen/const_eval.cpp: eval_binary_operation, eval_unary_operation"), ("value numbering of constants", "src/compiler/ir_gen/compile_value.cpp")],
     runs=[dict(h="fold", time=260, ttime=1500, solver_ms=15000, bounds="all 64-bit operands for + - * / % comparisons and unary operators, ** with the bounds of C01; programs with two literals of up to 2 symbolic digits each; pairs of float constants with all bit patterns"),
          dict(h="discard", time=200, ttime=300, bounds="12 binary operators with 7 x 7 operands, 4 unary operators, member, element, call, method, tuple, interpolation and assignment with 11 operands; as literals, as named constants or variables and as parameters; result used and not used"),
          dict(h="discard", **{"def": ["NESTED"]}, time=900, ttime=900, thorough_only=True, bounds="two nested operations with 6 operands")])

prop("C04", "Comparison and equality agree with the mathematical order",
     "== and != compare numbers by their exact mathematical value (an integer is never rounded to compare it with a float), strings and slices by content, null, booleans and symbols by identity of the value and everything else by object identity; == is reflexive (except NaN), symmetric and transitive. "
     "< <= > >= on numbers agree with the real order, comparisons with NaN are false, null sorts below everything, every other combination panics.",
     ["inputs"], "all pairs of 64-bit integers and floats, all pairs of ASCII strings up to 3 characters (strings and slices), all pairs of 14 kinds of values",
     "Tests compare a few small equal or unequal numbers; the rounding of large integers, NaN and the mixed kind table are not covered.",
     ["src/vm/math.cpp", "src/vm/objects/value.cpp", "src/vm/interpreter.cpp", "src/vm/objects/string.cpp"],
     [("numeric comparison", "src/vm/math.cpp: compare"), ("equality", "src/vm/objects/value.cpp: equal"), ("conditional jumps", "src/vm/interpreter.cpp")],
     runs=[dict(h="cmp", time=150, bounds="all 64-bit operands; strings up to 3 bytes of ASCII; 14x14 kinds x 6 operators")])

prop("C05", "Maps are insertion ordered finite functions keyed by ==",
     "After every sequence of map literals, element assignments, remove and clear, a map holds exactly the keys the sequence leaves, with the value stored last; [] of an absent key is null, contains, size, keys(), values() and iteration agree with each other, iteration visits every entry once in insertion order "
     "(an overwritten key keeps its place), and keys are identified by == (1 and 1.0 are one key, equal strings and slices are one key, objects by identity).",
     ["inputs", "histories"], "sequences of 2 (thorough: 3) symbolic operations on tables with several prefilled sizes, including sizes right below growth and compaction, with symbolic keys of 7 kinds",
     "Robin hood displacement, back shifting and compaction depend on the hash values and order of many operations; tests insert a few well behaved keys.",
     ["src/vm/objects/hash_table.cpp", "src/vm/hash.cpp", "src/vm/objects/value.cpp"],
     [("open addressing with back shifting", "src/vm/objects/hash_table.cpp: set_impl, remove_impl, remove_from_index, rehash_index, compact_entries"), ("hash and equality of values", "src/vm/hash.cpp, src/vm/objects/value.cpp")],
     runs=[dict(h="maps", time=200, tdef=["THOROUGH", "STEPS=3"], ttime=3000, solver_ms=15000, bounds="2 (thorough 3) symbolic operations after a concrete prefill of up to 40 entries with removals; keys from 7 kinds with small symbolic values; big tables with 0..130 integer keys and symbolic removal steps")])

prop("C06", "Sets are insertion ordered finite sets with == as membership",
     "After every sequence of set literals, insert, remove and clear, a set holds exactly the elements the sequence leaves: contains, size and iteration agree, iteration visits each element once in insertion order, insert tells whether the element is new, and elements are identified by ==.",
     ["inputs", "histories"], "sequences of 2 (thorough: 3) symbolic operations on prefilled sets, symbolic elements of 7 kinds",
     "As for maps: the state of the table depends on hashes and on the order of many operations.",
     ["src/vm/objects/hash_table.cpp", "src/vm/objects/set.cpp", "src/vm/hash.cpp"],
     [("set on top of the hash table", "src/vm/objects/set.cpp"), ("open addressing with back shifting", "src/vm/objects/hash_table.cpp")],
     runs=[dict(h="maps", **{"def": ["SET"]}, time=200, tdef=["SET", "THOROUGH", "STEPS=3"], ttime=3000, solver_ms=15000, bounds="as for C05")])

prop("C07", "Arrays, tuples and buffers are bounds checked sequences",
     "Reading or writing element i of an array, tuple or buffer of size n succeeds exactly for integers 0 <= i < n (any other index panics and changes nothing) and reads return the value written last; append, clear, size, iteration (also nested) and destructuring see exactly the elements in order; "
     "buffers hold bytes: they start zeroed, storing anything but an integer 0..255 panics, a negative size panics, and tiro_buffer_data shows the same bytes. The element functions of the C API have the same bounds and report TIRO_ERROR_OUT_OF_BOUNDS.",
     ["inputs", "histories"], "all 64-bit indices, all kinds of indices, all 64-bit element values, array sizes around every growth step up to 33, buffer sizes -2..4",
     "Tests access a few valid elements; indices that wrap, are negative, or of another type, and growth boundaries are not combined.",
     ["src/vm/objects/array.cpp", "src/vm/objects/tuple.cpp", "src/vm/objects/buffer.cpp", "src/vm/type_system.cpp", "src/api/objects.cpp"],
     [("index checks", "src/vm/type_system.cpp: load_index, store_index"), ("growth", "src/vm/objects/array.cpp"), ("C API", "src/api/objects.cpp: tiro_array_*, tiro_tuple_*, tiro_buffer_*")],
     runs=[dict(h="arrays", time=150, bounds="all 64-bit indices and values (one unconstrained index per run, others within -1..9); sizes 0,1,7,8,9,16,17,33; tuples of 0..4 elements")])

prop("C08", "Strings, slices and builders are byte sequences that never leave their bounds",
     "For every string, slice and builder: size is the number of bytes; slice_first(n), slice_last(n) and slice(offset, n) (also of slices) are exactly those bytes that exist of the requested range (never bytes outside of the original; negative offsets and sizes count as zero, other arguments that are no integers panic) and keep their content whatever happens later; contains agrees with substring search; "
     "builders concatenate what was appended; iteration yields the bytes in order, each as a string of its own; equal content means equal values, equal hash keys and the same interpolated text; the C API returns exactly the bytes it was given, including zero bytes.",
     ["inputs"], "all strings of up to 3 symbolic bytes, all 64-bit slice offsets and lengths, slices of slices, all kinds of arguments",
     "Tests slice one or two constant strings; offsets that overflow, empty slices, embedded zero bytes and slices used as keys are not combined.",
     ["src/vm/objects/string.cpp", "src/vm/type_system.cpp", "src/api/objects.cpp", "src/common/text/unicode.cpp"],
     [("slices", "src/vm/objects/string.cpp: StringSlice, string slice helpers"), ("builders", "src/vm/objects/string.cpp: StringBuilder"), ("iteration", "src/vm/objects/string.cpp: StringIterator")],
     runs=[dict(h="strings", time=250, ttime=900, solver_ms=15000, bounds="strings of at most 3 symbolic bytes; all 64-bit integers as slice arguments (one unconstrained per run); slices nested twice")])

prop("C16", "Control flow executes exactly the statements of the structured program",
     "For every function built from blocks, if/else, while, for (also without condition), for-each, break, continue, return, assignments and swaps, and every outcome of its conditions, the compiled program executes the same statements in the same order, with the same variable values, as the textbook semantics of the source; "
     "in particular jumps that leave nested constructs from any position, constructs that never complete and variables that are exchanged in loops are compiled correctly.",
     ["inputs", "programs"], "all programs of 3 statements (thorough: 3 of the full grammar) from the grammar, all values of the two integer variables and of the conditions",
     "SSA construction, phi placement, liveness, register allocation and parallel copies depend on the shape of the control flow graph and on which variables are live where; tests compile a few fixed shapes.",
     ["src/compiler/ir_gen/func.cpp", "src/compiler/ir_gen/compile_stmt.cpp", "src/compiler/ir_gen/compile_expr.cpp", "src/compiler/ir_passes/liveness.cpp", "src/compiler/bytecode_gen/alloc_registers.cpp", "src/compiler/bytecode_gen/parallel_copy.cpp"],
     [("SSA construction", "src/compiler/ir_gen/func.cpp: read_variable, seal, add_phi_operands"), ("loops and branches", "src/compiler/ir_gen/compile_stmt.cpp, compile_expr.cpp"), ("register allocation", "src/compiler/bytecode_gen")],
     runs=[dict(h="prog", **{"def": ["FLOW", "BUDGET=3", "SCRIPT=2"]}, tdef=["FLOW", "FULL", "BUDGET=3", "SCRIPT=3"], time=400, ttime=3000, solver_ms=15000, bounds="3 statements of: block, if/else, while, for-each, for without condition, break, continue, return, swap; 2 symbolic conditions (then false), symbolic 64-bit variables"),
           dict(h="prog", **{"def": ["FLOW", "FULL", "BUDGET=2", "SCRIPT=4"]}, tdef=["FLOW", "FULL", "BUDGET=2", "SCRIPT=4"], time=300, ttime=900, solver_ms=15000, bounds="2 statements of the full grammar (adds if, for, simple assignments, tuple assignment), 4 symbolic conditions")])

prop("C18", "Variables are lexically scoped and closures share the variables they capture",
     "A name refers to the innermost enclosing declaration; functions created inside a scope see and modify the same variable as the enclosing code, also after that scope has ended and through several calls; every iteration of a loop creates fresh instances of the variables declared in its body, and two closures created in the same iteration share theirs.",
     ["inputs", "programs"], "all programs of 3 statements built from loops, for-each, shadowing declarations, immediately called and stored closures and assignments; symbolic variable values and conditions",
     "Which environment a captured variable lives in depends on the nesting of loops, scopes and closures; tests sample a few nestings.",
     ["src/compiler/ir_gen/func.cpp", "src/compiler/ir_gen/closures.cpp", "src/compiler/semantics/analysis.cpp", "src/vm/interpreter.cpp"],
     [("closure environments", "src/compiler/ir_gen/func.cpp: enter_env, get_captured_lvalue"), ("symbol resolution", "src/compiler/semantics")],
     runs=[dict(h="prog", **{"def": ["CLOS", "BUDGET=3", "SCRIPT=2"]}, tdef=["CLOS", "FULL", "BUDGET=3", "SCRIPT=3"], time=300, ttime=3000, solver_ms=15000, bounds="3 statements of: while, for-each with a captured per-iteration variable, shadowing scope, stored closure, called closure, assignment; stored closures are called twice afterwards"),
           dict(h="prog", **{"def": ["CLOS", "FULL", "BUDGET=2", "SCRIPT=3"]}, tdef=["CLOS", "FULL", "BUDGET=2", "SCRIPT=3"], time=300, ttime=900, solver_ms=15000, bounds="2 statements of the full closure grammar")])

prop("C19", "Deferred statements run exactly once, in reverse order, however a scope is left",
     "When a scope is left - by reaching its end, by return, break, continue or by a panic - every defer statement that was executed in it runs exactly once, in reverse order, and sees the values the variables have at that moment; defers that were not reached do not run; a jump or panic inside a deferred expression replaces the reason for leaving (the remaining deferred expressions still run); a panic that is not replaced reaches the caller.",
     ["inputs", "programs"], "all programs of 3 statements built from defer (expressions and blocks), panics, conditionals, loops, return, break, continue and assignments; symbolic variable values and conditions",
     "The compiler emits a separate copy of the deferred code per exit path and exception handlers per block; tests sample a few combinations of jumps and defers.",
     ["src/compiler/ir_gen/func.cpp", "src/compiler/ir_gen/compile_stmt.cpp", "src/vm/interpreter.cpp", "src/compiler/bytecode_gen/module.cpp"],
     [("scope exits", "src/compiler/ir_gen/func.cpp: compile_scope_exit, compile_scope_exit_until"), ("handlers", "src/compiler/ir_gen/compile_stmt.cpp: visit_defer_stmt"), ("unwinding", "src/vm/interpreter.cpp: unwind")],
     runs=[dict(h="prog", **{"def": ["DEFR", "BUDGET=3", "SCRIPT=2"]}, tdef=["DEFR", "FULL", "BUDGET=3", "SCRIPT=4"], time=300, ttime=3000, solver_ms=15000, bounds="3 statements of: defer expression, defer block, conditional panic, if, while, return, break, continue, assignment; 2 symbolic conditions")])

prop("C11", "The lexer splits every source text into the longest matching tokens",
     "Every source text is split into tokens that are in order, do not overlap, and cover everything except whitespace and comments; each token is the longest operator, keyword, identifier, number, symbol or piece of a string that matches at its position (keywords only as whole words, digits after . or ?. are tuple fields, $name and ${...} switch in and out of strings at any nesting, block comments nest); the end of the text ends the token that is being read, never more.",
     ["inputs"], "all texts of 3 (thorough: 4) ASCII characters, one or two (thorough: three) symbolic characters within 24 longer contexts, every keyword with one character replaced or appended",
     "Tests tokenize a few well formed texts; characters at the end of the text, unterminated pieces and pairs of adjacent operators are not sampled.",
     ["src/compiler/syntax/lexer.cpp", "src/common/text/code_point_range.hpp"],
     [("tokens", "src/compiler/syntax/lexer.cpp: lex_normal, lex_operator, lex_string, lex_block_comment")],
     runs=[dict(h="lex", **{"def": ["LEN=3", "TLEN=2"]}, tdef=["LEN=4", "TLEN=3"], time=120, ttime=1500, bounds="texts of 3 (4) ASCII characters; 1..2 (3) symbolic characters within longer contexts; comments returned or ignored")])

prop("C12", "Numeric literals denote exactly the written number or are rejected",
     "An integer literal (decimal, 0x, 0o, 0b, with _ between digits) denotes its mathematical value, or the program is rejected when a character is no digit of the base, no digit is present or the value does not fit 64 bits; a float literal is the double nearest to the written number (while its digits fit a mantissa); tuple fields are decimal, without additional leading zeros and fit 32 bits.",
     ["inputs"], "all texts of up to 3 arbitrary bytes after every base prefix, 3 arbitrary bytes after prefixes right below the limits, floats with up to 2 arbitrary bytes in several positions",
     "Tests parse a few literals; overflow boundaries, misplaced characters and the rounding of fractions are not covered.",
     ["src/compiler/syntax/grammar/literals.cpp", "src/compiler/syntax/lexer.cpp"],
     [("literals", "src/compiler/syntax/grammar/literals.cpp: parse_integer_impl, parse_float_value, parse_tuple_field")],
     runs=[dict(h="lit", tdef=["LEN=4", "FLEN=3"], time=120, ttime=1500, solver_ms=15000, bounds="3 (4) arbitrary bytes in 18 contexts for integers and tuple fields, 2 (3) in 10 contexts for floats; compiled programs with integer literals of up to 3 symbolic digits and float literals of 2, in 4 bases")])

prop("C13", "String literals and interpolation produce exactly the written bytes",
     "A string literal contains exactly the bytes between its delimiters, with the escapes \\n \\r \\t \\\" \\' \\\\ \\$ \\xHH \\u{H...} replaced by the character they denote; every other escape, incomplete escapes and code points that do not exist are rejected with a message; interpolated strings are the concatenation of their pieces and of the text of the values, in order and at any nesting.",
     ["inputs"], "all escapes with up to 3 symbolic characters in 16 contexts, with both delimiters, through the parser and through the whole compiler",
     "Tests contain some escapes; incomplete ones, values at the limits of unicode and characters next to an interpolation are not sampled.",
     ["src/compiler/syntax/grammar/literals.cpp", "src/compiler/ast_gen/build_ast.cpp", "src/compiler/syntax/lexer.cpp"],
     [("escapes", "src/compiler/syntax/grammar/literals.cpp: parse_string_literal, parse_unicode_hex"), ("string parts", "src/compiler/syntax/lexer.cpp: lex_string")],
     runs=[dict(h="lit", **{"def": ["STRINGS"]}, tdef=["STRINGS", "LEN=4"], time=150, ttime=1500, solver_ms=15000, bounds="3 (4) ASCII characters in 16 contexts; 2 characters within compiled literals; one symbolic character next to interpolations")])

prop("C14", "The compiler answers every source text with a valid module or with diagnostics",
     "For every source text the compiler ends with either a module that passes the bytecode verifier and no error, or with TIRO_ERROR_BAD_SOURCE, no module and at least one error message with a position inside of the file; it never fails with an internal error, an assertion, or undefined behaviour.",
     ["inputs", "programs"], "75 program contexts (all kinds of items, statements and expressions) with 1 or 2 arbitrary ASCII characters inserted, 30 contexts with any 2 (thorough: 3) of 58 tokens inserted, each with the rest of the program present or missing",
     "Error recovery runs on broken inputs nobody writes down; the tests contain a few syntax errors.",
     ["src/compiler/syntax/parser.cpp", "src/compiler/syntax/grammar/expr.cpp", "src/compiler/syntax/grammar/stmt.cpp", "src/compiler/syntax/grammar/item.cpp", "src/compiler/ast_gen/build_ast.cpp", "src/compiler/semantics/structure_check.cpp", "src/compiler/semantics/symbol_resolution.cpp", "src/compiler/semantics/type_check.cpp", "src/compiler/compiler.cpp"],
     [("error recovery", "src/compiler/syntax/grammar"), ("trees with missing nodes", "src/compiler/ast_gen/build_ast.cpp"), ("checks", "src/compiler/semantics")],
     runs=[dict(h="total", **{"def": ["HOLE=2"]}, tdef=["HOLE=3"], time=250, ttime=3000, bounds="1..2 (3) ASCII characters in 75 contexts"),
           dict(h="total", **{"def": ["TOKENS", "HOLE=2"]}, tdef=["TOKENS", "HOLE=3"], time=250, ttime=3000, bounds="2 (3) tokens of 58 in 30 contexts")])

prop("C31", "UTF-8 is validated, decoded and encoded exactly",
     "validate_utf8 accepts exactly the byte strings RFC 3629 allows and reports the offset of the first invalid byte; decoding visits every code point once, encoding and decoding are inverse, code points that do not exist are never encoded; identifier starts may continue identifiers and whitespace is not part of them; no token begins or ends inside a code point; std.debug_repr has a printable representation for every string, which as a literal is that string again.",
     ["inputs"], "all byte strings of up to 4 (thorough: 5) bytes, all code points, all strings of up to 3 (4) bytes for debug_repr",
     "Tests decode a few valid strings; overlong, truncated and surrogate encodings and strings with arbitrary bytes are not covered.",
     ["src/common/text/unicode.cpp", "src/common/text/code_point_range.hpp", "src/vm/builtins/dump.cpp", "src/common/text/unicode_data.cpp"],
     [("utf8", "src/common/text/unicode.cpp, code_point_range.hpp"), ("escaped strings", "src/vm/builtins/dump.cpp: EscapedString")],
     runs=[dict(h="utf8", **{"def": ["LEN=4"]}, tdef=["LEN=5", "THOROUGH"], time=120, ttime=1500, bounds="byte strings of up to 4 (5) bytes; all code points for encoding, below 0x600 (all) for character classes, below 0x250 and above 0x1ff00 (all) for the lexer")])

prop("C15", "Operators group by precedence and associativity",
     "Every expression without parentheses means the same as the one fully parenthesised by the table of precedences: assignments (right), ||, &&, ??, |, ^, &, equality, comparison, shifts, + -, * / %, ** (right), then prefix operators, then calls, members, elements and tuple fields, each binding tighter than the one before; operators that are rejected are rejected in both forms.",
     ["programs"], "all expressions of 2 (thorough: 3) of the 27 binary operators, chosen by symbolic characters; all operands with 6 prefixes and 9 suffixes around every binary operator",
     "Tests cover a few pairs of operators; there are 729 pairs and every operand may carry prefix and suffix operators.",
     ["src/compiler/syntax/grammar/expr.cpp", "src/compiler/syntax/grammar/operators.cpp", "src/compiler/ast_gen/build_ast.cpp"],
     [("binding powers", "src/compiler/syntax/grammar/operators.cpp"), ("expressions", "src/compiler/syntax/grammar/expr.cpp: parse_expr")],
     runs=[dict(h="prec", **{"def": ["OPERATORS=2"]}, tdef=["OPERATORS=3"], time=200, ttime=3000, bounds="2 (3) binary operators of 27 between plain operands; 1 binary operator between operands with prefixes and suffixes; the bytecode of both forms is compared")])

prop("C17", "Short circuits and optional chains evaluate exactly what they need",
     "a && b evaluates b only when a is neither null nor false, a || b only when a is null or false, a ?? b only when a is null, and the result is the operand evaluated last; when the value before ?. ?[ or ?( is null, the rest of the chain, including its arguments and indices, is not evaluated and the result is null; any other part of the chain is evaluated exactly once, from left to right.",
     ["inputs", "programs"], "all expressions of up to 2 (thorough: 3) nested operators, in value, condition and statement position, with operands whose value is symbolic among null, false, true, numbers and objects",
     "The code generator emits different jumps for values, conditions and ignored results; tests combine few of them.",
     ["src/compiler/ir_gen/compile_expr.cpp", "src/compiler/ir_gen/func.cpp", "src/compiler/bytecode_gen/func.cpp", "src/vm/interpreter.cpp"],
     [("short circuits", "src/compiler/ir_gen/compile_expr.cpp: compile_or, compile_and, compile_coalesce"), ("optional chains", "src/compiler/ir_gen/compile_expr.cpp: compile_path")],
     runs=[dict(h="opt", **{"def": ["BUDGET=1"]}, tdef=["BUDGET=1"], time=60, ttime=60, bounds="1 operator"),
           dict(h="opt", **{"def": ["BUDGET=2"]}, tdef=["BUDGET=3"], time=120, ttime=1500, bounds="2 (3) nested operators of && || ?? ?. ?[ ?( and the plain forms; operands with symbolic kind that log their evaluation")])

prop("C20", "Expressions are evaluated once, in order; assignments change only their targets",
     "Operands, arguments, elements and parts of interpolated strings are evaluated exactly once, from left to right, before the operation; an assignment evaluates its target's object and index, then the value, then stores; compound assignments read and write their target once; destructuring assigns the elements in order; the value of an expression is what the last step produced, and when one step panics nothing after it is evaluated or assigned.",
     ["inputs", "programs"], "all expressions of 1 or 2 (thorough: 2, at any position) nested constructs of every kind of operator, call, literal, member, element, assignment, block, if and return, with operands that panic or produce symbolic integers",
     "Tests evaluate few combinations; side effects of nested assignments and registers that are overwritten too early are only visible in particular combinations.",
     ["src/compiler/ir_gen/compile_expr.cpp", "src/compiler/ir_gen/func.cpp", "src/compiler/ir_passes/assignment_observers.cpp", "src/compiler/bytecode_gen/alloc_registers.cpp", "src/compiler/bytecode_gen/parallel_copy.cpp", "src/vm/interpreter.cpp"],
     [("expressions", "src/compiler/ir_gen/compile_expr.cpp"), ("assignments", "src/compiler/ir_gen/compile_expr.cpp: compile_assign_expr"), ("registers", "src/compiler/bytecode_gen")],
     runs=[dict(h="evalord", **{"def": ["BUDGET=1"]}, tdef=["BUDGET=1"], time=100, ttime=100, bounds="one construct of every kind in every context"),
           dict(h="evalord", **{"def": ["BUDGET=2", "NEST", "PLAINLEAF=1"]}, tdef=["BUDGET=2", "PLAINLEAF=1"], covers=["panic", "value"], time=200, ttime=3000, bounds="2 constructs nested into each other (thorough: at any positions)")])

prop("C21", "Every operation on every kind of value either succeeds or panics as specified",
     "Each operator, method and function of std either succeeds or panics with a message, according to a table over the kinds of its operands; scripts can combine any kind of value with any operation without an internal error, a failing assertion or undefined behaviour.",
     ["inputs"], "80 operations with one operand, 30 with two, for all (pairs) of 32 kinds of values; numbers are symbolic",
     "A dynamically typed language accepts every combination of kinds; the tests contain the sensible ones.",
     ["src/vm/type_system.cpp", "src/vm/interpreter.cpp", "src/vm/math.cpp", "src/vm/builtins/std.cpp", "src/vm/objects"],
     [("operations on values", "src/vm/type_system.cpp, src/vm/math.cpp"), ("std", "src/vm/builtins/std.cpp"), ("methods", "src/vm/objects")],
     runs=[dict(h="kinds", time=150, ttime=600, bounds="80 operations, 32 kinds of operands"),
           dict(h="kinds", **{"def": ["BINARY"]}, tdef=["BINARY"], time=150, ttime=600, bounds="30 operations, 32 x 32 kinds of operands")])

prop("C22", "Coroutines run in order and are resumed only by their own valid token",
     "Coroutines that are ready run in the order in which they became ready; a coroutine that yields continues only when its current token is resumed (from a script, from another coroutine or from outside) and then exactly once; old tokens and tokens of running or completed coroutines have no effect and report it; asynchronous functions continue with the value or panic they were completed with; every coroutine has a result, visible state and unique name, and its callback is called exactly once when it completes.",
     ["schedules", "histories"], "all scripts of 3 (thorough: 4) steps in 2 coroutines and all schedules of 6 restricted steps: yield, dispatch, take a token, resume any token, start an asynchronous call, complete it with a value or panic, launch, panic, and events from outside",
     "The order of coroutines, tokens and completions is a history; tests have a handful of fixed ones.",
     ["src/vm/context.cpp", "src/vm/interpreter.cpp", "src/vm/objects/coroutine.cpp", "src/vm/objects/native.cpp", "src/api/objects.cpp"],
     [("ready queue", "src/vm/context.cpp: schedule_coroutine, execute_coroutine"), ("tokens", "src/vm/objects/coroutine.cpp: schedule, reset_token"), ("completions", "src/vm/objects/native.cpp: AsyncResumeToken")],
     runs=[dict(h="coro", **{"def": ["OPS=3"]}, tdef=["OPS=4"], time=150, ttime=2000, bounds="3 (4) steps of any kind"),
           dict(h="coro", **{"def": ["OPS=4", "CORE"]}, tdef=["OPS=6", "CORE"], covers=["ran", "waiting"], time=150, ttime=2000, bounds="4 (6) steps of the core kinds")])

prop("C24", "Every function of the C API rejects what it must and does what it says",
     "Every function of the C API accepts any combination of handles (missing ones, and handles that refer to any kind of value), strings and numbers: what it cannot handle is reported with the documented error code and leaves results, arguments and the virtual machine unchanged; everything else succeeds with the documented effect; errors that were reported before are kept; sizes never overflow and exceeding the memory limit is reported. A compiler accepts its functions in any order and rejects those that are not valid in its state.",
     ["inputs", "histories"], "62 groups of API functions, 26 kinds of handles per argument, symbolic integers, floats, indices, sizes and error codes; all sequences of 3 (thorough: 4) calls on a compiler",
     "The host is not type checked: every argument can be anything, and every combination of bad arguments must be caught before anything is changed.",
     ["src/api", "src/vm/heap/heap.cpp", "src/vm/handles", "include/tiro"],
     [("objects", "src/api/objects.cpp"), ("virtual machine", "src/api/vm.cpp"), ("compiler", "src/api/compiler.cpp"), ("size limits", "src/vm/heap/heap.cpp")],
     runs=[dict(h="capi", time=150, ttime=600, bounds="1 call; 26 kinds of values for every handle"),
           dict(h="capi", **{"def": ["COMPILER", "STEPS=3"]}, tdef=["COMPILER", "STEPS=4"], time=150, ttime=1500, bounds="3 (4) calls on a compiler")])

prop("C25", "Modules are initialized exactly once, after everything they import",
     "An export can be retrieved exactly if the module, and everything it imports directly or not, is loaded, free of cycles and was initialized without a panic; otherwise an error is reported (module not found if something is missing) and a later attempt, after the reason is gone, succeeds; a module is initialized after all modules it imports, never twice, and not when it is not needed; a module name is accepted once; only exported names are visible; all importers share the state of a module.",
     ["inputs", "histories"], "all import graphs of 3 modules (including self imports and cycles), any order of loading and requesting, with and without failing initializers: histories of 3 (thorough: 4) steps, 5 (6) with 2 modules",
     "Failed attempts leave half linked modules behind; tests do not retry, and have few graphs.",
     ["src/vm/modules/registry.cpp", "src/vm/modules/load.cpp", "src/vm/objects/module.cpp", "src/api/vm.cpp"],
     [("initialization order", "src/vm/modules/registry.cpp: resolve_module"), ("exports", "src/vm/objects/module.cpp: find_exported")],
     runs=[dict(h="mods", **{"def": ["ALL", "STEPS=2"]}, tdef=["STEPS=3"], covers=["cycle", "failed", "ok"], time=150, ttime=1500, bounds="3 modules, 512 import graphs, 2 (3) requests"),
           dict(h="mods", **{"def": ["NM=2", "STEPS=5"]}, tdef=["STEPS=6"], time=150, ttime=1500, bounds="2 modules, histories of 5 (6) loads and requests"),
           dict(h="mods", **{"def": ["NM=2", "STEPS=4", "NESTED"]}, tdef=["STEPS=5"], covers=["cycle", "failed", "missing", "nested", "not nested", "ok", "twice", "unknown"], time=150, ttime=1500, bounds="2 modules whose initializers request exports themselves, histories of 4 (5)"),
           dict(h="mods", **{"def": ["STEPS=4"]}, tdef=[], thorough_only=True, time=1500, ttime=1500, bounds="3 modules, histories of 4 loads and requests")])

prop("C29", "The bytecode verifier accepts exactly the well formed modules",
     "A module is accepted exactly if every operand of every instruction is within the bounds of its function or module (registers, parameters, members, jump targets, handlers), members that are used as names, schemas and closures have that kind, counts are limited, code consists of complete, known instructions and ends with one that does not fall through, exception handlers are ordered and refer to instructions, and names, exports and initializers refer to earlier members of the right kind; every valid instruction is decoded completely.",
     ["inputs"], "all 67 instructions (and all unknown opcodes) with fully symbolic operands, register and parameter counts, truncated at any byte; all references between members; 1 or 2 exception handlers with symbolic positions",
     "The interpreter does not check any of this again: one operand that the verifier overlooks is an access out of bounds; the tests have one bad operand for some instructions.",
     ["src/vm/modules/verify.cpp", "src/bytecode/reader.cpp", "src/bytecode/instruction.cpp"],
     [("verifier", "src/vm/modules/verify.cpp"), ("decoder", "src/bytecode/reader.cpp")],
     runs=[dict(h="verify", time=100, ttime=300, bounds="1 symbolic instruction, before and after others"),
           dict(h="verify", **{"def": ["MODULE"]}, tdef=["MODULE"], time=100, ttime=300, bounds="1 symbolic reference (up to 2 keys) between members"),
           dict(h="verify", **{"def": ["HANDLERS=1"]}, tdef=["HANDLERS=1"], time=100, ttime=300, bounds="1 exception handler"),
           dict(h="verify", **{"def": ["HANDLERS=2"]}, tdef=["HANDLERS=3"], time=100, ttime=600, bounds="2 (3) exception handlers")])

prop("C09", "Garbage collection is invisible and keeps everything that is reachable",
     "A garbage collection before any allocation changes neither results, messages, stack traces nor the order of effects of a program or a sequence of API calls, whatever kinds of objects are involved (and also while modules are compiled, loaded and initialized and while a virtual machine is created); objects that are reachable from registers, captured variables, frames, coroutines, containers, modules, tokens or handles of the host are never reclaimed or altered.",
     ["inputs", "schedules"], "programs and API call sequences that use every kind of object; one collection before the k-th allocation, for all k (symbolic), and before every allocation; reclaimed memory is overwritten",
     "When a collection happens depends on sizes of the heap no test reaches; there are thousands of allocation sites at which a single unrooted local is enough.",
     ["src/vm/heap", "src/vm/handles", "src/vm/objects", "src/vm/interpreter.cpp", "src/vm/context.cpp", "src/vm/root_set.cpp"],
     [("collector", "src/vm/heap/collector.cpp, heap.cpp, chunks.cpp"), ("roots", "src/vm/root_set.cpp, src/vm/handles"), ("layouts", "src/vm/objects/layout.hpp, src/vm/object_support")],
     runs=[dict(h="gc", time=400, ttime=600, bounds="12 programs; collection before every single one of their allocations, and before all"),
           dict(h="gc", **{"def": ["API"]}, tdef=["API"], time=150, ttime=300, bounds="5 sequences of API calls"),
           dict(h="gc", **{"def": ["LOAD"]}, tdef=["LOAD"], time=200, ttime=300, bounds="creation of a virtual machine, loading and initializing 2 modules")])

prop("C26", "Native functions and objects: frames, states and finalizers are exact",
     "A resumable native function is called again with its current state until it returns or panics; it sees its own arguments and closure, the locals it has stored, and after invoking a function exactly that function's result; a panic of an invoked function unwinds through it up to the nearest catch_panic. The data of a native object is aligned, keeps its content across collections and belongs to its type; its finalizer runs exactly once, with its data, never while the object is reachable and at the latest when the virtual machine is freed.",
     ["histories"], "all trees of up to 1 (2, thorough: 3) invocations of code, native, resumable, bound and panicking functions with 0 to 3 arguments from resumable functions; with up to 2 actions per call, collections at any call",
     "Frames of native functions are state machines driven by the host; the tests have fixed call sequences.",
     ["src/vm/objects/native.cpp", "src/vm/interpreter.cpp", "src/api/functions.cpp", "src/api/objects.cpp", "src/vm/heap/heap.cpp"],
     [("resumable frames", "src/vm/interpreter.cpp: run_frame(ResumableFrame)"), ("native objects", "src/vm/objects/native.cpp"), ("finalizers", "src/vm/heap/heap.cpp")],
     runs=[dict(h="native", **{"def": ["BUDGET=1"]}, tdef=["BUDGET=1"], covers=["called again", "collected", "finalized", "local", "panicked", "result", "woken", "woken by a panic"], time=100, ttime=100, bounds="1 invocation, all variants of arguments"),
           dict(h="native", **{"def": ["BUDGET=2", "DEEP"]}, tdef=["BUDGET=3"], covers=["called again", "caught", "collected", "finalized", "local", "panicked", "result", "woken", "woken by a panic"], time=150, ttime=2000, bounds="2 (3) nested or consecutive invocations"),
           dict(h="native", **{"def": ["BUDGET=1", "DEEP", "ACTIONS=2"]}, tdef=["BUDGET=1", "DEEP", "ACTIONS=2"], covers=["called again", "collected", "finalized", "result"], time=100, ttime=300, bounds="1 invocation, 2 actions per call")])

prop("C23", "Calls pass arguments and results exactly, or panic with the right trace",
     "Every kind of call (plain, member of a record, method, bound method, catch_panic, from native code) of every kind of value enters exactly the function that is called, with exactly the arguments given, or panics (wrong number of arguments, not a function) without entering anything; its result or panic arrives exactly once at the call or the nearest catch_panic; locals and temporaries of the caller are unchanged, wherever the call stack has to grow; the stack trace of a panic lists exactly the active functions, innermost first.",
     ["inputs", "histories"], "10 kinds of callees, 5 kinds of calls, 0 to 4 arguments, panics at any point, from code and native functions, nested and consecutive; all alignments of the call stack to its limits",
     "Each kind of call lays out the stack differently, and growing moves it while it is in use; tests have shallow stacks and few combinations.",
     ["src/vm/interpreter.cpp", "src/vm/objects/coroutine_stack.cpp", "src/vm/objects/exception.cpp", "src/vm/objects/function.cpp", "src/compiler/bytecode_gen"],
     [("calls", "src/vm/interpreter.cpp: enter_function, return_function, unwind"), ("call stack", "src/vm/objects/coroutine_stack.cpp"), ("stack traces", "src/vm/objects/exception.cpp")],
     runs=[dict(h="calls", **{"def": ["BUDGET=1"]}, tdef=["BUDGET=2"], time=100, ttime=900, bounds="1 (2) calls of all kinds"),
           dict(h="calls", **{"def": ["BUDGET=2", "FEW"]}, tdef=["BUDGET=3", "FEW"], time=100, ttime=900, bounds="2 (3) nested or consecutive calls of 6 kinds"),
           dict(h="calls", **{"def": ["BUDGET=1", "FEW", "DEPTH=8"]}, tdef=["BUDGET=1", "DEPTH=12"], time=100, ttime=600, bounds="1 call at depth 0 to 7 (11), shifted by 0 to 7 values")])

prop("C32", "The compiler rejects exactly the programs that break a static rule",
     "A syntactically correct program is rejected, with errors only at the lines that are wrong, exactly if it declares a name twice in a scope, refers to a name that is not declared in an enclosing scope or before its declaration is complete (functions of a module can be used everywhere, and every function in its own body), assigns to a constant, loop variable, function or something that is not a variable or path, initializes no constant, uses break or continue outside of a loop of the same function, repeats a key of a record, needs the value of a block or branch that has none, or uses a variable that has no value on some path to its use.",
     ["inputs"], "all programs of 1 to 3 (thorough: 4) statements, nested in all ways, from 33 kinds of statements (declarations, assignments, loops, jumps, functions, values of blocks), 10 names; definite assignment: up to 3 (4) statements from 12 kinds",
     "Every rule interacts with scopes, functions and nesting; tests have one example for each rule.",
     ["src/compiler/semantics", "src/compiler/ir_gen", "src/compiler/ast_gen"],
     [("names", "src/compiler/semantics/symbol_resolution.cpp"), ("structure", "src/compiler/semantics/structure_check.cpp"), ("values of blocks", "src/compiler/semantics/type_check.cpp"), ("definite assignment", "src/compiler/ir_gen/func.cpp")],
     runs=[dict(h="static", **{"def": ["BUDGET=1"]}, tdef=["BUDGET=2"], covers=["accepted", "rejected", "undeclared", "inactive", "constant", "jump", "value"], time=60, ttime=900, bounds="1 (2) statements, 10 names"),
           dict(h="static", **{"def": ["BUDGET=2", "NAMES=2"]}, tdef=["NAMES=3"], time=200, ttime=900, bounds="2 statements, 2 (3) names"),
           dict(h="static", **{"def": ["BUDGET=3", "NAMES=1", "CORE"]}, tdef=["BUDGET=4"], time=200, ttime=1500, bounds="3 (4) statements of 12 kinds, 1 name"),
           dict(h="definite", **{"def": ["BUDGET=3"]}, tdef=["BUDGET=4"], time=100, ttime=900, bounds="3 (4) statements around a variable without initial value")])

prop("C27", "Error messages point exactly to what is wrong",
     "Every error message of the compiler names the file and the line and column (1 based, columns in code points) at which the offending name, expression or literal starts (a syntax error: where the text ends that could be read), whatever text, comments, strings and other files surround it; a file that is not valid UTF-8 is rejected with exactly one message that points to its first invalid byte.",
     ["inputs"], "76 kinds of errors in functions, 17 outside of functions; all texts of up to 4 (5) bytes, valid UTF-8 or not, in a comment or string in front of them; all pairs of errors, on one line, on several lines, in two files; all positions in all texts of 5 (7) bytes",
     "Tests compare texts of messages; positions depend on every byte in front of the error and pass through tokens, syntax tree and abstract syntax tree.",
     ["src/compiler/source_map.cpp", "src/compiler/source_db.cpp", "src/compiler/syntax", "src/compiler/ast_gen", "src/compiler/semantics", "src/api/compiler.cpp"],
     [("positions", "src/compiler/source_map.cpp"), ("ranges of nodes", "src/compiler/syntax/build_syntax_tree.cpp, src/compiler/ast_gen/build_ast.cpp"), ("messages", "src/api/compiler.cpp: report")],
     runs=[dict(h="diag", **{"def": ["MAP", "LEN=5"]}, tdef=["MAP", "LEN=7"], covers=["checked"], time=60, ttime=600, bounds="all texts of 5 (7) bytes, all positions"),
           dict(h="diag", **{"def": ["LEN=4"]}, tdef=["LEN=5"], covers=["analysis", "generation", "invalid", "syntax"], time=100, ttime=900, bounds="4 kinds of errors behind a comment or string of 0 to 4 (5) symbolic bytes"),
           dict(h="diag", **{"def": ["PAIRS"]}, tdef=["PAIRS"], covers=["analysis", "generation", "syntax"], time=100, ttime=300, bounds="all pairs of 76 kinds of errors in functions, in 4 layouts"),
           dict(h="diag", **{"def": ["WITH_ITEMS"]}, tdef=["WITH_ITEMS"], covers=["analysis", "syntax"], time=60, ttime=300, bounds="17 kinds of errors outside of functions x 76, in one file or in two")])

prop("C10", "Control flow passes and register allocation keep every value",
     "For every function, splitting critical edges keeps all paths and the order of predecessors and leaves no critical edge; dominator trees and traversal orders are what their definitions say; and the registers chosen for a function always hold the values of its SSA form: "
     "no instruction, phi copy or temporary overwrites a value that is still used, copies between blocks have the effect of simultaneous copies, and all registers are within the declared frame size.",
     ["programs", "inputs"], "all control flow graphs of a function with a body and 2 to 4 further blocks (jumps, branches, returns, loops, irreducible ones), all combinations of one of 8 operations per block on 3 variables, all paths of 6 blocks with symbolic initial values; all parallel copies between up to 6 registers",
     "Tests compile a dozen small functions and compare the listing; lost copies, swaps around loops and interfering live ranges need particular shapes of the control flow graph.",
     ["src/compiler/ir_passes/critical_edges.cpp", "src/compiler/ir_passes/dominators.cpp", "src/compiler/ir_passes/liveness.cpp", "src/compiler/ir/traversal.cpp", "src/compiler/bytecode_gen/alloc_registers.cpp", "src/compiler/bytecode_gen/parallel_copy.cpp", "src/compiler/bytecode_gen/locations.cpp"],
     [("register allocation", "src/compiler/bytecode_gen/alloc_registers.cpp"), ("liveness", "src/compiler/ir_passes/liveness.cpp"), ("parallel copies", "src/compiler/bytecode_gen/parallel_copy.cpp: sequentialize"), ("critical edges", "src/compiler/ir_passes/critical_edges.cpp")],
     runs=[dict(h="passes", **{"def": ["COPIES", "REGS=5"]}, tdef=["REGS=6"], time=60, ttime=900, bounds="all parallel copies between 5 (6) registers in every rotation and direction, symbolic contents"),
           dict(h="passes", **{"def": ["DOMS", "BLOCKS=3"]}, tdef=["BLOCKS=4"], time=60, ttime=900, bounds="all control flow graphs with a body and 3 (4) further blocks"),
           dict(h="passes", **{"def": ["BLOCKS=2", "VARS=3"]}, tdef=["STEPS=8"], time=120, ttime=900, bounds="all control flow graphs with a body and 2 further blocks, 3 variables, 8 operations, paths of 6 (8) blocks"),
           dict(h="passes", **{"def": ["BLOCKS=2", "VARS=3", "OPS=3"]}, tdef=["VARS=4"], time=120, ttime=900, bounds="three operations in the first of 2 further blocks, 3 (4) variables"),
          dict(h="passes", **{"def": ["BLOCKS=3", "VARS=3", "FEWOPS"]}, thorough_only=True, time=900, ttime=1500, bounds="3 further blocks, 3 operations")],
     observe=["the functions of the compiler"])

HOOKS = dict(guard="TIRO_VERIFY", enable="lib/build.py compiles tiro with -DTIRO_VERIFY; rt/rt_common.cpp and the harnesses define tiro_verify_collect()", source_commits=["1c7a4c592ad39dcf7abe755810b662e4366883e2"])
