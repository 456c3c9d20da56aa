MC = "every point of the stated space is executed on the real compiler and the real generated program, and compared with an independent executable model"
prop("A01", "Shell output evaluates every C expression as C does",
     "A shell script produced by pnut evaluates every supported C integer and pointer expression to the value C prescribes, "
     "with the same side effects on variables, memory and called functions, in whatever statement the expression stands. "
     "An expression it cannot translate is rejected at compile time, never silently changed.",
     ["programs", "inputs", "configurations"],
     "every expression tree over the supported operators and leaf kinds, every syntactic context, every initial store",
     "Tests sample a few hand-written expressions; parenthesisation, hoisting of calls and nested arithmetic expansions depend on the combination of operators, of which tests reach a handful.",
     ["sh.c"],
     [("parenthesisation", "sh.c: wrap_if_needed, is_associative_operator"), ("side-effect hoisting", "sh.c: handle_side_effects_go, handle_fun_call_side_effect"),
      ("value translation", "sh.c: comp_rvalue_go, comp_lvalue, comp_lvalue_address")],
     ["output of the generated script"],
     "bounded exhaustive enumeration of expression trees, explicit-state reference model, every model trace replayed on the generated script",
     "All trees with at most 2 operators over the full alphabet (3, 4 over reduced ones) x contexts x stores x shells; " + MC + ". Known findings are excluded by shape and replayed individually.")
prop("A02", "Shell output follows C control flow on every path",
     "A shell script produced by pnut executes the statements of a function in the order C prescribes on every path through ifs, loops, switches, "
     "break, continue and return, with the right return value and without disturbing its caller's locals. "
     "Control flow it does not support is rejected at compile time.",
     ["programs", "inputs", "configurations"],
     "every nesting of control statements and every sequence of branch decisions",
     "The generated control flow depends on tail position, enclosing switch or loop and end-of-loop actions in combination; tests contain a few dozen nestings and one decision sequence each.",
     ["sh.c", "env.c"],
     [("loops and end-of-loop actions", "sh.c: comp_loop, comp_continue, replay_glo_decls"), ("switch to case", "sh.c: comp_switch, make_switch_pattern"),
      ("tail position returns", "sh.c: comp_return, comp_body")],
     ["trace of executed actions and return value"],
     "bounded exhaustive enumeration of statement trees x all branch-decision sequences on an explicit-state C machine, replayed on the generated script",
     "All statement lists up to size 4 (5 for loop-only and switch-only alphabets; one more in thorough) x all decision strings to depth 5 (7); " + MC + ".")
prop("A03", "Shell output keeps calls, locals and recursion separate",
     "In a shell script produced by pnut, every call passes its arguments by value, every function has its own parameters and locals that no callee, "
     "at any recursion depth, disturbs, and each call's result reaches the place that uses it.",
     ["programs", "inputs", "histories"],
     "every shape of caller and callee, every arrangement of calls inside expressions, every call history those produce",
     "Shell has one global namespace: locals are saved and restored by generated code whose shape depends on parameter counts, body form and call position. Tests exercise a few shapes.",
     ["sh.c"],
     [("saving and restoring locals", "sh.c: let_params, restore_local_variables, save_local_variables"), ("results", "sh.c: comp_fun_call_code, runtime let/endlet"),
      ("synthetic call results", "sh.c: fresh_ident, preallocated_fresh_idents")],
     ["printed results, globals and memory after each call"],
     "bounded exhaustive enumeration of caller/callee shapes and call expressions, interpreted by an explicit-state reference machine and replayed on the generated script",
     "All combinations of a library of callees with callers (parameters 0-3, locals 0-2, calls in every operand position, bounded recursion) x inputs x shells; " + MC + ".")
prop("A18", "pnut compiled by pnut is the same compiler",
     "Whichever compiler built pnut (a C compiler at any optimisation level, pnut's native backends, or pnut-sh run by any shell), the resulting pnut accepts the same programs and translates them to the same bytes; in particular compiling pnut.c with the result "
     "gives the same compiler again.",
     ["programs", "configurations"],
     "every text at token edit distance one from seed programs that cover the language, pnut.c under every build option; every pair of building compiler and backend",
     "Bootstrapping is what pnut exists for; a miscompilation of pnut by pnut shows only for the inputs that reach the miscompiled code.",
     ["pnut.c", "sh.c", "exe.c", "x86.c", "elf.c", "sh-runtime.c", "env.c"],
     [("shell backend", "sh.c: codegen_glo_decl"), ("native backends", "exe.c: codegen_glo_decl, codegen_begin, codegen_end"), ("compiler", "pnut.c: main")],
     ["status and output of the compilers"],
     "exhaustive enumeration of the texts at edit distance one from the seed programs, each given to every stage of the bootstrap; the stages must agree",
     "Seven seed programs x deletion, duplication, exchange, truncation, replacement (thorough: insertion) at every token with an alphabet of tokens, and pnut.c itself; stages run as scripts get every 13th text in the quick check, all in the thorough one; "
     "texts that are not C and on which the C-built compilers have undefined behaviour do not count; " + MC + ".")
prop("A19", "Build options change how pnut generates code, not what the code does",
     "Every combination of the options pnut is built with (calling convention, constant parameters, runtime variants, long lines, safe mode, C code in the output, ...) gives scripts that behave the same; options of the compiler itself, the path of the source "
     "and the way the output is directed do not change the generated script or executable at all.",
     ["configurations", "programs"],
     "every set of up to two (three, and all but two) of twelve options, with a suite of several hundred programs cut out of the other enumerations",
     "The options interact in the code generator and in the runtime library; tests use a few fixed combinations.",
     ["sh.c", "sh-runtime.c", "pnut.c"],
     [("options", "pnut.c: options at the top of the file"), ("code generation", "sh.c: comp_glo_fun_decl, let_params, save_local_vars"), ("runtime", "sh-runtime.c")],
     ["output of the compiled program; bytes of the script or executable"],
     "exhaustive enumeration of option sets to a size, the generator built and its output run for each of them",
     "dash (thorough: six shells for sets of at most one option and their complements); SUPPORT_ADDRESS_OF_OP does not build and is left out; " + MC + ".")

prop("A21", "Objects start with the values of their initializers",
     "In a generated script every global variable and array, and every initialized local, holds at its first use exactly the value its initializer gives it (numbers, characters, strings, lists, "
     "partly initialized arrays), and zero where the script promises zero initialization, whatever is declared before, between and after it; assigning one object changes no other.",
     ["programs", "configurations"],
     "every sequence of up to three declarations over twenty-five kinds of declaration with and without initializer, functions and uses in between",
     "Initialization is generated lazily and in groups (runs of declarations are merged, string pool shared, RT_NO_INIT_GLOBALS elides it), so the effect of one declaration depends on its neighbours; tests use single declarations.",
     ["sh.c", "sh-runtime.c"],
     [("globals", "sh.c: comp_glo_var_decl, initialize_function_variables"), ("runtime", "sh-runtime.c: defarr, initialize, defstr")],
     ["values printed by the generated script"],
     "bounded exhaustive enumeration of sequences of declarations with an explicit model of C's initialization, each replayed on the generated script",
     "All sequences of one and two kinds on six shells and all build variants, of three kinds on one; " + MC + ".")
prop("A22", "The script brings along the runtime it needs, and no feature disturbs another",
     "A generated script is complete: whatever combination of library functions and language features the program uses, in whatever order and from whatever form of main, the script contains all runtime functions "
     "they need, defined before they are used; each feature works as when used alone; argc and argv are the arguments byte for byte, and the exit status is what main returns or exit is given.",
     ["programs", "inputs", "configurations"],
     "every sequence of up to three (thorough: with repetitions and all orders) of twenty-eight features; every list of up to two arguments over an alphabet of awkward arguments, up to fourteen arguments",
     "Runtime functions are emitted on demand through a dependency graph and share tables; a missing dependency shows only when no other feature of the program pulls it in.",
     ["sh-runtime.c", "sh.c"],
     [("dependencies", "sh-runtime.c: DEFINE_RUNTIME_FUN, DEPENDS_ON, produce_runtime"), ("main", "sh.c: epilogue")],
     ["output, exit status and files written by the generated script"],
     "bounded exhaustive enumeration of feature sequences, forms of main and argument lists, the expected behaviour composed from the features' own; each replayed on the generated script",
     "Six shells, four to five builds; " + MC + ".")

prop("A14", "Native code evaluates every C expression with C's types and values",
     "An executable produced by a native backend (i386, x86-64) gives every integer expression the value C prescribes for the types of its operands: integer promotions, usual arithmetic "
     "conversions, signed and unsigned division, shifts and comparisons, truncation and extension on assignment, cast, argument and return; sizeof agrees with the type; "
     "side effects reach the designated object and no other, wherever the operands live.",
     ["programs", "inputs", "configurations"],
     "every operator over every combination of operand types, operand locations and boundary values, and every nesting of two operators",
     "The type of an intermediate result is invisible except through the operator that consumes it; tests check a handful of operators on ints.",
     ["exe.c", "x86.c", "pnut.c"],
     [("code generation", "exe.c: codegen_rvalue, codegen_binop, codegen_lvalue"), ("types", "exe.c: value_type"), ("instructions", "x86.c")],
     ["values printed by the executable"],
     "bounded exhaustive enumeration of typed expression trees x operand locations x boundary values, explicit model of C's type rules, every state replayed on the generated executable",
     "All one-operator trees over 6 (8) types in 9 operand locations, all two-operator trees over 3-4 types, three-operator trees in thorough; " + MC + ". Value of a plain assignment to char is a known finding.")
prop("A15", "Native code follows C control flow on every path",
     "An executable produced by a native backend runs the statements of a function in the order C prescribes on every path through if, while, do, for, switch (with fallthrough and "
     "nested case labels), goto, break, continue and return, with block-scoped locals keeping their own storage on every one of these paths.",
     ["programs", "inputs", "configurations"],
     "every nesting of control statements, jumps and declarations, and every sequence of branch decisions",
     "Stack adjustment at each jump depends on the locals in scope at both ends; tests contain a few dozen nestings and one decision sequence each.",
     ["exe.c", "env.c"],
     [("statements", "exe.c: codegen_statement"), ("switch", "exe.c: codegen_switch_statement"), ("scopes", "env.c: cgc_* lookups, exe.c: grow_fs")],
     ["trace of executed actions and return value"],
     "bounded exhaustive enumeration of statement trees x all branch-decision sequences on an explicit-state C machine, replayed on the generated executable",
     "All statement lists up to size 4-5 over alphabets with loops, switches, gotos, nested labels and declarations x all decision strings; " + MC + ".")
prop("A04", "String and character literals hold exactly the bytes C says",
     "Every string or character literal of the source program, whatever bytes, escapes, lengths, adjacent-literal concatenations and duplicates it has, denotes in the generated program "
     "exactly the bytes C prescribes, at any place a literal may stand (expression, initializer, case label, argument), and distinct contents stay distinct objects.",
     ["programs", "inputs", "configurations"],
     "every byte value in every spelling (raw, simple, octal, hexadecimal escape), alone, in every ordered pair of spellings from the representative classes, every length near the runtime's limits",
     "Literals pass through pnut's lexer, its string pool, shell quoting, and the runtime's own unescaping; each stage has its own special characters, and tests use mostly letters.",
     ["pnut.c", "sh.c", "sh-runtime.c", "exe.c"],
     [("lexing", "pnut.c: get_string, get_ch escapes"), ("quoting", "sh.c: print_escaped_string, escape_text"), ("runtime", "sh-runtime.c: unpack_escaped_string, defstr, __c2i tables")],
     ["bytes of the literal read through pointers, and printed"],
     "bounded exhaustive enumeration of literal spellings against an explicit model of C's translation phases, each replayed on the generated program",
     "All one-element literals over every spelling of every byte, all ordered pairs over class representatives, all triples over the special ones; 6 shells, 2 native targets; " + MC + ".")
prop("A08", "printf in shell output formats as C prescribes",
     "A printf call in the source program writes, in the generated shell script, exactly the bytes C's printf writes for that format and those arguments, for every supported conversion, flag, width and "
     "precision, whether the format is known at compile time or only at run time, evaluating each argument exactly once.",
     ["programs", "inputs", "configurations"],
     "every format built from the supported conversions with every combination of flags, width and precision, alone and in every pair, over boundary arguments",
     "pnut rewrites formats at compile time into shell printf, escapes, or calls of the runtime, by rules that depend on neighbours in the format; tests use a dozen formats.",
     ["sh.c", "sh-runtime.c"],
     [("compile-time formats", "sh.c: handle_printf_call, printf_format"), ("run-time formats", "sh-runtime.c: printf_fun runtime")],
     ["output of the generated script"],
     "bounded exhaustive enumeration of formats and arguments against an explicit model of C's printf, each replayed on the generated script",
     "All single conversions x flags x widths x precisions x arguments, all pairs and triples over reduced alphabets; " + MC + ". Defects of the run-time formatter, whose text the stable tests pin, are known findings.")
prop("A05", "Programs read and write byte streams exactly",
     "A program produced by pnut that reads its standard input (getchar, read) sees exactly the bytes of the input, in order, then end of file for ever; what it writes (putchar, write) appears byte for byte, "
     "whatever the bytes, the lengths of lines, and a last line without newline.",
     ["inputs", "configurations"],
     "every input over an alphabet of the characters that shells treat specially, every line length around the runtime's buffer sizes, every ordered pair of ASCII characters in a stream",
     "The shell runtime reads line by line and cuts lines with pattern operators in chunks of 16 and 256; errors need special characters or lengths in particular places.",
     ["sh-runtime.c", "exe.c"],
     [("getchar", "sh-runtime.c: getchar, extract_line_head, extract_first_char"), ("read", "sh-runtime.c: refill_buffer, unpack_line, read_byte"), ("native", "exe.c: rt_fgetc, rt_putchar")],
     ["bytes read and written by the generated program"],
     "bounded exhaustive enumeration of input streams against a stream model, each replayed on the generated program",
     "All strings to length 3 over 16 characters, to length 5 over 3, all line lengths to 300 (1100), pairs of boundary lengths, special characters at chunk boundaries; " + MC + ".")
prop("A06", "File operations follow the model of files and descriptors",
     "In programs produced by pnut, every sequence of open, fopen, read, fgetc, write, close and fclose returns the values and leaves the file contents the C library prescribes: lowest free descriptor, "
     "independent positions, short reads at the end, truncation and appending, and it does not disturb the rest of memory.",
     ["histories", "inputs", "configurations"],
     "every history of operations to a depth over up to two files and three descriptors, every pair of line lengths around the buffer sizes",
     "State (buffers, cursors, descriptor table) accumulates over a history; tests run a handful of copy loops.",
     ["sh-runtime.c", "exe.c", "x86.c"],
     [("descriptors", "sh-runtime.c: open, close"), ("reading", "sh-runtime.c: refill_buffer, read_byte, read"), ("writing", "sh-runtime.c: write"), ("native", "exe.c: rt_fopen, os_open, os_read")],
     ["values returned and contents read back"],
     "explicit-state exploration of all operation histories on a model file system, each history replayed on the generated program",
     "All histories to depth 4-6 (5-8 in thorough) over several operation alphabets; " + MC + ".")
prop("A07", "Heap objects keep their contents under every history of allocation, pointer moves and frees",
     "In programs produced by pnut, live heap objects, arrays and linked nodes are disjoint and keep exactly the values stored in them under every sequence of malloc, free, stores through any valid pointer, "
     "pointer increments, copies and comparisons.",
     ["histories", "configurations"],
     "every history of heap and pointer operations to a depth",
     "Aliasing bugs need a specific order of allocation, free and pointer arithmetic; tests use a few fixed orders.",
     ["sh-runtime.c", "exe.c", "sh.c"],
     [("allocation", "sh-runtime.c: malloc, free; exe.c: rt_malloc"), ("pointers", "sh.c: comp_lvalue, exe.c: codegen_binop pointer scaling"), ("fields", "exe.c: member access; sh.c: struct members")],
     ["contents of every reachable object after the history"],
     "explicit-state exploration of all histories on a model heap, each history replayed on the generated program",
     "All histories to depth 5 (6) of array and pointer operations and of linked node operations; " + MC + ".")
prop("A16", "Native objects have C's sizes, layout, initial values and copies",
     "In an executable produced by a native backend, every object of a type built from the integer types, pointers, arrays, structs, unions and anonymous members has the size, alignment and member offsets of its "
     "type; its elements and members keep exactly the values stored in them without disturbing neighbours, in globals, locals, statics, heap and by-value parameters; initializers (also partial ones) set exactly the "
     "members they name and zero the rest; struct assignment copies every member.",
     ["programs", "inputs", "configurations"],
     "every type up to two levels of nesting over the scalar types, in every storage class, with every partial initializer",
     "Each layout decision (padding, stride, offset of a nested member, width of a store) is right or wrong per combination of types; tests contain a few structs, mostly of ints.",
     ["exe.c", "pnut.c"],
     [("sizes and offsets", "exe.c: struct_size, struct_member_offset_go, type_width"), ("initializers", "exe.c: codegen_initializer"), ("access", "exe.c: codegen_lvalue, mov_mem8_reg ..."), ("copies", "exe.c: copy_obj")],
     ["values of all members after stores, copies and calls; sizeof and address differences"],
     "bounded exhaustive enumeration of object types x storage classes x initializer shapes against an explicit layout model, each replayed on the generated executable",
     "All scalars, arrays, structs and unions to two levels over representative members; all single and pairwise truncations of the initializer braces; safe-mode builds in thorough; " + MC + ".")
prop("A17", "Native calls pass arguments, results and functions as C does",
     "In an executable produced by a native backend, every call, direct or through a function pointer held in any kind of object or expression, runs the designated function with its own parameters and locals, converted "
     "to the parameter types, and its result, converted to the result type, reaches the place that uses it; at every recursion depth; inner declarations hide outer ones exactly in their scope; statics persist.",
     ["programs", "inputs", "histories"],
     "every caller and callee shape of the alphabet, every place and spelling of a function pointer, every nesting of declarations, every pair of argument and parameter types",
     "Calls, scopes and conversions interact with the position of the call, the locals in scope and the types on both sides; tests sample a few of each.",
     ["exe.c", "env.c", "x86.c"],
     [("calls", "exe.c: codegen_call, codegen_params"), ("scopes", "env.c: cgc_add_local, cgc_lookup_var"), ("function pointers", "exe.c: codegen_rvalue, value_type")],
     ["printed results, globals and memory after each call"],
     "bounded exhaustive enumeration of call shapes, function pointer uses, scope trees and type tuples against an explicit-state reference machine, each replayed on the generated executable",
     "All call programs of A03; all places x sources x call forms of function pointers; all kinds of declaration in trees of four scopes in five loop forms; all triples of parameter, argument and result type; " + MC + ".")
prop("A10", "Conditional groups select exactly the text C selects",
     "Of a source with #if, #ifdef, #ifndef, #elif, #else and #endif directives, arbitrarily nested to 20 levels, exactly the groups whose conditions hold are compiled, and only directives of selected groups act "
     "(#define, #undef, #error, #include); conditions of groups that are not selected are not evaluated. Directives that do not match (#else, #elif or #endif without #if, #if without #endif) are rejected.",
     ["programs", "configurations"],
     "every conditional structure of a grammar to a depth, with every assignment of conditions, and every spelling of the directives",
     "Selection is a stack of states; errors need a particular sequence of branches taken and not taken inside skipped groups.",
     ["pnut.c"],
     [("mask stack", "pnut.c: push_if_macro_mask, pop_if_macro_mask, handle_preprocessor_directive"), ("conditions", "pnut.c: evaluate_if_condition, eval_constant")],
     ["text selected, as seen in the output of the compiled program"],
     "bounded exhaustive enumeration of conditional structures against an explicit model of conditional inclusion, each replayed through pnut-sh and a native backend",
     "All structures to depth 1 (2) with all branch conditions, all condition expressions of an alphabet, nesting to the limit, spellings of the directives; " + MC + ".")
prop("A12", "Constant expressions have the value C gives them",
     "Expressions in #if conditions, enumerators, array sizes, case labels and initializers of globals evaluate to the value that C gives them, or are rejected.",
     ["programs", "configurations"],
     "every expression to a size over all operators and boundary literals in every context that needs a constant",
     "eval_constant is a second evaluator of expressions beside the code generators; tests use it with a handful of expressions.",
     ["pnut.c", "sh.c", "exe.c"],
     [("evaluator", "pnut.c: eval_constant"), ("enumerators", "pnut.c: parse_enum, new_enum_value"), ("contexts", "sh.c: comp_glo_var_decl, comp_switch; exe.c: codegen_glo_var_decl, codegen_switch")],
     ["value seen in the output of the compiled program"],
     "bounded exhaustive enumeration of constant expressions against an explicit evaluator, each replayed in every context",
     "All expressions of one and two operators over boundary values, all literal spellings, in every context; " + MC + ".")
prop("A13", "Source text is divided into the tokens C divides it into",
     "pnut divides every source text into the tokens C prescribes: longest match for operators, whitespace, comments and line continuations anywhere, every spelling of integer, character and string literals, "
     "identifiers and keywords.",
     ["inputs"],
     "every string of characters to a length over the alphabet of C's punctuation, with literals, comments and line continuations at every position",
     "The tokenizer is a character automaton with lookahead and several modes; errors need particular adjacent characters.",
     ["pnut.c"],
     [("tokens", "pnut.c: get_tok, get_ch, accum_digit, get_string_char"), ("line continuations", "pnut.c: get_ch")],
     ["sequence of tokens printed by the tokenizer build"],
     "bounded exhaustive enumeration of texts against an explicit tokenizer automaton, each replayed on the tokenizer of the current tree",
     "All strings to length 4-6 over alphabets of punctuation, digits and quotes; a line continuation at every position; " + MC + ".")
prop("A09", "Identifiers mean what their declarations say, whatever they are called",
     "A program behaves the same whatever its types, tags, enumerators, functions, variables, parameters, struct members and labels are called: names used by the shells, by the runtime library of the scripts or by the code pnut generates "
     "cause no interference, the same name in different name spaces denotes different things, and long names are told apart.",
     ["programs"],
     "every name of a list (special variables and commands of the shells, every identifier in the runtime, keywords' neighbours, generated names, 60 and 300 character names) in every role; every set of up to five roles sharing one name; every pair of names in a pair of roles",
     "Names are mapped to shell variables without a symbol table in between; a collision shows only for a particular name in a particular role on a particular shell.",
     ["sh.c", "pnut.c", "sh-runtime.c"],
     [("variables", "sh.c: env_var_with_prefix, global_var, struct_member_var, struct_sizeof_var, function_name"), ("checks", "sh.c: assert_var_decl_is_safe"), ("internal names", "sh.c: format_special_var; sh-runtime.c"), ("symbol table", "pnut.c: begin_ident, accum_ident_char, end_ident; env.c")],
     ["output of the compiled program"],
     "bounded exhaustive enumeration of assignments of names to the roles of a program that exercises every role, each replayed on the implementation; the expected output does not depend on the names",
     "Single names on six shells and x86_64, shared names and pairs of names on dash and x86_64 (thorough: i386 and all shells); names the shell backend rejects (leading underscore, x_, IFS, argv_), names of library functions and redeclared type names are left out; " + MC + ". Names of special variables known to fail as local variables are listed in known-names.txt.")

prop("A11", "Macros expand to the tokens C prescribes",
     "Every use of object-like and function-like macros in a source compiled by pnut produces the token sequence C prescribes: arguments (also empty ones, and calls inside arguments), nested and mutually recursive macros, "
     "rescanning, # and ## operators, redefinition and #undef, macros named like keywords; wherever white space, newlines and comments stand in the call.",
     ["programs", "configurations"],
     "every set of up to three mutually referring macros with bodies from an alphabet, each with every use of an alphabet",
     "The expander is a stack machine interleaved with the tokenizer; errors need a particular combination of nesting, recursion, empty arguments or operators.",
     ["pnut.c"],
     [("expansion", "pnut.c: attempt_macro_expansion, macro_is_already_expanding, get_tok"), ("arguments", "pnut.c: get_macro_args_toks, macro_parse_argument"), ("operators", "pnut.c: paste_tokens, stringify"), ("definitions", "pnut.c: handle_define, read_macro_tokens")],
     ["sequence of tokens printed by the tokenizer build; output of compiled programs"],
     "bounded exhaustive enumeration of macro definitions and uses against an explicit hide-set model of macro expansion (cross-checked with gcc -E), each replayed on the tokenizer of the current tree",
     "All definition sets of nine families x all uses; nested macro programs with every gap position; stringification only of single names, pasting only to valid tokens; " + MC + ". Uses known to fail are listed one by one in known-macros.txt.")

prop("A20", "Programs that are accepted are translated correctly",
     "pnut never accepts a program it cannot translate: of all texts near valid programs, those that pnut translates without a message and that are C programs with defined behaviour do what C says; everything else is rejected.",
     ["programs"],
     "every text at a token edit distance of one (deletion, insertion, replacement, transposition) from programs that cover the language",
     "A compiler for a subset must recognize what lies outside of it; the untested neighbourhood of every construct is where a construct is half supported.",
     ["pnut.c", "sh.c", "exe.c"],
     [("parser", "pnut.c: parse_*"), ("unsupported constructs", "sh.c: fatal_error calls in comp_*, handle_side_effects; exe.c: fatal_error calls in codegen_*")],
     ["output and exit status of the compiled program"],
     "bounded exhaustive enumeration of the token edit neighbourhood of seed programs; every accepted text is run and compared with the behaviour C defines, computed by gcc and clang with sanitizers (programs without defined behaviour are left out)",
     "All single edits of seven programs with some 100 tokens as alphabet (quick: every 12th); expected results in reference.txt, missing ones are computed; functions used as values in shell programs, stringification of more than a name and the type of sizeof are left out; " + MC + ".")
prop("A23", "Every source text is either translated or rejected with a message",
     "For every source text, valid or not, pnut ends: with status 0, or with a failure status and a message. It never crashes, hangs, or reads or writes outside its tables, however long, deep or truncated the text.",
     ["inputs"],
     "every string of tokens to a length in every syntactic context, every byte and token edit of programs that cover the language, every repetition of every construct around the sizes of the tables",
     "Out of bounds accesses in the compiler need a text that ends, nests or overflows at a particular place; they may silently produce wrong code.",
     ["pnut.c", "sh.c", "exe.c", "env.c"],
     [("tables", "pnut.c: heap, string_pool, if_macro_stack, macro_stack, cgc_locals; sh.c: text_pool, string_tree_lookup"), ("errors", "pnut.c: fatal_error, syntax_error")],
     ["exit status, messages, sanitizer reports"],
     "bounded exhaustive enumeration of source texts run on builds of pnut with bounds, null and address checks",
     "Strings of up to two tokens (three) from 85 in 20 contexts; all byte edits and token edits of the seeds; 70 constructs repeated 0 to 2000 (100000) times (quick: every 5th to 31st text); " + MC + ".")
prop("A24", "A source split over files means what the joined source means",
     "#include \"f\" and #include <f> (with -I) insert the file's text: whatever the boundaries, line endings and nesting of the files and the spelling of the directive, in files found relative to the including file or in the -I directory; "
     "__FILE__ and __LINE__ name the place; #include_shell inserts a file verbatim in the generated script.",
     ["programs", "configurations"],
     "every split of a source into two and three files, every directory layout, every sequence of repeated inclusions",
     "The end of a file can fall in any state of the tokenizer, which reads one character ahead across files.",
     ["pnut.c", "sh.c"],
     [("file stack", "pnut.c: include_file, get_ch, file_parent_directory, fopen_source_file"), ("directives", "pnut.c: handle_include; sh.c: handle_shell_include"), ("options", "pnut.c: main, -I")],
     ["sequence of tokens printed by the tokenizer build; generated program"],
     "bounded exhaustive enumeration of splits, layouts and inclusion sequences, each replayed on the tokenizer (reference: gcc -E) and on the compilers, whose output must not depend on the split",
     "All line ranges of five texts x endings x forms of the directive; all three file splits in ten layouts; all sequences of up to four (five) lines of includes and definitions; all search forms; all splits of whole programs into two and three files; " + MC + ".")
prop("A25", "Integer literals have the value and the type C gives them",
     "Every integer literal (decimal, octal, hexadecimal, with any suffix, up to 64 bits) denotes, wherever it stands, the value C gives it and the type C gives it (the first of int, unsigned int, long long, unsigned long long that its spelling allows and that holds it); "
     "whatever compiler pnut was built with, also when it runs as a shell script.",
     ["programs", "configurations"],
     "every spelling of every value next to a power of two or of ten, every literal of up to 4 (5) characters, every suffix, every kind of place, every compiler of the bootstrap",
     "pnut accumulates 64 bit literals in pairs of 32 bit ints with 16 bit carries; errors show only for values at certain boundaries and depend on the width of the host's ints. Tests contain a handful of large literals.",
     ["pnut.c", "exe.c", "sh.c"],
     [("accumulation", "pnut.c: accum_digit, u64_mul_u32, u64_add_u32, u64_to_obj"), ("suffixes and types", "pnut.c: get_tok, widen_integer_type; exe.c: value_type"), ("code", "x86.c: mov_reg_large_imm; sh.c: wrap_integer")],
     ["output of the generated program"],
     "bounded exhaustive enumeration of spellings x places x building compilers, each executed and compared with a model of C's rules",
     "All values 2^k+d (|d| <= 3, thorough 10) and 10^k+d in eight spellings and eighteen suffixes, all literals of up to four (five) characters, in eighteen kinds of place; nine to fourteen compilers (built by gcc, by pnut for both native targets, run as a script); " + MC + ".")
prop("A26", "Native pointer expressions follow C's pointer arithmetic",
     "In an executable produced by a native backend, every expression over pointers into an array (sums with integers in both orders, differences, comparisons, subscripts in both orders, dereferences, members, "
     "increments, compound assignments, conversions to and from integers) designates the element and has the value C prescribes, whatever the size of the elements.",
     ["programs", "inputs", "configurations"],
     "every small expression over pointers and integers, for every kind of element and every position in the array",
     "Scaling depends on the sizes of the elements (powers of two or not), on the order of the operands and on the sign of differences; tests use arrays of ints.",
     ["exe.c", "x86.c"],
     [("scaling", "exe.c: mul_for_pointer_arith, div_for_pointer_arith"), ("operators", "exe.c: codegen_binop"), ("objects", "exe.c: codegen_lvalue, value_type")],
     ["values printed by the executable"],
     "bounded exhaustive enumeration of pointer expressions x kinds of element x positions against an explicit model (a pointer is an index into its array), each replayed on the generated executable",
     "All expressions of up to two operators (three in thorough) for twelve kinds of element on both targets; steps that leave the array are not in the space; " + MC + ".")
prop("A27", "Options on the command line do what they say, in every order and spelling",
     "Every sequence of options accepted by pnut (-D, -U, -I, -o, --help and the file, in all spellings and orders) has the effect of that sequence: definitions hold with their values, undefinitions remove them, output goes where -o says, "
     "malformed or incomplete options are rejected with a message and a failure status, and pnut never crashes.",
     ["inputs", "configurations"],
     "every sequence of up to three options in every spelling, before and after the file",
     "Options change the state the compiler starts with; tests pass a fixed set of them.",
     ["pnut.c"],
     [("options", "pnut.c: main, handle_macro_D, handle_macro_U"), ("definitions", "pnut.c: init_builtin_int_macro, init_builtin_string_macro, init_builtin_empty_macro")],
     ["exit status, messages, output file, behaviour of the compiled program"],
     "bounded exhaustive enumeration of option sequences against an explicit model of the options, each replayed on the compilers",
     "All sequences of up to two (three) options from an alphabet of about forty spellings, with file first, last and in between, shell and native compiler; several source files are left out; " + MC + ".")
prop("A28", "Programs mean the same at every size, whatever grows",
     "A program that is the same but for one size (bytes of globals, frames and structs, numbers of parameters, locals, functions, cases, literals, enumerators, members, initializers and heap objects, distance of jumps, depth of expressions, blocks, loops and recursion, length of names, literals and gaps) "
     "behaves the same at each of them, in scripts and executables; an executable receives argc and argv byte for byte (argv[argc] is null) and exits with the low eight bits of what main returns or exit is given.",
     ["programs", "inputs", "configurations"],
     "every size to a bound and around every power of two and ten, in each of twenty-seven dimensions; every list of up to two arguments over awkward ones, up to forty arguments, every exit status",
     "Encodings, tables, numbered names and positional parameters change form at particular sizes; tests have one size each.",
     ["exe.c", "x86.c", "elf.c", "sh.c", "sh-runtime.c", "pnut.c"],
     [("encodings", "x86.c: mov_memory, add_reg_imm, jump_rel; exe.c: emit_i32_le, grow_fs"), ("sections", "elf.c; exe.c: codegen_end"), ("start of programs", "x86.c: setup_proc_args"), ("numbered names", "sh.c: fresh_ident, format_special_var, let_params")],
     ["output and exit status of the generated program"],
     "bounded exhaustive enumeration of sizes in every dimension with a closed form of the expected output, each replayed on the generated program",
     "Sizes to 30-300 all, to 2^20 around powers of two and ten (quick), both native targets and six shells; below the limits of pnut's tables; " + MC + ".")
prop("A29", "Scripts mean the same however they are started",
     "A generated script has the output, exit status and effects on files that the C program defines, whatever variables it inherits (with the names the script itself uses, names that shells give a meaning, locales), whatever directory and path it is started from, "
     "from a file or from standard input, with whatever options of the shell.",
     ["configurations", "histories"],
     "every environment that assigns one name the script uses or one special variable, all of them at once, every way of starting, for every library function and feature",
     "Tests start scripts in one environment; a variable that is read before it is assigned is only seen when something else has assigned it.",
     ["sh.c", "sh-runtime.c"],
     [("prologue", "sh.c: codegen_end, prologue"), ("state of the runtime", "sh-runtime.c: DEFINE_RUNTIME_FUN(...)"), ("string literals", "sh.c: comp_defstr")],
     ["output, exit status, standard error, files"],
     "bounded exhaustive enumeration of environments x programs against the model of A22, each executed on the generated script",
     "Environments of one assigned name (five values in dash, one elsewhere in quick), all names at once, forty special variables, locales, seven options, six ways to start; variables with which a shell stops by itself are left out; inheriting __str_N and arrays initialized by strings are known findings; " + MC + ".")
prop("A30", "Declarations give objects the types C gives them",
     "In native code, a declaration (every spelling of the base types, qualifiers anywhere, typedef names, tags, and pointers, arrays and functions combined in any order with parentheses) gives the declared object the type C gives it: "
     "its size, the step of pointers to it, the signedness of what is read, the meaning of calls through it, wherever the declaration stands (global, local, parameter, member, typedef, result, cast, sizeof, alone or after others in a list).",
     ["programs"],
     "every declarator to depth three over every base type in every place",
     "Declarators are read inside out and types are shared or copied; tests use the ordinary combinations.",
     ["pnut.c", "exe.c"],
     [("declarators", "pnut.c: parse_declarator, parse_declaration_specifiers, parse_type_specifier"), ("widths", "exe.c: type_width, ref_type_width"), ("conversion", "exe.c: convert, value_type")],
     ["values printed by the executable"],
     "bounded exhaustive enumeration of declarations against an explicit model of C types, each probed in the generated executable",
     "All declarators to depth three over all spellings and tags, in twelve kinds of place, both targets; long has the size of int, as pnut documents; " + MC + ".")
prop("A31", "Shell memory: pointers to ints, structs and pointers follow C",
     "In a generated script, every expression over arrays, arrays of pointers, structs, their members and addresses (*, &, [], ->, ., +, -, ++, --, comparisons, assignments, calls that return pointers) designates the object and has the value C prescribes, "
     "with every variable in every kind of place (global, local, parameter, member) and in every context.",
     ["programs", "inputs", "configurations"],
     "every expression of up to two (three) operators over a heap of an array, an array of pointers and a ring of structs, from every place and context",
     "Scripts have no memory: addresses are numbers that name variables, and each form of access is translated by a different rule; tests use one form at a time.",
     ["sh.c", "sh-runtime.c"],
     [("objects", "sh.c: comp_lvalue, comp_lvalue_address, comp_array_lvalue"), ("values", "sh.c: comp_rvalue_go, handle_side_effects_go"), ("members", "sh.c: struct_member_var, handle_struct")],
     ["values and state of the heap printed by the script"],
     "bounded exhaustive enumeration of expressions against an explicit model of the heap, each replayed on the generated script",
     "All expressions to two operators and every 29th (all in thorough) of three, times places and contexts, six shells; calls in arms of ?:, addresses of locals and arithmetic on struct pointers are left out; " + MC + ".")
prop("A32", "Shell code included by #include_shell",
     "The text of a file included by #include_shell appears in the script as it is, whatever it contains, and takes effect where it is included; C functions can call the functions it defines and it can call C functions, in any context, with any number of arguments, "
     "and strings pass both ways unchanged.",
     ["programs", "inputs", "configurations"],
     "every pair of call contexts, every pair of texts in every layout, strings of every length and character",
     "The included text passes beside the tokenizer and shares the names, arguments and result convention of the generated code; the tests include one file.",
     ["sh.c", "sh-runtime.c", "pnut.c"],
     [("include", "sh.c: handle_shell_include"), ("strings", "sh-runtime.c: unpack_string, pack_string, put_pstr"), ("convention", "sh.c: comp_fun_call, comp_glo_fun_decl")],
     ["output, exit status and standard error of the script"],
     "bounded exhaustive enumeration of texts, layouts and calls, each executed in the generated script",
     "Twenty-five contexts in pairs, fourteen texts in pairs and layouts, characters below 128; six shells, quick samples pairs in all but dash; " + MC + ".")
