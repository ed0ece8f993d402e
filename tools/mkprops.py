#!/usr/bin/env python3
# Generates properties.jsonl (kept as code so that the file stays valid JSON lines).
import json,os
P=[]
SUB="a program of the supported C subset whose behaviour is fully defined by C (signed overflow taken as wrap-around; char signed 8, short 16, int 32, long 64 bits)"
def p(id,title,statement,over,qtext,why,files,mech,observe=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
OBS=["stdout and exit code of the compiled module run by runtime/run.mjs"]
TG="src/back_end/target_code_generation.rs"; IR="src/middle_end/ast_to_ir.rs"; TC="src/middle_end/type_conversions.rs"
p("C01","Integer expressions evaluate exactly as in C",
 "For every integer expression built from the unary, binary, relational, shift, bitwise and logical operators over char, short, int and long operands (signed and unsigned, variables or constants), the compiled program computes the value C defines for it: usual arithmetic conversions, signedness of division, remainder, right shift and comparison, and wrap-around at the width of the result type.",
 ["programs","inputs"],"all well-defined integer expression trees over all operand types and values, boundary values included",
 "The e2e tests evaluate a few dozen fixed expressions, almost all on small positive ints; operator x type x value space is unbounded.",
 [IR,TC,TG,"src/middle_end/get_ast_type_info.rs"],[("usual arithmetic conversions",TC),("per-operator instruction selection by operand type",TG)],OBS)
p("C02","Arithmetic conversions yield the C value in every context",
 "Whenever a value of one arithmetic type is initialised into, assigned to, cast to, passed as an argument for, or returned as another arithmetic type (or mixed with it in an expression), the compiled program produces the value C prescribes: truncation modulo 2^N, sign or zero extension according to the source type, exact integer-to-floating conversion and truncation toward zero back.",
 ["programs","inputs"],"all ordered pairs of arithmetic types, all contexts, all representable values",
 "tests/cast.yaml covers a handful of pairs and values; 10x10 type pairs x contexts x values are not enumerable by example.",
 [TC,IR,TG,"src/back_end/stack_frame_operations.rs"],[("conversion instruction selection",TC),("load/store width and sign selection","src/back_end/memory_operations.rs")],OBS)
p("C03","Floating-point expressions evaluate as IEEE-754 C arithmetic",
 "For float and double operands, the four arithmetic operators, unary minus, comparisons, logical tests, compound assignment and mixed integer/floating expressions give bit-for-bit the result C gives on an IEEE-754 machine that evaluates in the operand type.",
 ["programs","inputs"],"all float/double expression trees over finite operands, denormals and signed zero included",
 "tests/float.yaml checks a few printed literals.",
 [IR,TC,TG,"src/back_end/float_encoding.rs"],[("F32/F64 instruction selection",TG),("literal encoding","src/back_end/float_encoding.rs")],OBS)
p("C04","Structured control flow executes the same trace as C",
 "For every nesting of if/else, while, do-while, for and switch (with fall-through, default anywhere, break, continue and early return), the compiled program executes the same sequence of statements as C does.",
 ["programs"],"all nestings of control-flow statements up to the generated depth, all branch outcomes",
 "The e2e programs have a handful of fixed shapes; the relooper and switch lowering depend on the shape of the whole control-flow graph.",
 [IR,"src/middle_end/context.rs","src/relooper/relooper.rs","src/relooper/soupify.rs",TG],[("loop/switch contexts","src/middle_end/context.rs"),("relooper block construction","src/relooper/relooper.rs"),("branch depth computation","src/back_end/target_code_generation_context.rs")],OBS)
p("C05","Arbitrary goto control flow is preserved",
 "For every function whose control flow is given by labels and goto statements, forward or backward, reducible or not, possibly combined with loops, the compiled program visits the labels in the same order as C.",
 ["programs"],"all control-flow graphs up to the generated size, including irreducible ones",
 "No e2e test uses goto; multi-entry loops and multiple blocks of the relooper are reached only through it.",
 ["src/relooper/relooper.rs","src/relooper/soupify.rs","src/relooper/blocks.rs",IR],[("relooper simple/loop/multiple blocks","src/relooper/relooper.rs"),("label variable dispatch",TG)],OBS)
p("C06","Stores through pointers and arrays affect exactly the addressed object",
 "After any sequence of reads and writes through variables, array elements (one- and multi-dimensional), pointers, pointer arithmetic, pointer comparison and address-of, every object holds the last value written to it and no other object changes.",
 ["programs","histories"],"all sequences of in-bounds memory operations over locals, globals, arrays of every element type and pointers into them",
 "Tests touch a few arrays; overlap or aliasing mistakes depend on the frame layout of each function.",
 [IR,"src/back_end/memory_operations.rs","src/back_end/stack_allocation/optimised_allocation.rs","src/back_end/dataflow_analysis/clash_graph.rs","src/back_end/dataflow_analysis/dead_code_analysis.rs"],[("address arithmetic scaled by element size",IR),("frame slot sharing only between non-clashing variables","src/back_end/dataflow_analysis/clash_graph.rs")],OBS)
p("C07","Struct, union, enum and typedef objects behave as in C",
 "Members of structs (nested structs and arrays as members, arrays of structs, access by . and ->) are distinct objects that keep their values, members of a union share storage starting at the same address, enumerators and typedef names denote their C values and types.",
 ["programs","histories"],"all generated aggregate type shapes and member access sequences",
 "tests/struct.yaml uses one two-member struct.",
 [IR,"src/middle_end/ir_types.rs","src/middle_end/get_ast_type_info.rs","src/middle_end/aggregate_type_initialisers.rs"],[("member offsets and sizes","src/middle_end/ir_types.rs"),("member access lowering",IR)],OBS)
p("C08","Function calls pass, return and isolate values as in C",
 "A call evaluates its arguments, gives the callee exactly these values in parameter order, and yields the callee's return value; the caller's variables, parameters and temporaries are unchanged by any depth of direct, mutual or nested recursion except through pointers.",
 ["programs","histories"],"all signatures (0..n parameters of every scalar type), call graphs and recursion depths generated",
 "Tests have few functions, mostly int parameters.",
 ["src/back_end/stack_frame_operations.rs","src/back_end/stack_allocation/allocate_vars.rs",TG,IR],[("stack frame protocol","src/back_end/stack_frame_operations.rs"),("parameter offsets","src/back_end/stack_allocation/allocate_vars.rs")],OBS)
p("C09","Side effects happen exactly once and in C's order",
 "In every expression, &&, || and ?: evaluate only the operands C evaluates, prefix and postfix ++/-- and (compound) assignment modify their operand exactly once and yield the value C gives them, and discarded expressions still take effect.",
 ["programs"],"all expressions containing side effects whose order C defines",
 "Tests use side effects only in simple statement position.",
 [IR,TG],[("expression lowering",IR)],OBS)
p("C10","Globals, locals and aggregates are initialised as in C",
 "Before main runs every global has its initial value (zero if none is given), visible and modifiable from every function; every local initialiser, scalar, array, nested array, string or struct, sets each element to the given value and elements without initialiser to zero.",
 ["programs"],"all generated declarations with initialisers of all scalar and aggregate types",
 "tests/global.yaml has a few ints.",
 ["src/middle_end/aggregate_type_initialisers.rs",IR,"src/back_end/initialise_memory.rs","src/back_end/stack_allocation/naive_allocation.rs"],[("global allocation and initial stack pointer","src/back_end/initialise_memory.rs"),("aggregate initialisers","src/middle_end/aggregate_type_initialisers.rs")],OBS)
p("C11","Names resolve by C scope rules, independent of spelling",
 "A use of an identifier denotes the innermost visible declaration (block, for-init, parameter, global), shadowing ends with its block, and consistently renaming identifiers, labels, tags or members to fresh legal names never changes what the compiled program does.",
 ["programs"],"all generated scope nestings; all injective renamings, including names that contain keywords or typedef names as prefixes",
 "Tests rarely shadow and never rename.",
 ["src/middle_end/context.rs",IR,"src/front_end/lexer.rs"],[("scope stack","src/middle_end/context.rs")],OBS)
p("C12","Constant expressions have the value of the same run-time expression",
 "An integer constant expression in an array size, enumerator, case label or initialiser has the value that C gives it, i.e. the value the same expression yields when its operands are variables.",
 ["inputs","programs"],"all constant expressions over the integer operators",
 "Only literal array sizes and simple enumerators are tested.",
 ["src/middle_end/compile_time_eval.rs",IR],[("compile-time evaluator","src/middle_end/compile_time_eval.rs")],OBS)
p("C13","Literals and token layout are read as in C",
 "Decimal, octal, hexadecimal and binary integer, floating, character and string literals (all supported escapes) denote their C value, tokens are split by maximal munch, and adding, removing or changing white space, newlines and comments between tokens never changes what the compiled program does.",
 ["inputs","programs"],"all literal spellings, all layouts of a token sequence",
 "Unit tests cover 1-2 spellings of each kind.",
 ["src/front_end/lexer.rs","src/front_end/interpret_string.rs","src/front_end/c_parser.lalrpop","src/back_end/integer_encoding.rs"],[("lexer state machine","src/front_end/lexer.rs"),("escape interpretation","src/front_end/interpret_string.rs"),("LEB128 and float constant encoding","src/back_end/integer_encoding.rs")],OBS)
p("C14","Optimisations, profiling and recompilation never change behaviour",
 "For every program, all combinations of the optimisation switches, with or without stack profiling, and every repeated compilation of the same source, produce modules with identical output and exit code.",
 ["programs","configurations"],"8 optimisation combinations x profiling x repeated compilations of generated programs",
 "The e2e tests run only the default configuration, once.",
 ["src/middle_end/middle_end_optimiser/tail_call_optimise.rs","src/middle_end/middle_end_optimiser/unreachable_procedure_elimination.rs","src/back_end/stack_allocation/optimised_allocation.rs","src/back_end/dataflow_analysis/live_variable_analysis.rs","src/program_config/enabled_optimisations.rs"],[("liveness and clash analysis","src/back_end/dataflow_analysis/live_variable_analysis.rs"),("tail-call rewriting","src/middle_end/middle_end_optimiser/tail_call_optimise.rs")],OBS)
p("C15","Stack space is bounded and restored",
 "Every call returns with the stack pointer it started with, a self tail call runs in stack space independent of its depth, and with stack-allocation optimisation no frame is larger than without it.",
 ["programs","histories"],"all generated call histories, observed through the stack-pointer log",
 "Two e2e programs run a tail call at one depth; no test looks at the stack pointer.",
 ["src/back_end/stack_frame_operations.rs","src/back_end/profiler.rs","src/back_end/stack_allocation/optimised_allocation.rs","src/middle_end/middle_end_optimiser/tail_call_optimise.rs"],[("frame push/pop","src/back_end/stack_frame_operations.rs"),("tail-call loop rewriting","src/middle_end/middle_end_optimiser/tail_call_optimise.rs")],["stack pointer in linear memory, logged by --prof-stack"])
p("C16","Unreachable functions are removed, reachable ones kept",
 "With unreachable-procedure elimination the module contains exactly the functions that main or a global initialiser can reach through calls; with it disabled it contains every defined function.",
 ["programs","configurations"],"all call graphs generated (cycles, self calls, unused imports)",
 "Not asserted by any e2e test.",
 ["src/middle_end/middle_end_optimiser/unreachable_procedure_elimination.rs"],[("call graph reachability","src/middle_end/middle_end_optimiser/unreachable_procedure_elimination.rs")],["function and import sections of the emitted module"])
p("C17","Every accepted program yields a valid, well-formed module",
 "Whenever the compiler exits with status 0 it has written a binary that passes WebAssembly validation, imports only the documented runtime memory and library functions, exports main, and contains every string literal NUL-terminated in its initial memory.",
 ["programs","configurations"],"all accepted programs, including extreme sizes: many functions, parameters, locals, literals, large constants and deep nesting",
 "Modules in tests are small, so multi-byte lengths and indices are hardly exercised.",
 ["src/back_end/wasm_module/module.rs","src/back_end/integer_encoding.rs","src/back_end/vector_encoding.rs","src/back_end/wasm_instructions.rs"],[("section encoders","src/back_end/wasm_module/module.rs")],["the output file, decoded and validated"])
p("C18","Ill-formed programs are rejected with a diagnostic",
 "A source that violates a syntactic or semantic rule the compiler checks (syntax error, undeclared identifier, unknown member or type, duplicate declaration, assignment to a non-lvalue, misplaced break/continue/case, missing main) makes the compiler report an error, exit with a non-zero status and write no output file.",
 ["inputs"],"all single-fault mutations of generated valid programs",
 "No e2e test contains an invalid program.",
 ["src/lib.rs","src/front_end/parser.rs","src/front_end/lexer.rs",IR,"src/middle_end/middle_end_error.rs"],[("error propagation","src/lib.rs")],["exit status and diagnostics of the compiler"])
p("C19","printf prints what C prints for supported formats",
 "For every format string made of ordinary characters, %% and the conversions d, i, u, hd, hu, ld, lu, c and s with matching arguments, the text written is exactly the text C's printf writes.",
 ["inputs","programs"],"all format strings over the supported conversions, all argument values",
 "tests/printf.yaml prints a few values.",
 ["runtime/stdlib/stdio.mjs","runtime/memory_operations.mjs","runtime/number_operations.mjs","src/back_end/stack_frame_operations.rs"],[("varargs walk","runtime/stdlib/stdio.mjs"),("argument packing","src/back_end/stack_frame_operations.rs")],OBS)
p("C20","The runtime string and number functions follow their C contracts",
 "strlen, strstr, strtol and strtoul, called with any in-memory strings, return the value (and for strtol/strtoul store the end pointer) that the C library defines for the inputs they support.",
 ["inputs"],"all byte strings and bases generated",
 "Two or three fixed calls in the e2e tests.",
 ["runtime/stdlib/string.mjs","runtime/stdlib/stdlib.mjs","runtime/memory_operations.mjs"],[("string reading and result storing","runtime/memory_operations.mjs")],OBS)
p("C21","Program arguments and exit status reach the program and the caller",
 "main receives argc and argv describing exactly the command-line arguments (NUL-terminated, in order), undisturbed by globals or other data, and the process exit status is main's return value modulo 256.",
 ["inputs","programs"],"all argument vectors and return values",
 "tests/args.yaml passes a few short arguments.",
 ["runtime/init_memory.mjs","runtime/run.mjs",TG,"src/back_end/initialise_memory.rs"],[("argument placement above the initial stack pointer","runtime/init_memory.mjs")],OBS)
p("C22","Preprocessing and bundled headers behave as in C",
 "Object- and function-like macros, conditionals and quoted or angle-bracket includes are processed before compilation as the C preprocessor does, and the functions and constants of the bundled standard headers (ctype, limits, stdbool, stddef, stdint) have their C values for all arguments.",
 ["inputs","programs"],"all argument values of the ctype functions; generated macro definitions and include arrangements",
 "Tests include headers but call few of their functions.",
 ["src/preprocessor.rs","headers/ctype.h","headers/limits.h"],[("include resolution","src/preprocessor.rs")],OBS)
p("C23","Any input is compiled or rejected, never a crash",
 "For every file given as input, however malformed, the compiler terminates: with status 0 and a valid WebAssembly module as output, or with status 1, a diagnostic and no output file. It never panics, is killed by a signal, hangs, or writes an invalid module.",
 ["inputs","configurations"],"all byte sequences: mutated programs, ill-typed expressions and declarations, deep nesting, random bytes",
 "No e2e test contains an invalid program; unit tests cover the lexer and parser on well-formed text.",
 ["src/lib.rs","src/front_end/lexer.rs","src/front_end/c_parser.lalrpop",IR,"src/middle_end/type_conversions.rs","src/back_end/target_code_generation.rs"],[("error propagation","src/lib.rs"),("type checks before code generation",IR)],["exit status, diagnostics and output file of the compiler"])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,x['title']
        f.write(json.dumps(x)+'\n')
print(len(P))
