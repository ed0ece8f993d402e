#!/usr/bin/env python3
# Writes known_findings.json: open findings (matched by their input), and the log of repairs.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = lambda pid, f, what: {"property": pid, "status": "known", "input": "known/" + f, "what": what}
findings = [
    K("C22", "C22-stdbool-bool.c", "a variable of the type bool of <stdbool.h> is rejected: the macro expands to _Bool, which the compiler doesn't have"),
    K("C22", "C22-uint-max-if.c", "UINT_MAX of <limits.h> is a signed value in #if: it's spelled without the suffix u, as the compiler has no integer suffixes"),
    K("C11", "C11-typedef-name-variable.c", "a typedef name can't be redeclared as a variable in an inner scope: the lexer's set of type names isn't scoped"),
    K("C11", "C11-typedef-name-member.c", "a struct member can't be declared with the name of a typedef of the type that it follows: the lexer's set of type names isn't contextual"),
]
FIXED = """
C21 8e1a118 program arguments were placed where the program's globals are, and overwritten by them
C10 ae4afd4 assigned globals got a place in the stack frame as well, and stores to them were removed as dead
C14 289e0a7 stores to variables whose address is taken were removed as dead
C14 0a4b06c dead variables were removed on an outdated flowgraph, so live stores went as well
C14 85acf29 empty branches made the flowgraph wrong, so two live variables got the same stack slot
C02 6e46bb0 widening lost the sign, several conversions were missing, constants had the wrong types
C19 2da04be arguments and return values weren't converted to their declared types, nor varargs promoted
C15 9dda70a tail calls from functions with addressed variables, several tail calls in one function, overlapping parameters
C03 a38cafc value and type of ++, --, unary +, -, ! and of assignment expressions
C05 0349cb1 case labels and declarations inside switch bodies, scope of for declarations, forward gotos
C05 55a99d7 loops with several entries lost some of them
C06 963496b addresses of elements and members were those of copies, struct assignment copied pointers, sizes of arrays
C10 a7d9840 partial, nested and braced initialisers left the rest unset or failed
C07 9c7d9d1 self-referential structs and unions didn't compile
C11 d852253 single letter typedef names and typedefs of several names weren't recognised
C06 18d4edf pointer differences and offsets weren't scaled by the size of the element
C12 65ad6ee spellings of integer types such as plain unsigned were rejected
C18 91f8216 malformed tokens and declarations were accepted or a panic; adjacent string literals; escape sequences
C12 2d91621 enum constants, sizeof and casts in constant expressions; duplicate cases; negative array sizes; negative characters
C04 65408d3 && and || evaluated both operands, compound assignments their destination twice, comma and conditional expressions
C10 14f624f static locals were initialised on every call; repeated and duplicate declarations
C20 dc0323f strtol and strtoul: signs, prefixes, clamping and end pointers
C22 8f48060 ctype.h for control characters, values in limits.h, size_t after string.h
C12 ddd13c3 non-decimal constants that don't fit into an int had a signed type
C22 e144d12 #include directives with other spacing were ignored; preprocessor failures too
C04 55b7bf7 the truth value of a constant wider than an int was that of its lower half
C12 807d6fb float constants were encoded in eight bytes, giving an invalid module
C05 d804543 unreachable code made the relooper lose reachable blocks
C10 33bafdb branches in the initialiser of a global used main's label variable
C11 a35cb05 the scope of a scalar didn't include its own initialiser
C11 c70f5f6 a block-scope extern declaration made a new variable
C10 babadd0 a repeated declaration of a global array allocated it twice
C11 7e402ae tags, members and labels couldn't have the name of a type
C08 f94e289 a repeated declaration of a function was rejected
C08 3ceef1b a program's own function was replaced by the runtime's function of the same name
C12 edb2c19 constant expressions were evaluated in 128 bits rather than in the types of their operands
C12 32c2348 products in constant expressions didn't wrap around
C12 f89dddf an enumerator with the largest value of an int was rejected
C12 d9d6158 floating constants such as 08.5 were rejected
C23 739dd53 source lines that can't be read were left out
C12 793f3d3 the escape sequences a, b, f and v in character constants
C13 7b6d706 escape sequences in strings above 127 gave two bytes
C12 2ffb883 sizeof a string literal was that of a pointer
C21 d212e08 argv didn't end with a null pointer
C22 d50d79e #include directives were handled before macros and conditionals
C23 1eab4f5 deep expressions overflowed the compiler's stack
C18 6afbff7 struct conditions and floating switch expressions were accepted
C18 77ecacc a cast was accepted as an lvalue, and an array rejected as a condition
C03 ed2b898 a cast to void was rejected
C18 4958ffd a name could be redeclared as another kind of symbol in the same scope
C18 cbf91ad string and character literals could go over several lines
C18 ad5efa3 int int was accepted as a type
C06 8e53aed array sizes were evaluated at each use; incomplete types had a size; arrays could be assigned to
C18 a90adad an enum without enumerators was accepted
C18 a8e2815 undefined functions, statements outside functions and repeated initialisers were accepted or a panic
C18 18f5092 a main() without a definition was accepted; invalid function declarators were a panic
C23 4788c3b structs passed or returned by value were a panic
C08 eb5e8af array parameters in function declarations made calls corrupt the stack
C21 6213721 a main() called recursively returned garbage when it reached its end
C22 24b0754 #pragma was a parse error
C23 59b4101 nameless declarators, struct and void arguments, and an unmatched bracket in a typedef were a panic
C23 ea3d507 arrays larger than the address space were an overflow panic
C23 c1b8481 static locals initialised from automatic variables and mixed conditional expressions were a panic; struct conditional expressions too
C23 b0d8e67 comparing a long to a pointer gave an invalid module; returning a void value was a panic
"""
fixed = ["fixed: property=%s" % l for l in FIXED.strip().split("\n")]
json.dump({"findings": findings, "fixed": fixed}, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
