import os, re
from ..engine import Prop, Case, GenError, write_case, load_prop
from ..toolchain import FLAGS
from .c13 import tokenize

VOCAB = ("int char short long unsigned signed float double void struct union enum typedef static extern const sizeof if else while do for switch case default break continue "
         "return goto main a b x S T printf 0 1 2 3 255 2147483648 18446744073709551615 1.5 .5 1e3 'a' \"s\" \"\" ( ) { } [ ] ; , : ? . -> ... = + - * / % & | ^ ~ ! < > == != "
         "<= >= && || ++ -- << >> += -= *= /= %= &= |= ^= <<= >>= auto register inline volatile restrict _Bool # ## 07 0x 0b1 1u 1L 1.0f").split()
STMTS = ["int x;", "x = 1;", "{ }", ";", "if (x) ;", "else ;", "while (x) break;", "for (;;) ;", "do ; while (0);", "switch (x) { }", "case 1: ;", "default: ;", "break;", "continue;",
         "return 1;", "return;", "goto L;", "L: ;", "int a[3];", "int *p = &x;", "struct S { int a; } s;", "s.a = 1;", "p->a;", "*p = 2;", "printf(\"%d\", x);", "enum E { A, B };",
         "typedef int T;", "T y;", "a[1] = x++;", "x ? 1 : 2;", "(x, 1);", "sizeof x;", "sizeof(T);", "int f(int, int);", "int a[] = {1, 2};", "char c[] = \"abc\";", "union U u = {1};",
         "static int z = 3;", "extern int g;", "int v[x];", "int m[2][3] = {{1}, {2, 3}};", "struct S t = {1};", "s = t;", "f(1, 2);", "x += f(x, 1);", "p = 0;", "p = a + 1;", "p - a;",
         "const int k = 1;", "unsigned long u = -1;", "float q = 1.5;", "x = q;", "q = u;", "!p;", "&*p;", "*&x;", "&a[1];", "int (*pa)[3];", "int *(ap[3]);", "void *vp = p;", "(char)x;",
         "(struct S *)p;", "(void)x;", "\"abc\"[1];", "*\"abc\";", "&\"abc\";", "{ int x; { long x; } }", "struct N { struct N *n; } *n;", "n->n->n;", "int (f);", "int x, *y, z[2];", "T T;", "s;",
         "int fp(int a) { return a; }", "sizeof(struct S);", "-s;", "s + 1;", "a = a;", "a++;", "f = 0;", "f;", "&f;", "*f;", "f();", "main(1, 2);", "p[x] = p[x] + 1;", "x[p];", "int;", "struct Q;",
         "struct { int a; union { int b; }; } w;", "int b : 3;", "int a[-1];", "int a[0];", "int e[];", "char d[2] = \"abcdef\";", "int j = {1};", "int i = {{1}};", "int h = {};", "return s;", "return a;",
         "return \"x\";", "switch (s) { }", "if (s) ;", "while (a) ;", "for (int i = 0; i < 3; i++) x += i;", "for (int i; ; ) { int i; }", "goto *p;", "1:;", "case: ;", "do { } while (a);"]


def nested(s):
    """one construct repeated or nested many times"""
    n = s.pick([1, 3, 10, 30, 60, 150, 300])
    m = min(n, 60)
    k = s.below(24)
    P = "#include <stdio.h>\nint x; int *p; int f(int a) { return a; } struct S { int a; struct S *n; } s;\nint main(void) { "
    E = " return 0; }\n"
    return [lambda: P + "x = " + "(" * n + "1" + ")" * n + ";" + E,
            lambda: P + "x = " + s.pick(["- ", "~", "!", "+ ", "(int)", "(char)", "*&", "sizeof "]) * n + "x;" + E,
            lambda: P + "{" * n + "x = 1;" + "}" * n + E,
            lambda: P + "if (x) " * m + "x = 1;" + E,
            lambda: P + "if (x) { x = 1; } else " * m + "x = 1;" + E,
            lambda: P + "x = 1" + s.pick([" + ", " * ", " - ", " ^ ", " << ", " < ", " == ", " / ", ", "]).join([""] + ["x"] * n) + ";" + E,
            lambda: P + "x = " + " && ".join(["x"] * m) + ";" + E,
            lambda: P + "x = " + "x ? 1 : " * m + "2;" + E,
            lambda: P + "x = " + "f(" * m + "1" + ")" * m + ";" + E,
            lambda: P + "int a[%d] = {%s};" % (n, ", ".join(["1"] * n)) + E,
            lambda: "int x " + "[1]" * min(n, 12) + ";\nint main(void) { x" + "[0]" * min(n, 12) + " = 1; return 0; }\n",
            lambda: "int " + "*" * n + "x;\nint main(void) { return " + "*" * s.pick([n, n - 1, n + 1]) + "x; }\n",
            lambda: "".join("struct S%d { int a; %s };\n" % (i, "struct S%d s;" % (i - 1) if i else "") for i in range(m)) + "struct S%d v;\nint main(void) { return v" % (m - 1) + ".s" * (m - 1) + ".a; }\n",
            lambda: "int " + "x" * n * 20 + ";\nint main(void) { return " + "x" * n * 20 + "; }\n",
            lambda: P + "printf(\"" + s.pick(["a", "%d", "%%", "\\n", "\\x41", "\\0"]) * n + "\");" + E,
            lambda: P + "x = " + s.pick(["9", "0", "0x", "1.", "1e", "0b1", "07"]) + s.pick("0179") * n + ";" + E,
            lambda: P + "while (x) { " * m + "x--; " + "}" * m + E,
            lambda: P + "switch (x) { case 1: " * min(n, 30) + "x = 1;" + "}" * min(n, 30) + E,
            lambda: P + "switch (x) { " + " ".join("case %d: x = %d;" % (i, i) for i in range(n)) + "}" + E,
            lambda: P + " ".join("L%d: goto L%d;" % (i, s.below(m)) for i in range(m)) + E,
            lambda: "".join("int f%d(%s) { return %s; }\n" % (i, ", ".join("int p%d" % j for j in range(i % 9)) or "void", "f%d(%s)" % (i - 1, ", ".join(["1"] * ((i - 1) % 9))) if i else "0")
                            for i in range(m)) + "int main(void) { return f%d(%s); }\n" % (m - 1, ", ".join(["1"] * ((m - 1) % 9))),
            lambda: P + "x = s" + ".n->n"[2:] * 0 + "".join(s.pick(["->n", ".n"]) for _ in range(min(n, 40))) + "->a;" + E,
            lambda: P + "do " * m + "x = 1;" + " while (x);" * m + E,
            lambda: "int a" + "[2]" * min(n, 6) + " = " + "{" * s.int(0, 8) + "1" + "}" * s.int(0, 8) + ";\nint main(void) { return 0; }\n"][k]()


CLASSES = [("int char short long unsigned float double void struct union enum".split()), ("+ - * / % & | ^ << >> < > == != <= >= && || ,".split()),
           ("= += -= *= /= %= &= |= ^= <<= >>=".split()), ("- ~ ! * & ++ -- + sizeof".split()), (". -> [ (".split()), ("if while switch return else do for goto break continue case default".split()),
           ("static extern typedef const".split()), ("0 1 2 3 -1 255 65536 4294967296 1.5 'a' \"s\"".split())]


def any_literal(s):
    """something like a literal"""
    def piece(q):
        k = s.below(9)
        if k < 2:
            return s.pick("abz09 %/*.,;{}()")
        if k == 2:
            return "\\" + chr(s.below(128))
        if k == 3:
            return "\\x" + "".join(s.pick("0189abfFgGxz \\") for _ in range(s.below(5)))
        if k == 4:
            return "\\" + "".join(s.pick("01234567789a") for _ in range(s.below(5)))
        if k == 5:
            return "\\" + s.pick("abfnrtve0?\"'\\uUx8 \n")
        if k == 6:
            return chr(s.below(256))
        if k == 7:
            return s.pick(["%d", "%s", "%%", "%", "/*", "//", "??/", "\\\n"])
        return "'" if q == '"' else '"'
    k = s.below(10)
    if k < 6:
        q = '"' if k < 4 else "'"
        n = s.pick([0, 1, 1, 2, 3, 6]) if k < 4 else s.pick([0, 1, 1, 1, 1, 2, 4])
        return s.pick(["", "", "", "", "", "", "L", "u8"]) + q + "".join(piece(q) for _ in range(n)) + ("" if s.chance(4) else q)
    return s.pick(["", "0x", "0X", "0b", "0B", "0", ".", "1.", "1e", "1e+", "0x1p", "'"]) + "".join(s.pick("0123456789abefxXulULp.+-_") if s.chance(25) else s.pick("0123456789")
                                                                                       for _ in range(s.pick([0, 1, 2, 3, 10, 19, 20, 21, 40])))


DIRECTIVES = ["#include <stdio.h>", "#include \"main.c\"", "#include \"nowhere.h\"", "#include <nowhere.h>", "#include", "#include <>", "#include \"\"", "#include \".\"", "#include \"..\"", "#include <stdio.h",
              "#include stdio.h", "#include <stdio.h> x", "#include \"/dev/null\"", "#if", "#if 1", "#if 0", "#if 1 +", "#if X(1)", "#if \"s\"", "#if 1 / 0", "#if 'a'", "#if 99999999999999999999", "#endif", "#endif",
              "#else", "#else", "#elif 1", "#elif", "#ifdef", "#ifdef X", "#ifndef X", "#ifdef 1", "#define", "#define X", "#define X X", "#define X 1", "#define X(", "#define X(a", "#define X(a) #b",
              "#define X(a) a ## ", "#define X ## a", "#define X(a, a) a", "#define X(a) #a", "#define X(...) __VA_ARGS__", "#define X(a, ...) a", "#define 1 2", "#define int long", "#define main start",
              "#define defined 1", "#undef", "#undef X", "#undef __LINE__", "#line 5", "#line 5 \"a.c\"", "#line", "#line x", "#line 99999999999", "# 1 \"x.c\"", "# 7", "#", "# ", "#error", "#error e", "#warning w",
              "#pragma", "#pragma once", "#pragma pack(1)", "#pragma GCC poison x", "#nonsense", "#define Y Z", "#define Z Y", "#define E", "#ident \"a\"", "#assert a(b)", "#include_next <stdio.h>", "_Pragma(\"once\")",
              "__LINE__;", "__FILE__;", "__func__;", "__COUNTER__;", "X", "X(1)", "X()", "X(1, 2)", "X(", "Y", "Z;", "defined(X);", "/*", "*/", "//", "\\"]


def directives(s):
    """preprocessing directives in no particular order"""
    lines = []
    for _ in range(s.int(1, 8)):
        d = s.pick(DIRECTIVES)
        if s.chance(12):
            d = s.pick(["  ", "\t", "/* c */", "\\\n"]) + d
        if s.chance(12):
            d += s.pick([" ", " // c", " /* c */", " /* c", " \\", "\\\n", " 1", " x", " (", "\r"])
        if s.chance(6):
            i = s.below(len(d) + 1)
            d = d[:i] + chr(s.below(256)) + d[i:]
        lines.append(d)
    i = s.below(len(lines) + 1)
    a, b = (lines[:i], lines[i:]) if s.chance(50) else (lines, [])
    return "\n".join(a) + "\nint x; int f(int a) { return a; }\nint main(void) {\n" + "\n".join(b) + s.pick(["\nx = 1;", "\n", "\nx = X;", "\nX(x);"]) + "\nreturn 0;\n}\n" + \
        ("\n".join(s.pick(DIRECTIVES) for _ in range(s.below(3))) if s.chance(30) else "") + s.pick(["", "\n"])


def similar(s, toks, i):
    """another token of the same kind"""
    t = toks[i]
    cs = [c for c in CLASSES if t in c]
    if cs:
        return s.pick(s.pick(cs))
    if re.match(r"[A-Za-z_]", t):
        ids = [x for x in toks if re.match(r"[A-Za-z_]", x) and not any(x in c for c in CLASSES)]
        return s.pick(ids)
    if t[0].isdigit() or t[0] in "'\".\"":
        if s.chance(50):
            return any_literal(s)
        return s.pick(CLASSES[-1])
    return t


ENV = """#include <stdio.h>
struct S { int a; struct S *n; int v[3]; double d; struct { char i; } in; };
union U { int k; double d; char b[8]; };
enum E { E1, E2 = 7 };
typedef int T; typedef struct S *PS; typedef int A3[3];
char c = 1; unsigned char uc = 2; short h = 3; unsigned short uh = 4; int x = 5; unsigned int u = 6; long l = 7; unsigned long ul = 8; float f = 1.5; double d = 2.5;
int *p = &x; char *q = "abc"; void *vp = 0; int **pp = &p; double *dp = &d; char *strs[2] = {"a", "b"};
int a[3] = {1, 2, 3}; int m[2][3]; char ca[4] = "xyz"; double da[2];
struct S s; struct S *sp = &s; struct S sa[2]; union U un; union U *up = &un; enum E e = E2; T t = 1; PS ps = &s; A3 a3;
int fn(int i, long j) { return i + (int)j; } void vf(int i) { x = i; } int *pf(void) { return &x; } double df(float z) { return z; } void nop() { } struct S *spf(void) { return &s; }
"""
NAMES = "c uc h uh x u l ul f d p q vp pp dp strs a m ca da s sp sa un up e t ps a3 fn vf pf df nop spf E1 lx ly lv lp ls la".split()
TYNAMES = ["int", "char", "long", "unsigned int", "double", "float", "void", "struct S", "union U", "enum E", "T", "PS", "int *", "void *", "char **", "struct S *", "A3", "short", "unsigned long"]
BIN = "+ - * / % & | ^ << >> < > <= >= == != && || , = += -= *= /= %= &= |= ^= <<= >>=".split()


def any_expr(s, d):
    """an expression with no regard for types"""
    k = s.below(16) if d > 0 else s.below(3)
    if k < 2:
        return s.pick(NAMES)
    if k == 2 and s.chance(12):
        return any_literal(s)
    if k == 2:
        return s.pick(["0", "1", "2", "255", "1.5", "'a'", '"str"', "2147483648", "0xffffffff", "18446744073709551615", "(void)0", "nowhere"])
    if k < 7:
        return "(%s %s %s)" % (any_expr(s, d - 1), s.pick(BIN), any_expr(s, d - 1))
    if k == 7:
        return "(%s%s)" % (s.pick(["-", "+", "~", "!", "*", "&", "*", "&", "++", "--", "sizeof "]), any_expr(s, d - 1))
    if k == 8:
        return "(%s)%s" % (any_expr(s, d - 1), s.pick(["++", "--"]))
    if k == 9:
        return "((%s)%s)" % (s.pick(TYNAMES), any_expr(s, d - 1))
    if k == 10:
        return "%s%s%s" % (any_expr(s, d - 1), s.pick([".", "->", "."]), s.pick(["a", "n", "v", "d", "in", "in.i", "k", "b", "zz"]))
    if k == 11:
        return "%s[%s]" % (any_expr(s, d - 1), any_expr(s, d - 1))
    if k == 12:
        return "(%s ? %s : %s)" % (any_expr(s, d - 1), any_expr(s, d - 1), any_expr(s, d - 1))
    if k == 13:
        f = s.pick(["fn", "fn", "vf", "pf", "df", "nop", "spf", "printf", "main"] + NAMES[:4])
        n = {"fn": 2, "vf": 1, "df": 1}.get(f, s.int(0, 3)) if s.chance(80) else s.int(0, 4)
        return "%s(%s)" % (f, ", ".join(any_expr(s, d - 1) for _ in range(n)))
    if k == 14:
        return "sizeof(%s)" % s.pick(TYNAMES)
    return "(*%s)" % any_expr(s, d - 1) if s.chance(50) else "(&%s)" % any_expr(s, d - 1)


def any_decl(s, name):
    """a declaration with no regard for sense"""
    ty = s.pick(TYNAMES + ["struct N1 { int a; %s b; }" % s.pick(TYNAMES), "union N2 { %s b; }" % s.pick(TYNAMES), "enum N3 { Q1 = %s }" % any_expr(s, 1), "const int", "static long",
                           "extern int", "struct Undefined", "enum E", "typedef %s" % s.pick(TYNAMES), "static struct S", "unsigned"])
    dec = name
    for _ in range(s.pick([0, 0, 0, 1, 1, 2, 3])):
        k = s.below(8)
        if k < 2:
            dec = "*" + dec
        elif k < 5:
            dec = "%s[%s]" % (dec, s.pick(["1", "2", "3", "", "x", "0", "E2", any_expr(s, 1), any_expr(s, 2)]))
        elif k == 5:
            dec = "(%s)" % dec
        elif k == 6:
            dec = "(*%s)" % dec
        else:
            dec = "%s(%s)" % (dec, s.pick(["", "void", "int", "int i", "int i, ...", "struct S z", "int v[]", "int n, int v[n]", "T"]))

    def init(d):
        k = s.below(6)
        if k < 3 or d == 0:
            return any_expr(s, s.int(0, 2))
        return "{%s}" % ", ".join(init(d - 1) for _ in range(s.int(0, 4)))
    return "%s %s%s;" % (ty, dec, " = " + init(3) if s.chance(60) else "")


SCTX = ["%s;", "x = %s;", "if (%s) x = 1;", "while (%s) break;", "return %s;", "int z = %s;", "double z = %s;", "for (%s; x < 0; ) ;", "for (; %s; ) break;", "for (; 0; %s) ;",
        "switch (%s) { case 1: ; default: ; }", "switch (x) { case %s: ; }", "int z[] = {%s, 1};", "int z[%s];", "struct S z = %s;", "struct S z = {%s};", "char z[4] = %s;", "int *z = %s;",
        "do x = 1; while (%s && 0);", "printf(\"%%d\", %s);", "fn(%s, 1);", "s = %s;", "p = %s;", "%s = 1;", "&%s;", "static int z = %s;", "enum { Z = %s };", "(void)%s;", "un.k = %s;",
        "float z = %s;", "sizeof %s;", "goto *%s;", "*%s;", "struct S *z = %s;", "vp = %s;", "char *z = %s;", "union U z = {%s};", "{ %s; { int x = 1; %s; } }"]


class C23(Prop):
    id = "C23"
    quick = 8000
    thorough = 150000
    rule = ("arbitrary files: programs of the other properties' generators with 1 to 8 mutations of bytes (any of the 256), of tokens (deleted, repeated, "
            "swapped, replaced, inserted, taken from another program) or of whole lines, sequences of unrelated statements and tokens, expressions and declarations built with no regard for types, malformed literals, unrelated preprocessing directives, random bytes, and one "
            "construct nested or repeated up to 300 times; the compiler has to exit with 0 having written a module that validates, or with 1 having "
            "printed a diagnostic and written nothing - never a panic, signal, hang or invalid module; non-trivial: every distinct input")
    assumptions = []
    BASES = ["C01", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C16", "C17", "C18"]

    def base(self, s):
        b = s.pick(self.BASES)
        for _ in range(3):
            text = load_prop(b).gen(s).src
            if len(text) < 5000:
                break
        if len(text) >= 5000:
            text = text[:5000]
        return text, b

    def tokens(self, s, text):
        # keep directives as they are
        lines = text.split("\n")
        pp = [l for l in lines if l.lstrip().startswith("#")]
        toks = tokenize("\n".join(l for l in lines if not l.lstrip().startswith("#")))
        return pp, toks

    def gen(self, s):
        k = s.below(36)
        feats = set()
        if k >= 32:
            if k < 34:
                feats.add("literals")
                text = s.pick(["", "#include <stdio.h>\n"]) + "int x; long l; double d; char *q; char a[] = %s;\nint main(void) {\nx = %s; q = %s;\nprintf(%s);\nreturn %s;\n}\n"
                want = s.below(5)
                text = text % tuple(any_literal(s) if i == want or s.chance(8) else d for i, d in enumerate(['"a"', "1", '"b"', '"c"', "2"]))
                if s.chance(30):
                    text = text.replace("x = ", s.pick(["d = ", "l = ", "if (x) x = "]), 1)
            else:
                feats.add("directives")
                text = directives(s)
            return Case(text, feats, flags=[f for f in FLAGS if s.chance(10)])
        if k >= 20 and k < 32:
            body = ["int lx = 1; long ly = 2; double lv = 3.5; int *lp = &lx; struct S ls; int la[3];"]
            glob = ""
            for _ in range(s.weighted([(5, 1), (2, 2), (1, 3)])):
                if s.chance(30):
                    feats.add("any-declaration")
                    dcl = any_decl(s, s.pick(["z1", "z2", "x", "S", "fn", "T", "E1"]))
                    if s.chance(40):
                        glob += dcl + "\n"
                    else:
                        body.append(dcl)
                else:
                    feats.add("any-expression")
                    ctx = s.pick(SCTX)
                    body.append(ctx % tuple(any_expr(s, s.int(1, 3)) for _ in range(ctx.count("%s"))) if "%%" not in ctx else ctx % any_expr(s, s.int(1, 3)))
            text = ENV + glob + s.pick(["int main(void) {", "void other(int n) {"]) + "\n" + "\n".join(body) + "\n}\n"
            if "void other" in text:
                text += "int main(void) { return 0; }\n"
            return Case(text, feats, flags=[f for f in FLAGS if s.chance(30)])
        if k < 9:
            text, b = self.base(s)
            feats.add("tokens")
            pp, toks = self.tokens(s, text)
            if toks:
                toks = list(toks)
                for _ in range(s.weighted([(5, 1), (3, 2), (2, s.int(3, 8))])):
                    i = s.below(max(1, len(toks)))
                    j = s.below(18)
                    if j >= 9:
                        if toks:
                            toks[i] = similar(s, toks, i)
                        continue
                    n = s.pick([1, 1, 2, 5])
                    if j < 2:
                        del toks[i:i + n]
                    elif j == 2:
                        toks[i:i] = toks[i:i + n]
                    elif j < 5:
                        toks[i:i + 1] = [s.pick(VOCAB) if s.chance(80) else any_literal(s)]
                    elif j == 5:
                        toks.insert(i, s.pick(VOCAB))
                    elif j == 6 and toks:
                        q = s.below(len(toks))
                        toks[i:i + 1] = [toks[q]]
                    elif j == 7 and toks:
                        q = s.below(len(toks))
                        toks[i:i] = toks[q:q + s.int(1, 12)]
                    else:
                        toks[i:i] = s.pick(STMTS).split(" ")
                text = "\n".join(pp) + "\n" + " ".join(toks) + "\n"
        elif k < 13:
            text, b = self.base(s)
            feats.add("bytes")
            bs = bytearray(text.encode("latin1", "replace"))
            for _ in range(s.weighted([(5, 1), (3, 2), (2, s.int(3, 8))])):
                i = s.below(max(1, len(bs)))
                j = s.below(5)
                if j == 0:
                    del bs[i:i + s.pick([1, 1, 3, 20])]
                elif j == 1 and bs:
                    bs[i] = s.below(256)
                elif j == 2:
                    bs[i:i] = bytes([s.below(256)])
                elif j == 3:
                    bs[i:i] = bs[i:i + s.int(1, 30)]
                else:
                    bs[i:i] = s.pick([b"\\", b'"', b"'", b"/*", b"//", b"\0", b"\xff", b"\xc3", b"#", b"\\\n", b"0x", b"\\x", b"\\9", b"'\\''", b"''", b"'ab'", b"\r", b"??/", b"@", b"$", b"`"])
            text = bytes(bs).decode("latin1")
        elif k < 17:
            feats.add("statements")
            head = "".join(s.pick(STMTS) + "\n" for _ in range(s.pick([0, 0, 1, 2])))
            body = []
            decl = s.chance(60)
            for _ in range(s.int(1, 10)):
                body.append(s.pick(STMTS))
            text = "#include <stdio.h>\n" + ("int x; int *p; struct S { int a; }; int f(int a, int b) { return a; } int a[3]; struct S s; long u; double q;\n" if decl else "") + head + \
                "int main(%s) {\n" % s.pick(["void", "", "int a, char **b", "int"]) + "\n".join(body) + "\n}\n"
        elif k == 17:
            feats.add("token-soup")
            text = s.pick(["", "int main(void) { "]) + " ".join(s.pick(VOCAB) for _ in range(s.int(1, 40))) + s.pick(["", " }"]) + "\n"
        elif k == 18:
            feats.add("nested")
            text = nested(s)
        else:
            feats.add("random-bytes")
            text = "".join(chr(s.below(256)) for _ in range(s.int(0, 60)))
        return Case(text, feats, flags=[f for f in FLAGS if s.chance(10)])

    def check(self, case, t):
        # no includes of what happens to lie around
        c = write_case(case, t)
        out = t.path("main.wasm")
        if os.path.exists(out):
            os.remove(out)
        rc, msg = t.compile(c, out, case.flags)
        wrote = os.path.exists(out)
        if rc == 0:
            t.bump("accepted")
            if not wrote:
                return "exit status 0, but no output file"
            if not t.validate(out):
                return "exit status 0, but the module is invalid"
            return None
        if rc == 1:
            t.bump("rejected")
            if wrote:
                return "exit status 1, but an output file was written"
            if "panicked" in msg:
                return "panics: " + msg[-400:]
            if not msg.strip():
                return "exit status 1 without a diagnostic"
            return None
        return "the compiler exits with %s: %s" % (rc, msg[-500:])

    def check_rejected(self, case, t):
        return self.check(case, t)


PROP = C23
