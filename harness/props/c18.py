import os, re, subprocess
from ..engine import Prop, Case, GenError, write_case
from ..ctl import Ctl, TRACE
from ..toolchain import FLAGS

HEAD = TRACE + """struct In { char i; long w; };
struct S { int a; struct In in; int v[3]; struct S *next; };
union U { int k; double d; };
enum E { E1, E2 = 7 };
typedef int T;
typedef struct S *PS;
int g = 3; long gl = 4; double gd = 1.5; char gc = 1;
int arr[4] = {1, 2, 3, 4};
struct S sv; struct S *sp = &sv; union U un;
int *gp = &g; void *gv;
int fn(int a, long b) { return a + (int)b; }
void vf(int a) { g = g + a; }
int nofn(void) { return 2; }
@G@
"""

# ---- expressions that are wrong wherever they stand (they have, or would have, an arithmetic value)
UNDECL = ["nowhere", "nowhere + 1", "g * nowhere", "nowhere[1]", "*nowhere", "nowhere.a", "nowhere->a", "-nowhere", "nowhere++", "nowhere(1)", "fn(nowhere, 1)",
          "arr[nowhere]", "(nowhere ? 1 : 2)", "(g, nowhere)", "(char)nowhere", "!nowhere", "g && nowhere", "(g = nowhere)", "(nowhere = 1)", "(nowhere += 1)", "S", "In",
          "a", "next", "U", "fn2(1, 2)", "fn(1, fn2())"]
MEMBER = ["sv.zz", "sp->zz", "sv.in.zz", "sp->in.a", "un.a", "sv.next->zz", "(*sp).k", "sv.v[0].a", "sp->next->next->i", "(&sv)->b", "sv.i"]
MEMBERTYPE = ["sp.a", "sv->a", "g.a", "gp->a", "g->a", "arr.a", "gd.a", "fn(1, 2).a", "1 .a", "sv.a.b"]
LVALUE = ["(1 = g)", "(g + 1 = 2)", "(g++ = 1)", "(fn(1, 2) = 3)", "(-g = 2)", "(E1 = 3)", "((g ? g : gc) = 1)", "((int)g = 1)", "(5 += g)", "(g + 1)++", "++5", "5++",
          "--(g + 1)", "g++++", "++g++", "(g = 1)++", "((long)g += 2)", "(fn(1, 2))++", "E2++", "(!g -= 1)", "(~g ^= 1)", "((g, 1) = 3)", "(1 <<= 2)", "('a' = 2)", "--E1"]
LVALUE_ADDR = ["&1", "&(g + 1)", "&fn(1, 2)", "&E1", "&(g++)", "&-g", "&(int)g", "&(g ? g : gc)", "&'a'", "&(g = 1)"]
NOASSIGN = ["arr = 0;", "arr = gp;", "arr++;", "--arr;", "fn = 0;", "arr += 1;", "sv.v = 0;", '"abc" = 0;', "sv.v++;", "vf = 0;", "arr = arr;"]
ARGS = ["fn(1)", "fn()", "fn(1, 2, 3)", "nofn(1)", "fn(fn(1), 2)", "nofn(nofn(), 2)", "fn((1, 2))", "fn(fn(1, 2, 3), 4)"]
CALLS = ["g(1)", "g()", "1(2)", "arr(1)", "sv(1)", "(g + 1)(2)", "gd()", "E1()"]
TYPES = ["*g", "*gd", "**gp", "g[1]", "*sv", "*1", "gd[1]", "sv[0]", "*E1", "-sv", "!sv", "~gd", "gd % 2", "g % gd", "gd << 1", "1 >> gd", "gd & 1", "gd ^ gd", "g | gd", "~sv",
         "sv + 1", "1 - sv", "sv * sv", "sv == sv", "sv < 1", "sv && 1", "g || sv", "(sv ? 1 : 2)", "~gp", "-gp", "+sv", "un + 1", "(int)sv", "(double)un", "!un", "sv & 1", "gd | 1.5"]
PTRTYPES = ["gp + gp", "gp * 2", "gp / 2", "2 - gp", "gp % 2", "gp & 1", "gp << 1", "1 | gp", "gp ^ gp", "+gp"]
VOIDS = ["vf(1)", "(vf(1), vf(2))", "(void)g"]
VOIDUSE = ["g = %s;", "g = 1 + %s;", "if (%s) g = 1;", "fn(%s, 1);", "while (%s) break;", "int q = %s;", "g = -%s;", "g += %s;", "return %s;", "g = !%s;", "arr[%s] = 1;",
           "switch (%s) { default: ; }", "for (; %s; ) break;", "%s + 1;", "g = (int)%s;"]
CONTEXT = ["g = %s;", "g = 1 + (%s);", "if (%s) ;", "while (%s) break;", "return %s;", "t(%s);", "int q = %s;", "g += %s;", "for (; %s; ) break;", "switch (%s) { default: ; }",
           "%s;", "g = g ? %s : 1;", "g = (%s, 1);", "do g = 1; while (0 && %s);", "arr[%s & 1] = 1;", "if (g) { } else g = %s;", "int q[2] = {1, %s};", "sv.a = %s;", "*gp = %s;",
           "for (%s; g < 0; ) ;", "for (; 0; %s) ;", "g = !(%s);", "g = 1 && %s;", "g = -(%s);", "return 1 + (%s);", "printf(\"%%d\", %s);", "g = fn(%s, 2);"]
CONTEXT_NOT_VOID = CONTEXT

TYPE_STMTS = ["Foo q;", "Foo *q;", "g = (Foo)g;", "g = sizeof(Foo);", "struct Nope q;", "g = sizeof(struct Nope);", "union Nope q; ", "struct Nope *q; g = q->a;", "enum Nope q;",
              "unsigned Foo q;", "for (Foo i = 0; ; ) break;", "Foo q = 1;", "struct Nope q = {1};", "static Foo q;", "struct Nope { int a; Foo b; } q;", "struct Nope q[2];", "g = sizeof(union Nope);",
              "void q;", "void q[3];", "struct { void v; } q;", "struct { struct Nope2 v; } q;", "typedef Foo Bar;", "struct S2 { int x; struct S2 y; } q;"]
DUPS = ["int q; int q;", "int q = 1; int q = 2;", "int q; long q;", "int q; int *q;", "int q[2]; int q;", "struct S q; int q;", "typedef int q; int q;", "int q; typedef int q;", "enum { q1, q1 };",
        "enum { q1 }; int q1;", "struct { int m; int m; } q;", "struct { int m; long m; } q;", "union { int m; char m; } q;", "struct Q { int a; }; struct Q { int a; };", "static int q; static int q;",
        "int q, q;", "enum { q1 }; enum { q1 };", "char q; static int q;", "struct Q { int a; }; union Q { int b; } q;", "int q1, *q2, q1[2];"]
SCOPE = ["{ int q = 1; } g = q;", "for (int i = 0; i < 1; i++) ; g = i;", "{ typedef int Q; } Q x;", "{ struct Q { int a; }; } struct Q x;", "{ enum { QE }; } g = QE;", "if (g) { int q = 1; } else { g = q; }",
         "g = q; int q = 1;", "do { int q = 1; } while (q);", "while (g) { int q; break; } q = 1;", "{ { int q = 2; g = q; } q = 3; }", "switch (g) { case 1: { int q = 1; } default: g = q; }"]
SYNTAX = ["g = 1 g = 2;", "g = (1 + 2;", "g = 1 + 2);", "g = ;", "g + * ;", "if g > 1) ;", "if (g > 1 ;", "for (;;;) break;", "for (g) break;", "while () break;", "while g break;", "do ; while (0) g = 1;",
          "int 3x;", "int q[;", "g = 3 4;", "{ else g = 1; }", "switch g { default: ; }", "switch () { default: ; }", "goto ;", "return return;", "struct ;;) ;", "int ;)", "g = g g;", "(g = 1;", "g[ = 1;",
          "g = arr[1;", "g = arr 1];", "int q = ;", "int = 3;", "g ? 1;", "g = g ? 1;", "g = g ? 1 : ;", "g = g : 1;", "fn(1, );", "fn(, 1);", "fn(1 2);", "g = sizeof;", "g = sizeof();", "g = (int);",
          "g = (int) ;", "int int q;", "g =+ ;", "g = !;", "g &&;", "&& g;", "g = 1 == ;", "g = .;", "g = sv.;", "g = sp->;", "g = sv.1;", "int q[2] = {1, 2;", "int q[2] = 1, 2};", "int q = {1", "case;", "default;",
          "if (g) else g = 1;", "while (0);;)", "break", "g = 1,;", "int q,;", "int *;*", "g = *;", "enum { };", "enum { 1 };", "enum { A B };", "struct { int } q;", "struct { int a } q;", "struct { int a; q;",
          "goto 1;", "goto g + 1;", "case 1 2: ;", "for (int i = 0, i < 3; i++) ;", "for (int i = 0; i < 3) ;", "do g = 1;", "do { } (0);", "if ;", "if () ;", "return (;", "return );", "int f(;", "g = {1};",
          "g = [1];", "= 1;", "+;", ") ;", "] ;", "}{ ;", "g ++ ++ = = 1;", "g = 1 +;", "typedef;(", "int q(3);", "long float q;", "unsigned double q;", "short char q;", "long char q;", "signed unsigned q;",
          "short long q;", "float int q;", "int struct S q;", "void int q;", "unsigned float q;", "char int q;", "double float q;", "struct S T q;", "int T q;"]
LEX = ["g = 1 @ 2;", "g = `1`;", "g = 'a;", "g = '';", "t(\"abc);", "t(\"abc\n\");", "g = 0x;", "g = 09;", "g = 08 + 1;", "g = 1e;", "g = 1.2.3;", "g = 12ab;", "g = 0xfg;", "g = 1e+;", "g = 0b2;", "g = 1x;",
       "/* never closed", "#error wrong", "#include \"nothere.h\"\n", "\n#if 1\n", "\n#endif\n", "\n#else\n", "\n#foo\n", "\n#define\n", "g = '\\q';", "g = \\ 1;", "g = 0x1.8;", "g = 3.4e5.6;",
       "g = 1 $ 2;", "\n#define F(a) a\ng = F(1, 2);", "\n#define F(a, b) a\ng = F(1);", "g = 0779;"]
CONST = ["enum { Q = g };", "enum { Q = fn(1, 2) };", "int q[-1];", "int q[1.5];", "switch (g) { case fn(1, 2): ; }", "switch (g) { case gl: ; }",
         "switch (g) { case 1: ; case 1: ; }", "switch (g) { case 2: ; case 1 + 1: ; }", "switch (g) { default: ; default: ; }", "switch (gd) { case 1: ; }", "switch (g) { case 1.5: ; }",
         "switch (g) { case \"a\": ; }", "switch (g) { case 'a': ; case 97: ; }", "switch (g) { case 1: switch (g) { case 2: ; case 2: ; } case 3: ; }", "switch (sv) { default: ; }", "switch (gp) { case 1: ; }",
         "int q[];", "struct { int v[]; } q;", "enum { Q = 1.5 };", "switch (g) { case E2: ; case 7: ; }", "switch (g) { case 0: ; default: ; case 1: ; default: ; }", "switch (g) { case g: ; }",
         "struct { int v[-1]; } q;", "switch (g) { case 1 / 0: ; }", "enum { Q = 1 / 0 };", "int q[gd];", "switch (g) { case -1: ; case -1: ; }"]
STRUCTS = ["g = sv;", "sv = g;", "sv = 1;", "sv = un;", "un = sv;", "g = un;", "struct S q = g;", "struct S q = 1;", "sv = &sv;", "sp = sv;", "int q = sv;", "sv.in = sv;", "sv += 1;", "sv++;", "return sv;", "fn(sv, 1);",
           "if (sv) ;", "while (un) break;", "sv.a = sv;", "gd = sv;", "arr[sv] = 1;", "sv = sv.in;", "struct Z { int a; } z; sv = z;", "g = fn(1, un);", "*sp = 1;", "sv.in = 1;", "sp->in = sv.a;", "int q[2] = {sv, 1};",
           "struct S q = {sv, 1};", "gd += sv;", "sv = 0;", "struct S q; q = sp;", "double q = un;"]
GOTO = ["goto nolabel;", "if (g) goto nolabel;", "lab1: ; lab1: ;", "{ lab2: ; } { lab2: g = 1; }", "goto g;", "while (g) goto nolabel;", "switch (g) { case 1: goto nolabel; }"]
EXTERN_LINK = ["{ extern int nodef; g = nodef; }", "{ int undefd(int); g = undefd(1); }", "undef_proto(1);", "g = undef_proto(2) + 1;", "if (g) { g = undef_proto(3); }"]

GLOBAL = ["int @;", "int 3x;", "int q = ;", "int q", "int q[;", "int q{;", "Foo q;", "struct Nope q;", "int q; long q;", "int q = 1; int q = 2;", "int q; int q(void);", "int q(void); int q;",
          "int q(int a) { return a; } int q(int a) { return a; }", "int q(int a); long q(int a);", "int q(int a); int q(long a);", "int q(int a, int b); int q(int a);", "int q(int a, int a) { return a; }",
          "int q(int a) { int a; return a; }", "enum { QA, QA };", "enum { g };", "typedef int fn;", "typedef int QT; typedef long QT;", "struct S { int z; };", "union S { int z; };", "enum S { QZ };",
          "int q = nowhere;", "int q[-1];", "int q[2] = {1, 2, 3};" if False else "int q[nowhere];", "void q[2];", "int q = {1", "int q = 1 +;", "g = 2;", "g++;", "return 1;", "if (g) ;",
          "fn(1, 2);", "while (1) ;", "break;", "continue;", "case 1: ;", "lab: ;", "goto lab;", "}", "{", ")", ";;)", "int f( { }", "int f) { }", "int f() { ", "int f(int) { return 1; }", "f() { return 1 }",
          "struct { int m; int m; } q;", "struct Q { int m; void v; };", "struct Q { struct Q q; };", "struct Q { struct Nope q; };", "enum { Q = g };", "enum { Q = 1.5 };", "enum E { QQ };", "typedef Foo Bar;",
          "typedef;(", "int f(void) { return nowhere; }", "int f(void) { break; }", "int f(void) { continue; }", "int f(void) { while (1) { } case 1: return 1; }", "int f(void) { default: return 1; }",
          "int f(void) { goto x; }", "int f(void) { x: ; x: return 1; }", "int f(int a) { return a.b; }", "int f(struct Nope a) { return 1; }", "void f(void v) { }", "int f(int a, void) { return a; }",
          "int f(Foo a) { return 1; }", "Foo f(int a) { return 1; }", "struct Nope f(int a) { }", "int fn(int a) { return a; }", "long fn(int a, long b);", "int g(int a) { return a; }", 
          "char *q = &nowhere;", "int q[] ;;)", "int *q = {1, 2", "int q[2][];", "struct S q = {nowhere};", "int q[2] = {nowhere};", "int printf;", "int f(int a) { if (a) { return 1; }", "int f(int a) return a;",
          "int f(int a) { return a; };)", "int q = sizeof(Foo);", "int q = sizeof(struct Nope);", "#error no\n", "#include <nothere.h>\n", "#if 1\n", "int q = 'ab", "char *q = \"ab;", "int f(int a { return a; }",
          "int f(a, b { return a; }", "extern int q = ;", "static static;(", "unsigned double q;", "long float q;", "int int q;", "struct Q { int a };", "struct Q { int };" if False else "struct Q { a; };", "enum { };", "enum { 1 };", "enum Q { A = };",
          "union { int m; char m; } q;", "int f(void) { int q; int q; return 1; }", "int f(int p) { { int z; } return z; }", "int f(int p) { for (int i = 0; i < 2; i++) ; return i; }", "int f[2](void);", "int f(void)[2];",
          "int f(void)(void);", "void f(void) { g = f(); }", "int main2 { return 1; }", "int q = (1;", "int q = 1);", "int q = [1];", "int q, ;", "int , q;", "int q r;", "int q = 3 4;", "*q;)", "int f(int a,) { return 1; }"]


class Holes(Ctl):
    """statements with numbered places where another statement can stand"""

    def __init__(self, s, base):
        Ctl.__init__(self, s)
        self.max_size = s.pick([10, 25])
        self.base = base
        self.holes = []

    def hole(self, loop, brk):
        k = self.base + len(self.holes)
        self.holes.append((k, loop, brk))
        return "@H%d@" % k

    def simple(self, mult, loop, brk):
        r = Ctl.simple(self, mult, loop, brk)
        return "{ %s %s }" % (r, self.hole(loop, brk)) if self.s.chance(40) else r

    def function(self, name, depth):
        t = Ctl.function(self, name, depth, 1, 4)
        i = t.rindex("return s;")
        return t[:i] + self.hole(False, False) + "\n" + t[i:]


class C18(Prop):
    id = "C18"
    quick = 5000
    thorough = 150000
    rule = ("a valid program of 1-3 functions of random structured statements with 1 to many places where a statement can be inserted, and one fault from a "
            "catalogue of 800 (syntax and lexical errors, undeclared identifiers, types, tags, members and labels, out-of-scope uses, duplicate declarations, "
            "cases and labels, non-lvalues, misplaced break/continue/case/default, invalid operand types, argument counts, constant expressions, missing "
            "main, missing definitions), in a random statement context and place (also unused functions and dead code); gcc has to reject it "
            "too; the fault-free program has to compile; the faulty one must end with status 1, a diagnostic and no (changed) output file; "
            "non-trivial: the fault is not at the end of the file")
    assumptions = ["gcc's view of what is ill-formed (warnings that are constraint violations count)"]

    def gen(self, s):
        n = s.int(1, 3)
        fns, holes = [], []
        base = 0
        unused = s.chance(30)
        for i in range(n):
            h = Holes(s, base)
            fns.append(h.function("f%d" % i, s.int(1, 3)))
            holes += [(x, i) for x in h.holes]
            base += len(h.holes)
        calls = ["t(f%d(%d));" % (i, s.int(0, 40)) for i in range(n) if not (unused and i == n - 1)]
        main = "int main(void) {\nint s = 1;\n%s\n@M@\nreturn 0;\n}\n" % "\n".join(calls)
        text = HEAD + "\n".join(fns) + "\n@G2@\n" + main
        (k, loop, brk), fi = s.pick(holes)
        place = "@H%d@" % k
        kind = s.weighted([(6, "expr"), (4, "stmt"), (2, "syntax"), (3, "global"), (1, "jump"), (1, "main"), (1, "lex"), (1, "link"), (2, "delete")])
        link = False
        mut = None
        if kind == "expr":
            fam = s.pick([("undeclared", UNDECL), ("member", MEMBER), ("membertype", MEMBERTYPE), ("lvalue", LVALUE), ("address", LVALUE_ADDR), ("arguments", ARGS), ("call", CALLS),
                          ("operands", TYPES), ("pointers", PTRTYPES), ("void", VOIDS)])
            feat = fam[0]
            e = s.pick(fam[1])
            if feat == "void":
                fault = s.pick(VOIDUSE) % e
            elif feat in ("address", "pointers"):
                fault = s.pick(["gp = %s;", "if (%s) ;", "%s;", "g = !(%s);", "while (%s) break;", "int *q = %s;", "gv = %s;", "g = (%s, 2);", "g = (int)(%s);" if False else "g = (%s) == 0;"]) % e
            else:
                fault = s.pick(CONTEXT) % e
        elif kind == "stmt":
            feat, fam = s.pick([("type", TYPE_STMTS), ("duplicate", DUPS), ("scope", SCOPE), ("constant", CONST), ("struct", STRUCTS), ("goto", GOTO), ("noassign", NOASSIGN)])
            fault = s.pick(fam)
        elif kind == "syntax":
            feat = kind
            fault = s.pick(SYNTAX)
        elif kind == "lex":
            feat = kind
            fault = s.pick(LEX)
        elif kind == "link":
            feat = kind
            fault = s.pick(EXTERN_LINK)
            link = True
            text = text.replace("@G@", "int undef_proto(int x);\n@G@")
        elif kind == "global":
            feat = kind
            fault = s.pick(GLOBAL)
            place = s.pick(["@G@", "@G2@"])
        elif kind == "jump":
            feat = kind
            c = [x for x in holes if not x[0][2]]
            (k, loop, brk), fi = s.pick(c)
            place = "@H%d@" % k
            fault = s.pick(["break;", "continue;", "case 1: ;", "default: ;", "if (g) break;", "if (g) continue;", "{ continue; }", "{ { break; } }", "case 1: g = 2; break;",
                            "if (g) { case 3: ; }", "switch (g) { case 1: continue; }", "switch (g) { default: if (g) continue; }", "switch (g) { case 1: ; } case 2: ;", "while (g) { break; } break;",
                            "for (;;) break; continue;", "do break; while (0); break;", "if (g) ; else break;", "while (g) { case 1: break; }", "switch (g) { } break;", "lab9: continue;"])
        elif kind == "main":
            feat = kind
            fault = ""
            link = True
            text = text.replace("int main(void) {", s.pick(["int main_(void) {", "int Main(void) {", "int main(void);\nint main2(void) {", "int f99(void) {", "struct main { int a; };\nint m(void) {"]))
        else:
            # one token is lost or doubled: gcc has to call the result a syntax error
            feat = "token"
            fault = ""
            mut = (s.int(0, 100000), s.below(4), s.pick([";", "(", ")", "{", "}", ",", "=", "if", "else", "int", "*", "[", "]", "+", "1", "while", ":", "?", "."]))
        if place == "@M@" or s.chance(0):
            pass
        clean = re.sub(r"@(H\d+|G2?|M)@", "", text)
        if mut:
            faulty = self.mutate(clean, mut)
        else:
            faulty = re.sub(r"@(H\d+|G2?|M)@", "", text.replace(place, " " + fault + " "))
        fl = [f for f in FLAGS if s.chance(15)]
        return Case(faulty, {feat, "unused-function" if unused and fi == n - 1 else "used"}, clean=clean, link=link, feat=feat, fault=fault, old=s.chance(30), flags=fl, main=kind == "main")

    def mutate(self, text, mut):
        head = text.index("int f0(")
        toks = re.findall(r"\"[^\"]*\"|\w+|\s+|.", text[head:], re.S)
        idx = [i for i, x in enumerate(toks) if not x.isspace()]
        i = idx[mut[0] % len(idx)]
        if mut[1] == 0:
            toks[i] = ""
        elif mut[1] == 1:
            toks[i] += " " + toks[i]
        elif mut[1] == 2:
            toks[i] = mut[2]
        else:
            toks[i] += " " + mut[2]
        return text[:head] + "".join(toks)

    def gcc_rejects(self, case, t, text, flags):
        c = t.write("check.c", text)
        cmd = ["gcc", "-std=gnu17", "-o", t.path("check.out")] + flags + [c]
        if "-c" not in flags and not case.kw["link"]:
            cmd.insert(1, "-fsyntax-only")
        env = dict(t.env)
        p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=t.dir, timeout=60, env=env)
        return p.returncode != 0, p.stderr.decode(errors="replace")

    PEDANTIC = ["-Werror=implicit-function-declaration", "-Werror=implicit-int", "-pedantic-errors"]

    def check(self, case, t):
        write_case(case, t)
        text = case.src
        rejected, msg = self.gcc_rejects(case, t, text, ["-w"] if case.kw["feat"] == "token" else self.PEDANTIC)
        if not rejected:
            if case.kw["feat"] == "token":
                t.bump("mutants_valid")
                case.nontrivial = False
                return self.no_crash(case, t)
            # eg. a call of an undefined function in code that gcc removes
            t.bump("faults_gcc_accepts")
            case.nontrivial = False
            return self.no_crash(case, t)
        if case.kw["feat"] == "token":
            errs = re.findall(r"error: (.*)", msg)
            if not errs or not re.match(r"(expected (?!.*identifier.*‘extern)|expected .*before|.*undeclared|unknown type name|redefinition|redeclaration|.*outside|duplicate|.*not within|.*has no member|too (many|few) arg|lvalue required)", errs[0]):
                t.bump("mutants_of_another_kind")
                case.nontrivial = False
                return self.no_crash(case, t)
            t.bump("mutants_ill_formed")
        # without the fault the program has to be accepted
        c = t.write("clean.c", case.kw["clean"])
        if not case.kw["main"]:
            rc, m = t.compile(c, t.path("clean.wasm"), case.flags)
            if rc != 0:
                return "the compiler rejects the fault-free program: %s" % m[:300]
        return self.rejected(case, t)

    def rejected(self, case, t):
        out = t.path("main.wasm")
        if os.path.exists(out):
            os.remove(out)
        if case.kw.get("old"):
            t.write("main.wasm", "old contents")
        rc, m = t.compile(t.path("main.c"), out, case.flags)
        t.bump("faults")
        if rc == 0:
            return "accepted without an error (%s)" % self.describe(case)
        if rc != 1 or "panicked at" in m:
            return "exits with %s instead of reporting an error (%s): %s" % (rc, self.describe(case), m[:300])
        if not m.strip():
            return "exits with 1 but reports nothing (%s)" % self.describe(case)
        if case.kw.get("old"):
            if open(out, "rb").read() != b"old contents":
                return "the output file is overwritten although compilation fails"
        elif os.path.exists(out):
            return "exits with %s but leaves an output file" % rc
        return None

    def no_crash(self, case, t):
        out = t.path("main.wasm")
        if os.path.exists(out):
            os.remove(out)
        rc, m = t.compile(t.path("main.c"), out, case.flags)
        if rc not in (0, 1) or "panicked at" in m:
            return "the compiler crashes with status %s: %s" % (rc, m[:300])
        if (rc == 0) != os.path.exists(out):
            return "exit status %s, but output file %s" % (rc, "written" if os.path.exists(out) else "missing")
        return None

    def describe(self, case):
        return "fault %r" % case.kw["fault"] if case.kw.get("fault") else "%s" % case.kw.get("feat")

    def check_rejected(self, case, t):
        """a file of the regression corpus"""
        write_case(case, t)
        case.kw.setdefault("feat", "corpus")
        return self.rejected(case, t)


PROP = C18
