import os
from ..engine import Prop, Case, GenError, compare
from ..toolchain import FLAGS
from .common import *
from .c13 import string_text, rand_bytes

CT = ["isalnum", "isalpha", "iscntrl", "isdigit", "isxdigit", "isgraph", "ispunct", "isprint", "islower", "isupper", "isspace"]
LIM = {"CHAR_BIT": "%d", "SCHAR_MIN": "%d", "SCHAR_MAX": "%d", "UCHAR_MAX": "%d", "CHAR_MIN": "%d", "CHAR_MAX": "%d", "SHRT_MIN": "%d", "SHRT_MAX": "%d",
       "USHRT_MAX": "%d", "INT_MIN": "%d", "INT_MAX": "%d", "UINT_MAX": "%u", "LONG_MIN": "%ld", "LONG_MAX": "%ld", "ULONG_MAX": "%lu", "LLONG_MIN": "%ld",
       "LLONG_MAX": "%ld", "ULLONG_MAX": "%lu"}
INTT = {"int8_t": 1, "int16_t": 1, "int32_t": 1, "int64_t": 1, "uint8_t": 0, "uint16_t": 0, "uint32_t": 0, "uint64_t": 0, "int_least8_t": 1, "int_least16_t": 1,
        "int_least32_t": 1, "int_least64_t": 1, "uint_least8_t": 0, "uint_least16_t": 0, "uint_least32_t": 0, "uint_least64_t": 0, "int_fast8_t": 1,
        "uint_fast8_t": 0, "int_fast64_t": 1, "uint_fast64_t": 0, "intmax_t": 1, "uintmax_t": 0, "intptr_t": 1, "uintptr_t": 0}
BAD = ["#error stop", "#include \"missing.h\"", "#include <missing.h>", "#if 1", "#ifdef A\n#else\n#else\n#endif", "#endif", "#else", "#elif 1", "#if 1 +\n#endif",
       "#define", "#define F(a,b) a\nint bad = F(1);", "#define G(a) a\nint bad = G(1, 2);", "#define H(a) #b", "#define ## 1", "#include", "#undef 3",
       "#if (1\n#endif", "#define X(a,a) 1", "#include \"bad1.h\"", "#unknown", "#ifdef\n#endif", "#if 1 / 0\n#endif", "#define defined 1",
       "#define K(a\nint bad = 1;", "#define L(a) a ##\nint bad = L(1);", "int bad = __CAT(1;", "#include \"main.c\""]


class PP:
    """generates source text; knows which macros exist at the point reached"""

    def __init__(self, s):
        self.s = s
        self.obj, self.fun = {}, {}      # macro -> body / (nparams)
        self.k, self.feats, self.files = 0, set(), {}
        self.vars = ["a", "b", "c"]
        self.selfref = set()
        self.in_macro = False

    def name(self, p):
        self.k += 1
        return "%s%d" % (p, self.k)

    # ---- expressions of type int, all wrapping ----
    def expr(self, d=3, params=()):
        s = self.s
        k = s.below(12) if d > 0 else s.below(4)
        atoms = list(params) + self.vars
        if k < 2:
            return str(s.int(0, 300))
        if k < 4:
            if params and s.chance(60):
                return s.pick(params)
            return s.pick(atoms)
        if k < 6 and self.obj:
            return s.pick(sorted(self.obj))
        if k < 8 and self.fun:
            f = s.pick(sorted(self.fun))
            n, va = self.fun[f]
            args = [self.arg(d - 1, params) for _ in range(n + (s.int(1, 3) if va else 0))]
            return "%s%s(%s)" % (f, s.pick(["", "", " ", "\n", " /* c */ "]) if not self.in_macro else "", s.pick([", ", ",", " , "]).join(args))
        if k < 10:
            return "%s %s %s" % (self.expr(d - 1, params), s.pick(["+", "-", "*", "&", "|", "^", "<", "==", "&&", "||", ">", "!="]), self.expr(d - 1, params))
        if k == 10:
            return "(%s)" % self.expr(d - 1, params)
        op, e = s.pick(["-", "~", "!", "- "]), self.expr(d - 1, params)
        return op + (" " if e[0] == "-" else "") + e

    def arg(self, d, params):
        s = self.s
        if s.chance(12):
            self.feats.add("comma-in-parentheses")
            return "(%s, %s)" % (self.expr(d, params), self.expr(d, params))
        return self.expr(d, params)

    def cond(self, d=2):
        """an expression for #if"""
        s = self.s
        k = s.below(9) if d > 0 else s.below(4)
        if k == 0:
            return str(s.int(0, 2))
        if k == 1:
            m = s.pick(sorted(self.obj) + sorted(self.fun) + ["NOPE"])
            return s.pick(["defined %s", "defined(%s)", "defined( %s )", "!defined %s"]) % m
        if k == 2:
            consts = [o for o in sorted(self.obj) if self.obj[o] == "const"]
            return s.pick(consts + ["NOPE", "'a'", "0x10", "10L", "07u", "-1"])
        if k == 3:
            return "%s %s %s" % (s.int(-3, 3), s.pick(["<", ">", "==", "!=", "<=", ">="]), s.int(-3, 3))
        if k == 4:
            return "(%s)" % self.cond(d - 1)
        if k == 5:
            return "!" + "(%s)" % self.cond(d - 1)
        if k == 6:
            return "%s ? %s : %s" % (self.cond(d - 1), self.cond(d - 1), self.cond(d - 1))
        return "%s %s %s" % (self.cond(d - 1), s.pick(["&&", "||", "+", "-", "*", "==", "<", "&", "|"]), self.cond(d - 1))

    def body(self, text):
        """layout of a macro's replacement list"""
        s = self.s
        k = s.below(8)
        if k == 0:
            self.feats.add("continued-line")
            return text.replace(" ", " \\\n ", 1)
        if k == 1:
            return text + s.pick([" /* c */", " // c", " "])
        return text

    def define(self):
        """-> lines"""
        self.in_macro = True
        r = self._define()
        self.in_macro = False
        return r

    def _define(self):
        s = self.s
        k = s.below(10)
        hash_ = s.pick(["#define", "#define", "# define", " #define", "#\tdefine"])
        if k < 2:
            n = self.name("K")
            self.feats.add("constant")
            self.obj[n] = "const"
            return ["%s %s %s" % (hash_, n, self.body(s.pick(["%d", "(%d)", "%d + 1", "-%d", "(-%d)"]) % s.int(0, 200)))]
        if k < 4:
            n = self.name("O")
            self.feats.add("object-macro")
            b = self.expr(2)
            self.obj[n] = "expr"
            return ["%s %s %s" % (hash_, n, self.body(b))]
        if k < 7:
            n = self.name("F")
            self.feats.add("function-macro")
            ps = ["p%d" % i for i in range(s.int(0, 3))]
            b = self.expr(3, ps)
            if s.chance(40):
                b = "(%s)" % b
            self.fun[n] = (len(ps), False)
            return ["%s %s(%s) %s" % (hash_, n, ", ".join(ps), self.body(b))]
        if k == 7:
            n = self.name("V")
            self.feats.add("variadic-macro")
            self.fun[n] = (1, True)
            return ["%s %s(x, ...) %s" % (hash_, n, s.pick(["(x) + NTH(__VA_ARGS__, 7, 8, 9)", "NTH(__VA_ARGS__, x, x, 5)", "(__VA_ARGS__, x)"]))]
        if k == 8:
            self.feats.add("self-reference")
            v = s.pick(self.vars)
            if v in self.selfref:
                return []
            self.selfref.add(v)
            return ["%s %s (%s %s %d)" % (hash_, v, v, s.pick(["+", "*", "^"]), s.int(1, 9))]
        n = self.name("Q")
        self.feats.add("paste")
        self.fun[n] = (1, False)
        return ["%s %s(x) ((x) + %s)" % (hash_, n, s.pick(["CAT(v, 1)", "CAT(va, r2)", "XCAT(v, ONE)", "CAT(1, 2)", "XCAT(ONE, ONE)", "CAT(0x, f)"]))]

    def undefine(self):
        s = self.s
        if s.chance(50) and self.obj:
            n = s.pick(sorted(self.obj))
        elif self.fun:
            n = s.pick(sorted(self.fun))
        else:
            return []
        self.feats.add("undef")
        # the name is defined again straight away: others may use it
        if n in self.obj:
            return ["#undef " + n, "#define %s %d" % (n, s.int(0, 99))]
        np, va = self.fun[n]
        ps = ["q%d" % i for i in range(np)] + (["..."] if va else [])
        return ["#undef " + n, "#define %s(%s) (%d)" % (n, ", ".join(ps), s.int(0, 99))]

    def garbage(self):
        s = self.s
        return s.pick(["this is not C at all {{{", "int a = ;", "#define SKIPPED 1", "#include \"not-there.h\"", "#error no", "it's", "\"unterminated", "return 77;",
                       "#if NESTED\n#else\n x\n#endif", "printf(\"wrong\\n\");", "#unknown directive", "/* c */", "#define K1 9999", "#undef O1"])

    def conditional(self, inner, depth=2):
        """-> lines; inner() yields the lines of a group"""
        s = self.s
        self.feats.add("conditional")
        k = s.below(4)
        head = ("#if " + self.cond()) if k < 2 else s.pick(["#ifdef ", "#ifndef "]) + s.pick(sorted(self.obj) + sorted(self.fun) + ["NOPE"])
        if s.chance(15):
            self.feats.add("skipped-garbage")
            return ["#if 0" if s.chance(60) else "#ifdef NOPE", self.garbage(), "#else"] + inner() + ["#endif"]
        out = [s.pick(["", " ", "\t"]) + head] + inner()
        for _ in range(s.pick([0, 0, 1, 2])):
            self.feats.add("elif")
            out += ["#elif " + self.cond()] + inner()
        if s.chance(60):
            out += [s.pick(["#else", "# else", "#else // no"])] + inner()
        return out + [s.pick(["#endif", "#endif /* c */", "# endif"])]

    def stmt(self):
        s = self.s
        k = s.below(12)
        if k < 5:
            return ['printf("%%d\\n", %s);' % self.expr()]
        if k == 5:
            self.feats.add("stringify")
            t = s.pick([lambda: self.expr(), lambda: 'a  +"q\\n"', lambda: "'\\\"' + '\\\\'", lambda: "x(1, 2)", lambda: '"%d\\t" b', lambda: "", lambda: "a /* c */ b",
                        lambda: "\n a\n", lambda: string_text(s, [b for b in rand_bytes(s, 4) if 0 < b < 127 and b != 13])])()
            return ['printf("%%s|\\n", %s(%s));' % (s.pick(["STR", "XSTR"]), t)]
        if k == 6:
            return ["%s = %s;" % (s.pick(["v1", "var2"]), self.expr())]
        if k == 7:
            self.feats.add("statement-macro")
            return s.pick([["SHOW(%s)" % self.expr(), ";"], ["if (%s) SHOW(%s); else SHOW(%s);" % (self.expr(), self.expr(), self.expr())],
                           ["LOG(\"%%d %%d\\n\", %s, %s);" % (self.expr(), self.expr())], ["FOR(i, 0, %d) SHOW(i);" % s.int(0, 4)]])
        if k == 8:
            self.feats.add("line")
            return ['printf("%d\\n", __LINE__);']
        if k == 9:
            self.feats.add("mid-statement")
            return ['printf("%d\\n", 1'] + self.conditional(lambda: ["+ %s" % self.expr(1)]) + [");"]
        if k == 10:
            return self.undefine()
        self.feats.add("pragma")
        return [s.pick(["#pragma once_more with feeling", "#", "# /* nothing */", "_Pragma(\"omp simd\")", "#pragma GCC poison zzz"])]

    def lines(self, n, kinds):
        s = self.s
        out = []
        for _ in range(s.int(1, n)):
            k = s.below(10)
            if k < 3 and "define" in kinds:
                out += self.define()
            elif k < 4:
                out += self.conditional(lambda: self.stmt() if "stmt" in kinds else ["int %s = %d;" % (self.name("z"), s.int(0, 9))])
            elif "stmt" in kinds:
                out += self.stmt()
        return out

    # ---- headers ----
    def header(self, path):
        """a header of its own; -> nothing, adds to files"""
        s = self.s
        ls = []
        for _ in range(s.int(1, 4)):
            ls += self.define()
        k = s.below(6)
        f = self.name("h_fn")
        if k < 4:
            ls.append("int %s(int x) { return x + %d; }" % (f, s.int(0, 50)))
            self.fun[f] = (1, False)
            g = f.upper() + "_H"
            if s.chance(30):
                ls = ["#pragma once"] + ls
                self.feats.add("pragma-once")
            else:
                ls = ["#ifndef " + g, "#define " + g] + ls + ["#endif"]
                self.feats.add("include-guard")
        ls = ls + ([] if s.chance(50) else [""])
        self.files[path] = "\n".join(ls) + ("\n" if s.chance(80) else "")
        self.feats.add("own-header")

    def includes(self):
        s = self.s
        out = []
        for _ in range(s.pick([0, 1, 1, 2, 3])):
            path = s.pick(["main.h", self.name("x") + ".h", "inc/%s.h" % self.name("y"), self.name("data") + ".inc", self.name("deep/er/z") + ".h"])
            if path in self.files:
                continue
            self.header(path)
            if s.chance(25):  # one header includes another
                self.feats.add("nested-include")
                other = os.path.join(os.path.dirname(path), self.name("n") + ".h")
                self.header(other)
                self.files[path] = '#include "%s"\n' % os.path.basename(other) + self.files[path]
            if s.chance(70) or "/" in path and s.chance(50):
                inc = '"%s"' % path
            else:
                inc = "<%s>" % path
                self.feats.add("angle-own-header")
            if s.chance(15):
                self.feats.add("macro-include")
                m = self.name("INC")
                out += ["#define %s %s" % (m, inc)]
                inc = m
            n = 1
            if "#ifndef" in self.files[path][:300].split("\n")[0] or self.files[path].startswith("#pragma once"):
                n = s.pick([1, 1, 2])
            out += [s.pick(["#include ", "# include ", "#include\t"]) + inc] * n
        return out

    def xmacro(self):
        s = self.s
        self.feats.add("x-macro")
        names = ["it%d" % i for i in range(s.int(1, 6))]
        self.files["list.def"] = "\n".join("X(%s, %d)" % (n, s.int(0, 99)) for n in names) + "\n#undef X\n"
        return (["enum items {", "#define X(n, v) n,", "#include \"list.def\"", "item_count };",
                 "int values[] = {", "#define X(n, v) v,", "#include \"list.def\"", "0 };"],
                ["#define X(n, v) printf(\"%s %d %d\\n\", #n, n, values[n]);", "#include \"list.def\"", 'printf("%d\\n", (int)item_count);'])

    def program(self):
        s = self.s
        std = s.shuffle(["<stdio.h>"] + s.sample(["<ctype.h>", "<limits.h>", "<stddef.h>", "<stdint.h>", "<stdlib.h>", "<string.h>", "<stdbool.h>"], s.int(0, 4)))
        out = ["#include " + (h if s.chance(85) else '"%s"' % h[1:-1]) for h in std]
        if s.chance(20):
            out.append(out[s.below(len(out))])
        out += ["#define STR(x) #x", "#define XSTR(x) STR(x)", "#define CAT(x, y) x ## y", "#define XCAT(x, y) CAT(x, y)", "#define ONE 1",
                "#define NTH(x, y, z, ...) (z)", "#define SHOW(x) do { printf(\"%d\\n\", (x)); } while (0)", "#define LOG(...) printf(__VA_ARGS__)",
                "#define FOR(i, from, to) for (int i = from; i < to; i++)", "int a = %d, b = %d, c = %d, v1 = 5, var2 = 6;" % (s.int(-9, 9), s.int(0, 50), s.int(0, 999))]
        out += self.includes()
        out += self.lines(4, ["define"])
        main = []
        if s.chance(15):
            top, body = self.xmacro()
            out += top
            main += body
        if s.chance(30):
            f = self.name("work")
            out += ["int %s(void) {" % f] + self.lines(3, ["stmt", "define"]) + ["return %s;" % self.expr(), "}"]
            main.append('printf("%%d\\n", %s());' % f)
        main += self.lines(8, ["stmt", "define"])
        main += self.headers(std)
        out += ["int main(void) {"] + main + ["return 0;", "}"]
        bad = None
        if s.chance(8):
            bad = s.pick(BAD)
            self.feats.add("invalid")
            self.files["bad1.h"] = "#ifdef OPEN_FOREVER\n" if s.chance(50) else "#if 1\n"
            i = s.pick([0, len(out)])
            out[i:i] = bad.split("\n")
        text = "\n".join(out) + ("\n" if s.chance(90) or bad else "")
        return Case(text, self.feats, files=self.files, flags=[f for f in FLAGS if s.chance(5)], bad=bad)

    def headers(self, std):
        s = self.s
        out = []
        if "<ctype.h>" in std:
            for _ in range(s.int(1, 4)):
                f = s.pick(CT + ["tolower", "toupper"])
                self.feats.add(f)
                neg = "" if f.startswith("to") else "!!"
                k = s.below(4)
                if k < 2:
                    out.append("for (int ch = -1; ch < 256; ch++) printf(\"%%d \", %s%s(ch)); printf(\"\\n\");" % (neg, f))
                elif k == 2:
                    out.append("for (unsigned char ch = 0; ch < 128; ch++) if (%s(ch)) printf(\"%%d \", ch); printf(\"\\n\");" % f)
                else:
                    out.append("{ int ch = %d; printf(\"%%d\\n\", %s%s(ch) + 2 * !%s(ch + 1) + 4 * (%s(%s) ? 1 : 0)); }" % (
                        s.int(-1, 254), neg, f, s.pick(CT), s.pick(CT), "'%s'" % s.pick("aZ5 ~_")))
        if "<limits.h>" in std:
            for _ in range(s.int(1, 4)):
                n = s.pick(sorted(LIM))
                self.feats.add("limits")
                out.append('printf("%s\\n", %s);' % (LIM[n], n))
                m = s.pick(sorted(LIM))
                # (UINT_MAX cannot be unsigned in #if: integer suffixes are not supported)
                if s.chance(50) and not (n == "UINT_MAX" and m.endswith("MIN") or m == "UINT_MAX" and n.endswith("MIN")):
                    out += ["#if %s %s %s" % (n, s.pick(["<", ">", "=="]), m), 'printf("yes\\n");', "#else", 'printf("no\\n");', "#endif"]
                else:
                    out.append('printf("%%d %%d\\n", %s < %s, (int)sizeof(%s));' % (n, m, n))
        if "<stdint.h>" in std:
            for _ in range(s.int(1, 4)):
                n = s.pick(sorted(INTT))
                self.feats.add("stdint")
                v = self.name("t")
                out.append("{ %s %s = %s; %s += %d; printf(\"%%%s %%d %%d\\n\", (%slong)%s, (int)sizeof(%s), %s > -1); }" % (
                    n, v, max(-2147483647, rand_value(s, s.pick(["int", "short", "uchar"]))), v, s.int(-500, 500), "ld" if INTT[n] else "lu", "" if INTT[n] else "unsigned ", v, v, v))
        if "<stddef.h>" in std:
            self.feats.add("stddef")
            out.append("{ size_t n = %d; ptrdiff_t d = %d; wchar_t w = %d; char *p = NULL; printf(\"%%d %%d %%d %%d %%d\\n\", (int)n, (int)d, (int)w, p == NULL, !NULL); }"
                       % (s.int(0, 99999), s.int(-99999, 99999), s.int(0, 65535)))
        if "<stdbool.h>" in std:
            self.feats.add("stdbool")
            out += ["{ int t = true, f = false; printf(\"%d %d %d %d\\n\", t, f, true + true, __bool_true_false_are_defined); }",
                    s.pick(["#if true", "#if !false && true", "#if false"]), 'printf("on\\n");', "#else", 'printf("off\\n");', "#endif"]
        if "<stdlib.h>" in std:
            out.append('printf("%d %d\\n", EXIT_SUCCESS, NULL == 0);')
        return out


class C22(Prop):
    id = "C22"
    quick = 2000
    thorough = 50000
    rule = ("programs with object, function-like, variadic and self-referential macros (arguments with parenthesised commas, calls over several lines, "
            "stringification and pasting), #undef and redefinition, nested conditionals with arbitrary #if expressions and garbage in skipped groups, own "
            "headers (quoted and angle-bracket, in subdirectories, nested, guarded, included through a macro, X-macro lists), pragmas and __LINE__, and "
            "uses of the bundled headers (ctype functions over all of -1..255, every limit, every stdint type); compared with gcc with its own headers; 8% "
            "with one invalid directive, which has to make compilation fail; non-trivial: every case")
    assumptions = ["gcc's preprocessor and glibc's headers in the C locale", "is* results are compared as zero or not", "size_t and ptrdiff_t are int by design: only values are compared"]

    def gen(self, s):
        return PP(s).program()

    def check(self, case, t):
        inc = os.path.join(t.dir, "inc%d" % t.stats.get("pp", 0))
        t.bump("pp")
        files = dict(case.files)
        files["main.c"] = case.src
        import shutil, subprocess
        try:
            for k, v in files.items():
                t.write(os.path.join(inc, k), v)
            c = os.path.join(inc, "main.c")
            exe = t.path("ref")
            p = subprocess.run(["gcc", "-w", "-O0", "-std=gnu17", "-fwrapv", "-idirafter", inc, "-o", exe, c], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
            out = os.path.join(inc, "out.wasm")
            crc, msg = t.compile(c, out, case.flags)
            if p.returncode != 0:
                if not case.kw.get("bad"):
                    raise GenError("gcc rejects generated program: " + p.stderr.decode(errors="replace")[:1500])
                t.bump("rejected")
                if crc == 0:
                    return "accepts an invalid preprocessing directive: " + case.kw["bad"]
                if crc != 1 or os.path.exists(out):
                    return "invalid directive (%s): exit status %s, output file %s" % (case.kw["bad"], crc, "written" if os.path.exists(out) else "absent")
                return None
            exp, rc, err = t.run_native(exe)
            if rc is None or rc < 0:
                raise GenError("reference fails")
            if crc != 0:
                return "compiler exits with %s on a valid program: %s" % (crc, msg[:600])
            t.bump("programs_run")
            return compare(exp, rc, t.run_wasm(out, expect=exp))
        finally:
            shutil.rmtree(inc, ignore_errors=True)


PROP = C22
