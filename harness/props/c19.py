import re
from ..engine import Prop, Case
from ..toolchain import FLAGS
from .common import *
from .c13 import string_text, char_spelling, rand_bytes

HEAD = """#include <stdio.h>
int n; int calls = 0;
int idi(int x) { calls++; return x; }
unsigned int idu(unsigned int x) { calls++; return x; }
long idl(long x) { calls++; return x; }
unsigned long idul(unsigned long x) { calls++; return x; }
double idd(double x) { calls++; return x; }
short idh(short x) { calls++; return x; }
char idc(char x) { calls++; return x; }
char *ids(char *x) { calls++; return x; }
"""
# conversion -> types of argument it takes (after promotion)
CONV = {"d": ["int", "char", "uchar", "short", "ushort"], "i": ["int", "char", "uchar", "short", "ushort"], "u": ["uint"],
        "hd": ["short", "int", "char", "ushort"], "hi": ["short", "int"], "hu": ["ushort", "int", "uchar", "short"],
        "ld": ["long"], "li": ["long"], "lu": ["ulong"], "c": ["int", "char", "uchar", "short"], "f": ["double", "float"], "s": ["str"]}
IDF = {"int": "idi", "uint": "idu", "long": "idl", "ulong": "idul", "double": "idd", "short": "idh", "char": "idc", "str": "ids"}


class Pf:
    def __init__(self, s):
        self.s = s
        self.glob, self.body, self.feats, self.k = [], [], set(), 0

    def name(self, p):
        self.k += 1
        return "%s%d" % (p, self.k)

    def float_value(self):
        s = self.s
        k = s.below(9)
        if k == 0:
            return rand_float(s, "double")
        if k == 1:  # just at, above and below a rounding boundary of the sixth place
            return (s.int(-2000, 2000) * 2 + 1) / 2.0 ** s.int(7, 9)
        if k == 2:
            return float(s.int(-10 ** 6, 10 ** 6)) * 10.0 ** s.int(-9, 3)
        if k == 3:
            return float(s.int(0, 10 ** 15)) / 10.0 ** s.int(0, 22)
        if k == 4:
            return s.pick([0.9999995, 0.9999994999, 999999.9999995, 0.0000005, 0.00000049999, -0.0000004, 9.9999999, 99.9999996, 0.5, 1e6, 1e7, 123456789.0, 4503599627370497.5])
        if k == 5:
            return float(s.int(-2 ** 40, 2 ** 40)) * 2.0 ** s.int(-60, 60)
        if k == 6:
            return s.pick([1e300, -1e300, 1.7976931348623157e308, 5e-324, 2.2250738585072014e-308, 1e22, 1e23, -1e17])
        if k == 7:
            return float(s.int(0, 9)) + s.int(0, 999999) / 1e6
        return s.int(-500, 500) / 4.0

    def str_arg(self):
        """an expression of type char * and what it points to never changes"""
        s = self.s
        n = s.weighted([(4, s.int(0, 6)), (3, s.int(0, 30)), (1, 0), (1, s.int(60, 300))])
        bs = [b for b in rand_bytes(s, n) if b != 0]
        if s.chance(25):
            pos = s.below(len(bs) + 1)
            bs[pos:pos] = [ord(c) for c in s.pick(["%d", "%s", "%%", "%c", "%", "\\n", "%ld%u", "%5"])]
            self.feats.add("percent-in-string")
        text = string_text(s, bs)
        k = s.below(8)
        if k < 3:
            return text
        v = self.name("s")
        if k == 3:
            self.glob.append("char *%s = %s;" % (v, text))
            return v
        if k == 4:
            self.glob.append("char %s[] = %s;" % (v, text))
            return v
        if k == 5 and len(bs) < 40:
            self.feats.add("local-array")
            self.body.append("char %s[%d];" % (v, len(bs) + 1 + s.below(3)))
            self.body += ["%s[%d] = %d;" % (v, i, b if b < 128 else b - 256) for i, b in enumerate(bs + [0])]
            return v
        if k == 6:
            self.feats.add("tail")
            self.glob.append("char *%s = %s;" % (v, string_text(s, [65] * s.int(1, 4) + bs)))
            return s.pick(["%s + %d" % (v, s.int(0, 1)), "&%s[1]" % v])
        return "(%s ? %s : %s)" % (s.pick(["n", "calls", "1", "0"]), text, '"' + s.pick(["", "other", "zz"]) + '"')

    def arg(self, conv):
        s = self.s
        ty = s.pick(CONV[conv])
        if ty == "str":
            t = self.str_arg()
        else:
            if isf(ty):
                v = self.float_value()
                if ty == "float":
                    v = f32(v) if abs(v) < 3e38 else 1.5
                txt = "(%s)" % float_text(v) if v < 0 else float_text(v)
                if ty == "float":
                    txt = "(float)%s" % txt
            else:
                v = rand_value(s, ty)
                if conv == "c":
                    v = s.pick([s.int(32, 126), s.int(1, 255), s.int(0, 9), rand_value(s, ty)])
                    v = wrap(v, ty)
                txt = const_in(s, v, ty)
                if ty in ("uint", "long", "ulong") or v == -2 ** 31 or s.chance(20):  # 2147483648 is a long
                    txt = "(%s)%s" % (cname(s, ty), txt if re.match(r"\w+$", txt) else "(%s)" % txt)
                if conv == "c" and 32 <= v < 127 and s.chance(50):
                    txt = "'%s'" % char_spelling(s, v, "'")
            k = s.below(8)
            if k < 3:
                t = txt
            elif k < 5:
                n = self.name("g")
                (self.glob if s.chance(50) else self.body).append("%s %s = %s;" % (cname(s, ty), n, txt))
                t = n
            elif k == 5:
                n = self.name("a")
                (self.glob if s.chance(50) else self.body).append("%s %s[2] = {%s, %s};" % (cname(s, ty), n, txt, txt))
                t = "%s[%d]" % (n, s.below(2))
            elif k == 6:
                n = self.name("b")
                self.body.append("%s %s = %s;" % (cname(s, ty), n, txt))
                t = s.pick(["*&%s", "(%s)", "%s++" if not isf(ty) else "+%s", "(n, %s)"]) % n
            elif ty in ("int", "uint", "long", "ulong", "double"):
                t = "(%s) %s (%s)%s" % (txt, s.pick(["+", "-"]) if isf(ty) else s.pick(["^", "&", "|"]), cname(s, ty), "0.0" if isf(ty) else s.pick(["0", "1", "255"]))
            else:
                t = txt
        if ty in IDF and s.chance(25):
            self.feats.add("call-argument")
            t = "%s(%s)" % (IDF[ty], t)
        return t

    def literal_text(self):
        s = self.s
        bs = [b for b in rand_bytes(s, s.weighted([(3, 0), (5, s.int(1, 4)), (2, s.int(1, 20))])) if b != 0]
        out = []
        for b in bs:
            out += [b, b] if b == 37 else [b]
        return out

    def call(self):
        s = self.s
        nargs = s.weighted([(2, 1), (2, 0), (4, s.int(1, 4)), (2, s.int(1, 9)), (1, s.int(8, 30))])
        fmt, args = self.literal_text(), []
        convs = list(CONV)
        only = s.chance(20) and s.pick(convs)
        for _ in range(nargs):
            c = only or s.pick(convs)
            self.feats.add(c)
            a = self.arg(c)
            fmt += [37] + [ord(x) for x in c] + self.literal_text()
            if s.chance(15):
                fmt += [37, 37]
                self.feats.add("%%")
            args.append(a)
        if s.chance(30):
            fmt.append(10)
        f = string_text(s, fmt)
        k = s.below(8)
        if k == 0:
            v = self.name("f")
            self.glob.append(s.pick(["char *%s = %s;", "char %s[] = %s;"]) % (v, f))
            f = v
            self.feats.add("format-variable")
        elif k == 1:
            f = "ids(%s)" % f
        elif k == 2:
            v = self.name("f")
            self.body.append(s.pick(["char %s[] = %s;", "char *%s = %s;"]) % (v, f))
            f = v
            self.feats.add("format-local")
        if nargs >= 8:
            self.feats.add("many-arguments")
        return "printf(%s)" % ", ".join([f] + args), nargs

    def program(self):
        s = self.s
        for _ in range(s.int(1, 8)):
            c, n = self.call()
            k = s.below(7)
            if k < 3:
                self.body.append("n = %s; printf(\"<%%d>\\n\", n);" % c)
            elif k == 3:
                self.body.append("%s;" % c)
            elif k == 4:
                self.feats.add("nested")
                self.body.append('printf("[%%d]\\n", %s);' % c)
            elif k == 5:
                self.body.append("if (%s > %d) printf(\"yes\\n\"); else printf(\"no\\n\");" % (c, s.int(0, 12)))
            else:
                self.feats.add("in-function")
                f = self.name("fn")
                i = len(self.body)
                # variables of main stay in main: a separate function for an independent call
                sub = Pf(s)
                sub.k = self.k
                c2, _ = sub.call()
                self.k = sub.k + 1
                self.glob += sub.glob
                self.feats |= sub.feats
                self.glob.append("int %s(int p, long q) { int n = 0; %s\nn = %s; printf(\"(%%d,%%ld)\", p, q); return n; }" % (f, "\n".join(sub.body), c2))
                self.body.append("n = %s(%d, %d); printf(\"<%%d>\\n\", n);" % (f, s.int(-9, 9), s.int(-9, 9)))
                self.body.append("n = %s;" % c)
        text = HEAD + "\n".join(self.glob) + "\nint main(void) {\n" + "\n".join(self.body) + '\nprintf("%d\\n", calls);\nreturn 0;\n}\n'
        return Case(text, self.feats, flags=[f for f in FLAGS if s.chance(10)])


class C19(Prop):
    id = "C19"
    quick = 1500
    thorough = 60000
    rule = ("1 to 8 printf calls with 0 to 30 arguments over the conversions d i u hd hi hu ld li lu c s f and %%, formats and strings of arbitrary bytes "
            "(from literals, arrays, pointers, calls), arguments of every promoting type at boundary values given as constants, variables, elements and "
            "calls; also the return value, calls nested in arguments and conditions, and calls from other functions; compared with gcc's output byte by "
            "byte; non-trivial: every case")
    assumptions = ["gcc/glibc printf in the C locale", "NaN is not printed (the sign C prints is unspecified)"]

    def gen(self, s):
        return Pf(s).program()


PROP = C19
