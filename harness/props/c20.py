from ..engine import Prop, Case
from ..toolchain import FLAGS
from .common import *
from .c13 import string_text, rand_bytes

HEAD = """#include <stdio.h>
#include <stdlib.h>
#include <string.h>
char *h; char *m; char *e; char *end; int n; long l; unsigned long u; double d; short w;
struct P { int pad; char *end; long v; }; struct P sp;
char *ends[3];
char *ids(char *x) { n++; return x; }
int idb(int x) { n++; return x; }
int len2(char *p) { return (int)strlen(p) * 2; }
int count(char *hay, char *needle) { int k = 0; char *p = strstr(hay, needle); while (p) { k++; if (*p == 0) break; p = strstr(p + 1, needle); } return k; }
int sum(char *p, int base) { long r = 0; char *q; int k = 0; while (k < 20) { long v = strtol(p, &q, base); if (q == p) break; r = r ^ v; p = q; k++; }
  printf("%d %ld ", k, r); return k; }
"""
DIG = "0123456789abcdefghijklmnopqrstuvwxyz"


def digits(v, base):
    if v == 0:
        return "0"
    out = ""
    while v:
        out = DIG[v % base] + out
        v //= base
    return out


class Str:
    def __init__(self, s):
        self.s = s
        self.glob, self.body, self.feats, self.k, self.args = [], [], set(), 0, []

    def name(self, p):
        self.k += 1
        return "%s%d" % (p, self.k)

    def place(self, bs):
        """an expression pointing at the bytes bs followed by a NUL"""
        s = self.s
        k = s.below(12)
        if len(bs) > 200:
            k = s.pick([0, 3, 0])
        if k < 3:
            return string_text(s, bs)
        v = self.name("s")
        if k == 3:
            self.glob.append("char *%s = %s;" % (v, string_text(s, bs)))
            return v
        if k == 4:
            self.glob.append("char %s[] = %s;" % (v, string_text(s, bs)))
            return v
        if k == 5:
            self.body.append("char %s[] = %s;" % (v, string_text(s, bs)))
            return v
        if k == 6:  # followed by other bytes
            self.feats.add("embedded-nul")
            return string_text(s, bs + [0] + rand_bytes(s, s.int(1, 6)))
        if k == 7:  # an array filled at run time, at either end of it
            self.feats.add("run-time-array")
            pre, post = s.int(0, 5), s.int(0, 3)
            (self.glob if s.chance(50) else self.body).append("char %s[%d];" % (v, pre + len(bs) + 1 + post))
            self.body += ["%s[%d] = %d;" % (v, pre + i, b if b < 128 else b - 256) for i, b in enumerate(bs + [0])]
            return "%s + %d" % (v, pre)
        if k == 8:
            self.feats.add("tail")
            pre = rand_bytes(s, s.int(1, 5))
            self.glob.append("char *%s = %s;" % (v, string_text(s, pre + bs)))
            return s.pick(["(%s + %d)", "&%s[%d]", "ids(%s + %d)"]) % (v, len(pre))
        if k == 9 and all(0 < b < 128 for b in bs) and len(self.args) < 6:
            self.feats.add("argument")
            self.args.append("".join(map(chr, bs)))
            return "argv[%d]" % len(self.args)
        if k == 10:
            self.feats.add("struct-member")
            self.glob.append("struct T%s { char c; char a[%d]; int i; }; struct T%s %s;" % (v, len(bs) + 1, v, v))
            self.body += ["%s.a[%d] = %d;" % (v, i, b if b < 128 else b - 256) for i, b in enumerate(bs + [0])]
            return v + ".a"
        self.body.append("char *%s = %s;" % (v, string_text(s, bs)))
        return s.pick(["%s", "ids(%s)"]) % v

    def some(self, hi=12):
        s = self.s
        k = s.below(6)
        n = s.pick([0, 1, 2, s.int(0, hi), s.int(0, 40), s.int(0, hi)])
        if k < 3:
            ab = s.pick([[97, 98], [97], [97, 98, 99], [255, 128, 1], [97, 65], [195, 169, 97], [46, 42, 92, 36], [91, 40, 63, 43]])
            return [s.pick(ab) for _ in range(n)]
        if k == 3:
            u = [s.int(97, 99) for _ in range(s.int(1, 4))]
            return (u * 40)[:n]
        return [b or 7 for b in rand_bytes(s, n)]

    def strstr(self):
        s = self.s
        hay = self.some(20)
        if s.chance(8):
            hay = [s.int(97, 98) for _ in range(s.int(200, 1200))]
            self.feats.add("long")
        k = s.below(8)
        if k < 2 and hay:
            i = s.below(len(hay))
            nd = hay[i:i + s.int(0, 6)]
        elif k == 2 and hay:
            i = s.below(len(hay))
            nd = hay[i:i + s.int(1, 6)] + [s.int(97, 99)]
        elif k == 3:
            nd = self.some(4)
            hay = hay + nd
        elif k == 4:
            nd = []
        elif k == 5:
            nd = self.some(4)
            hay = nd[:-1] + nd[:-1] + nd + hay
        elif k == 6:
            nd = list(hay)
            if s.chance(50):
                nd.append(s.int(97, 99))
            elif nd and s.chance(50):
                nd[-1] = nd[-1] % 255 + 1
        else:
            nd = self.some(4)
        h, m = self.place(hay), self.place(nd)
        j = s.below(6)
        if j < 3:
            self.body.append('h = %s; m = %s; e = strstr(h, m); printf("%%d\\n", e ? (int)(e - h) : -1);' % (h, m))
        elif j == 3:
            self.body.append('h = %s; printf("%%d\\n", count(h, %s));' % (h, m))
        elif j == 4:
            self.body.append('if (strstr(%s, %s)) printf("yes\\n"); else printf("no\\n");' % (h, m))
        else:
            self.body.append('h = %s; e = strstr(h, %s); if (e != NULL) { printf("<%%s> %%d\\n", e, (int)strlen(e)); } else printf("none\\n");' % (h, m))

    def strlen(self):
        s = self.s
        bs = self.some(20)
        if s.chance(10):
            bs = [s.int(1, 255) for _ in range(s.int(250, 1500))]
            self.feats.add("long")
        p = self.place(bs)
        self.body.append(s.pick(['printf("%%d\\n", (int)strlen(%s));', 'n = strlen(%s); printf("%%d\\n", n);', 'l = strlen(%s); printf("%%ld\\n", l);',
                                 'd = strlen(%s); printf("%%f\\n", d);', 'printf("%%d\\n", len2(%s));', 'n = strlen(%s) * 3 - 1; printf("%%d\\n", n);',
                                 'if (strlen(%s) > 5) printf("long\\n"); else printf("short\\n");']) % p)

    def number(self, base):
        """text of roughly a number in the given base (0: as in C)"""
        s = self.s
        b = base or s.pick([10, 10, 8, 16])
        k = s.below(12)
        if k < 3:
            v = abs(rand_value(s, s.pick(INTS)))
        elif k < 6:
            v = s.pick([2 ** 63, 2 ** 64, 2 ** 31, 2 ** 32, 2 ** 53, 2 ** 128]) + s.int(-2, 2)
        elif k == 6:
            v = s.below(2 ** 70 if s.chance(50) else 2 ** 64)
        elif k == 7:
            v = b ** s.int(1, 25) - s.int(0, 1)
        elif k == 8:
            v = s.int(0, 10 ** 30)
        else:
            v = s.int(0, 1000)
        t = "0" * s.pick([0, 0, 0, 1, 4, 30]) + digits(v, b)
        t = "".join(c.upper() if s.chance(30) else c for c in t)
        if s.chance(15):
            i = s.below(len(t) + 1)
            t = t[:i] + s.pick("0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ.-+_ :@[`{/\x7f\x80\xb2\xff") + t[i:]
        if s.chance(40 if base in (0, 16) else 8):
            t = s.pick(["0x", "0X", "x", "0x0x", "0xg", "00x"]) + t
            self.feats.add("prefix")
        elif base == 0 and b == 8:
            t = "0" + t
        if s.chance(6):
            t = s.pick(["", "0x", "0", "0X", "0xg", "x1", "-", "+", "0b101", "08", "09", "0x-1", " ", "z", "_1"])
        sign = s.pick(["", "", "", "-", "-", "+", "--", "+-", "- "])
        ws = "".join(s.pick(" \t\n\v\f\r") for _ in range(s.pick([0, 0, 0, 1, 2, 6]))) + s.pick([""] * 12 + ["\x85", "\xa0", "\x08", "\x0e", "\x1f"])
        tail = s.pick(["", "", "", " ", ".5", "e3", "L", "u", " 12", "zz", "Z", "@", "/", ":", "`", "{", "G", "g", "\x80", "\xff"])
        return [ord(c) for c in ws + sign + t + tail]

    def strto(self):
        s = self.s
        base = s.weighted([(4, 10), (4, 0), (4, 16), (2, 8), (2, 2), (1, 36), (5, s.int(2, 36))])
        self.feats.add("base:%d" % base)
        un = s.chance(45)
        fn = "strtoul" if un else "strtol"
        self.feats.add(fn)
        bt = s.pick(["%d", "%d", "idb(%d)", "(char)%d", "%d + 0 * n", "(short)%d"]) % base
        if s.chance(12):  # several numbers in a row
            bs = []
            for _ in range(s.int(1, 4)):
                bs += self.number(base) + [32]
            self.body.append('h = %s; sum(h, %s); printf("\\n");' % (self.place(bs), bt))
            return
        bs = self.number(base)
        p = self.place(bs)
        var, f = ("u", "%lu") if un else ("l", "%ld")
        k = s.below(8)
        endx = s.pick(["end", "end", "end", "ends[%d]" % s.below(3), "sp.end", "le"])
        if k < 4:
            pre = "char *le = h; " if endx == "le" else ""
            self.body.append('{ %sh = %s; %s = %s(h, &%s, %s); printf("%s %%d\\n", %s, (int)(%s - h)); }' % (pre, p, var, fn, endx, bt, f, var, endx))
        elif k == 4:
            self.body.append('printf("%s\\n", %s(%s, NULL, %s));' % (f, fn, p, bt))
        elif k == 5:
            self.body.append('n = %s(%s, %s, %s); printf("%%d\\n", n);' % (fn, p, s.pick(["NULL", "0", "(char **)0", "&end"]), bt))
        elif k == 6:
            self.body.append('sp.pad = 77; sp.v = 5; sp.v = %s(%s, &sp.end, %s); printf("%%ld %%d <%%s>\\n", sp.v, sp.pad, sp.end);' % (fn, p, bt))
        else:
            self.body.append('d = %s(%s, NULL, %s); w = %s(%s, NULL, %s); printf("%%f %%hd\\n", d, w);' % (fn, p, bt, fn, p, bt))

    def program(self):
        s = self.s
        for _ in range(s.int(1, 14)):
            k = s.below(8)
            if k < 2:
                self.strlen()
            elif k < 4:
                self.strstr()
            else:
                self.strto()
        body = "\n".join(self.body)
        if s.chance(25):
            self.feats.add("in-function")
            body = "return work(argv, 3);\n}\n"
            src = "int work(char **argv, int x) {\n" + "\n".join(self.body) + "\nreturn x;\n}\nint main(int argc, char **argv) {\n" + body
        else:
            src = "int main(int argc, char **argv) {\n" + body + "\nreturn 0;\n}\n"
        text = HEAD + "\n".join(self.glob) + "\n" + src
        return Case(text, self.feats, args=self.args, flags=[f for f in FLAGS if s.chance(10)])


class C20(Prop):
    id = "C20"
    quick = 900
    thorough = 50000
    rule = ("1 to 14 calls of strlen, strstr, strtol and strtoul on strings of arbitrary non-zero bytes placed in literals, global, local and member arrays, "
            "filled at run time, tails of strings and arguments: lengths 0 to 1500; needles cut from the haystack, nearly in it, periodic, empty; numbers in "
            "bases 0 and 2 to 36 around the limits of the types with white space, signs, prefixes, foreign digits and trailing text, with every kind of end "
            "pointer; compared with gcc/glibc; non-trivial: every case")
    assumptions = ["glibc in the C locale gives the C behaviour", "bases other than 0 and 2..36 are outside the contract"]

    def gen(self, s):
        return Str(s).program()


PROP = C20
