from ..engine import Prop, Case, reference, run_one
from ..toolchain import FLAGS
from .common import *
from .c13 import string_text, rand_bytes

HEAD = """#include <stdio.h>
#include <stdlib.h>
#include <string.h>
char **gv; int gc; long total = 0;
struct A { int n; char **v; char *first; }; struct A ga;
char buf[300];
void bytes(char *p) { while (*p) { printf("%d ", *p); p++; } printf("\\n"); }
void dump(int c, char **v) { printf("%d:", c); for (int i = 1; i < c; i++) printf(" [%s]", v[i]); printf("\\n"); }
int deep(int k) { int a[6]; a[0] = k; a[5] = k * 3; if (k > 0) { a[1] = deep(k - 1); } else { a[1] = 7; } return a[0] + a[1] + a[5]; }
int sumlen(char **v) { int r = 0; while (*v) { r += (int)strlen(*v); v++; } return r; }
void copy(char *d, char *s) { while ((*d++ = *s++)) ; }
void rev(char *p) { int i = 0, j = (int)strlen(p) - 1; while (i < j) { char t = p[i]; p[i] = p[j]; p[j] = t; i++; j--; } }
int same(char *a, char *b) { while (*a && *a == *b) { a++; b++; } return *a == *b; }
"""


class Args:
    def __init__(self, s):
        self.s, self.feats, self.k = s, set(), 0

    def arg(self):
        s = self.s
        k = s.below(12)
        if k < 3:
            return "".join(chr(s.int(97, 122)) for _ in range(s.int(1, 8)))
        if k < 5:
            return str(rand_value(s, s.pick(["int", "long", "short", "char"])))
        if k == 5:
            self.feats.add("empty-arg")
            return ""
        if k == 6:
            return s.pick(["-h", "--help", "-", "--", "-e", "--eval=1", "-p", "--version", "%d", "%s%s", "\\n", "a b", " ", "\t", "a\nb", "'", '"', "$HOME", "*", "~", "\x7f",
                           "--noopt-tailcall", "\x01", "=", "a=b", "/", "..", "\r"])
        if k == 7:
            self.feats.add("unicode")
            return "".join(s.pick(["\u00e9", "\u00df", "\u20ac", "\U0001F600", "\u0301", "a", "\u4e2d", "\ufeff", "\x80", "\uffff", "\U0010ffff"]) for _ in range(s.int(1, 6)))
        if k == 8:
            self.feats.add("long-arg")
            return "".join(chr(s.int(33, 126)) for _ in range(s.int(60, 900)))
        if k == 9:
            return "".join(chr(s.int(1, 126)) for _ in range(s.int(0, 12)))
        if k == 10:
            return "".join(s.pick("ab") for _ in range(s.int(0, 9)))
        return s.pick("abcxyz0123456789")

    def status(self):
        s = self.s
        k = s.below(6)
        if k == 0:
            return str(s.int(0, 3))
        if k == 1:
            return str(s.int(-300, 600))
        if k == 2:
            return "%d" % rand_value(s, "int") if s.chance(80) else s.pick(["-1", "255", "256", "257", "-256", "-255", "128", "2147483647"])
        if k == 3:
            return s.pick(["argc", "argc * 37", "-argc", "gc", "sumlen(argv + 1)", "(char)(argc + 200)", "(long)argc + 4294967296", "argc > 2", "ga.n"])
        if k == 4:
            return "%d.%d" % (s.int(0, 300), s.int(0, 9))
        return "deep(%d)" % s.int(0, 40)

    def stmt(self):
        s = self.s
        k = s.below(20)
        i = s.int(1, 4)
        f = self.feats
        if k < 3:
            return "dump(argc, argv);"
        if k == 3:
            return "for (int i = 1; i < argc; i++) { printf(\"%d \", (int)strlen(argv[i])); bytes(argv[i]); }"
        if k == 4:
            return 'printf("%d %d\\n", argc, argv[argc] == NULL);'
        if k == 5:
            f.add("walk")
            return "{ char **p = argv + 1; while (*p) { printf(\"<%s>\", *p); p++; } printf(\"\\n\"); }"
        if k == 6:
            f.add("shift")
            return "if (argc > 1) { argc--; argv++; argv[0][0] == 0; }" if False else "if (argc > 2) { argc--; argv++; }"
        if k == 7:
            f.add("modify")
            return s.pick(["if (argc > %d) { rev(argv[%d]); }", "if (argc > %d && *argv[%d]) { argv[1][0] = 'Q'; }" if i == 1 else "if (argc > %d) { rev(argv[%d]); }"]) % (i, i)
        if k == 8:
            f.add("swap")
            return "if (argc > 2) { char *t = argv[1]; argv[1] = argv[2]; argv[2] = t; }"
        if k == 9:
            return 'printf("%%d %%d\\n", sumlen(argv + 1), deep(%d));' % s.int(0, 60)
        if k == 10:
            return "for (int i = 1; i < argc; i++) { total += strtol(argv[i], NULL, %d); } printf(\"%%ld\\n\", total);" % s.pick([0, 10, 16])
        if k == 11:
            return 'for (int i = 1; i < argc; i++) { printf("%%d ", strstr(argv[i], "%s") != NULL); } printf("\\n");' % s.pick("ab0-")
        if k == 12:
            f.add("clobber")
            n = s.int(1, 299)
            return "{ for (int i = 0; i < %d; i++) buf[i] = i * 7; long a[%d]; for (int i = 0; i < %d; i++) a[i] = -1; dump(argc, argv); }" % (n, 20, 20)
        if k == 13:
            return "if (argc > %d && strlen(argv[%d]) < 290) { copy(buf, argv[%d]); rev(buf); bytes(buf); printf(\"%%d\\n\", same(buf, argv[%d])); }" % (i, i, i, i)
        if k == 14:
            f.add("recursive-main")
            return "if (gc++ < %d) { int r = main(argc > 1 ? argc - 1 : argc, argc > 1 ? argv + 1 : argv); printf(\"r=%%d\\n\", r); }" % s.int(1, 3)
        if k == 15:
            return "gv = argv; ga.n = argc; ga.v = argv; ga.first = argv[argc - 1]; if (argc > 1) printf(\"%s %d\\n\", ga.first, ga.v == gv);"
        if k == 16:
            return "for (int i = 1; i + 1 < argc; i++) { printf(\"%d\", same(argv[i], argv[i + 1])); } printf(\"\\n\");"
        if k == 17:
            f.add("vla")
            return "{ int v[argc]; for (int i = 0; i < argc; i++) v[i] = i ? (int)strlen(argv[i]) : 0; long t = 0; for (int i = 0; i < argc; i++) t = t * 3 + v[i]; printf(\"%ld\\n\", t); dump(argc, argv); }"
        if k == 18:
            return "{ char *l[2]; l[0] = argv[argc - 1]; l[1] = NULL; if (argc > 1) printf(\"%d %s\\n\", sumlen(l), l[0]); }"
        return "for (int i = argc - 1; i > 0; i--) { char *p = argv[i]; while (*p) { if (*p == '%s') printf(\"%%d.%%d \", i, (int)(p - argv[i])); p++; } } printf(\"\\n\");" % s.pick("ab0-")

    def program(self):
        s = self.s
        args = [self.arg() for _ in range(s.weighted([(2, 0), (3, 1), (5, s.int(1, 5)), (2, s.int(3, 12)), (1, s.int(20, 80))]))]
        while sum(map(len, args)) > 4000:
            args.pop()
        glob = []
        for i in range(s.pick([0, 0, 1, 2, 6])):
            self.feats.add("globals")
            k = s.below(5)
            n = s.int(1, 40)
            if k == 0:
                glob.append("char x%d[] = %s;" % (i, string_text(s, rand_bytes(s, n))))
            elif k == 1:
                glob.append("char *x%d = %s;" % (i, string_text(s, rand_bytes(s, n * 5))))
            elif k == 2:
                glob.append("int x%d[%d] = {%s};" % (i, n, ", ".join(str(rand_value(s, "int")) for _ in range(n))))
            elif k == 3:
                glob.append("double x%d[%d];" % (i, n * 20))
            else:
                glob.append("char *x%d[%d] = {%s};" % (i, n, ", ".join('"z%d"' % j for j in range(n))))
        if s.chance(10):
            self.feats.add("no-parameters")
            # nothing may be done to the arguments
            body = ['printf("%%d\\n", deep(%d));' % s.int(0, 50)]
            st = self.status()
            if "arg" in st:
                st = "7"
            head = s.pick(["int main(void) {", "int main() {"])
        else:
            body = [self.stmt() for _ in range(s.int(1, 7))]
            st = self.status()
            head = s.pick(["int main(int argc, char **argv) {", "int main(int argc, char *argv[]) {"])
        if s.chance(20):
            ret = ""
            self.feats.add("no-return")
        elif s.chance(20):
            ret = "if (argc > 2) return %s; return %s;" % (self.status(), st) if "argc" in head else "return %s;" % st
        else:
            ret = "return %s;" % st
        text = HEAD.replace("char **gv", "int main(%s); char **gv" % ("int argc, char **argv" if "argc" in head else "void")) \
            + "\n".join(glob) + "\n" + head + "\n" + "\n".join(body) + "\n" + ret + "\n}\n"
        return Case(text, self.feats, args=args, flags=[f for f in FLAGS if s.chance(10)], real=s.chance(60))


class C21(Prop):
    id = "C21"
    quick = 1000
    thorough = 30000
    rule = ("0 to 80 command-line arguments (numbers, option-like, empty, white space, control characters, non-ASCII, up to 900 bytes) given to programs that "
            "print, measure, search, reverse, swap and shift them, walk argv to its null pointer, call main again, with large globals, deep calls, arrays "
            "and writes to globals in between, and return statuses over the whole range of int and converted from other types; 60% through a real node "
            "runtime/run.mjs process; compared with a native process's output and exit status; non-trivial: at least one argument or a status other than 0")
    assumptions = ["arguments are valid UTF-8 (node decodes them)", "argv[0] is left out: it names the program"]

    def gen(self, s):
        return Args(s).program()

    def check(self, case, t):
        case.args = [a if isinstance(a, str) else a for a in case.args]
        exp, rc = reference(case, t)
        case.nontrivial = bool(case.args) or rc != 0
        f, _ = run_one(case, t, exp, rc, real=case.kw["real"])
        return f


PROP = C21
