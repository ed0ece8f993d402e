from ..engine import Prop, Case
from .common import *


class T:
    """kind: scalar ty | 'str' char* | 'ptr' ty* | arr (n, elem) | struct (name, members)"""
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)

    def size(self):
        if self.kind == "arr":
            return self.n * self.elem.size()
        if self.kind == "struct":
            return sum(m.size() for _, m in self.members)
        return 1


def decl(t, name, unsized=False):
    dims = ""
    while t.kind == "arr":
        dims += "[]" if unsized and not dims else "[%d]" % t.n
        t = t.elem
    if t.kind == "struct":
        b = "struct %s " % t.name
    elif t.kind == "str":
        b = "char *"
    elif t.kind == "ptr":
        b = "%s *" % SPELL[t.ty][0]
    else:
        b = t.sp + " "
    return b + name + dims


STR_PIECES = ["a", "bc", "xyz", "\\n", "\\0", "\\x41", "\\101", "\\\\", "\\\"", " ", "%", "9", "hello", "\\t", "'", "?", "//", "/*"]


class Prog:
    def __init__(self, s):
        self.s = s
        self.feats = set()
        self.n = 0
        self.structs = []
        self.sdefs = []
        self.addr = {}          # scalar type -> texts of constant addresses of objects of it
        self.cstr = ["0"]
        self.vs = []            # run-time operands for local initialisers
        self.top = []
        self.cost = 0

    def new(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def scalar(self):
        s = self.s
        ty = s.pick(INTS + ["double", "float", "char", "int", "int"])
        return T("scalar", ty=ty, sp=SPELL[ty][0] if ty == "char" else cname(s, ty))

    def chars(self):
        s = self.s
        ty = s.pick(["char", "char", "char", "uchar"])
        return T("scalar", ty=ty, sp="char" if ty == "char" else "unsigned char")

    def type(self, d, cap=40):
        s = self.s
        k = s.below(12)
        if d <= 0 or k < 3 or cap < 4:
            if s.chance(12):
                return T("str")
            if s.chance(12):
                return T("ptr", ty=s.pick(["int", "char", "long"]))
            return self.scalar()
        if cap >= 40 and s.chance(8):
            self.feats.add("large-array")
            return T("arr", n=s.int(17, 90), elem=self.scalar())
        if k < 5:
            return T("arr", n=s.int(1, min(8, cap)), elem=self.scalar())
        if k < 7:
            return T("arr", n=s.int(1, min(10, cap)), elem=self.chars())
        if k < 9:
            n = s.int(1, 4)
            return T("arr", n=n, elem=self.type(d - 1, cap // n))
        if self.structs and s.chance(50):
            return s.pick(self.structs)
        return self.struct(d, cap)

    def struct(self, d, cap):
        s = self.s
        m = s.int(1, 4)
        ms = [("m%d" % i, self.type(d - 1, cap // m)) for i in range(m)]
        st = T("struct", name=self.new("s"), members=ms)
        self.structs.append(st)
        self.sdefs.append("struct %s { %s };" % (st.name, " ".join(decl(t, n) + ";" for n, t in ms)))
        return st

    def string(self, maxlen):
        """a literal of at most maxlen characters (terminator not counted) and its length"""
        s = self.s
        out, n, prev = "", 0, ""
        for _ in range(s.int(0, 4)):
            p = s.pick(STR_PIECES)
            l = 1 if p[0] == "\\" else len(p)
            if n + l > maxlen:
                break
            if prev[:1] == "\\" and p[0] in "0123456789abcdefABCDEF":
                continue
            if "?" in p and out.endswith("?"):
                continue
            out, n, prev = out + p, n + l, p
        return '"%s"' % out, n

    def const(self, ty):
        s = self.s
        if isf(ty):
            return to_text(s, rand_any(s, ty), ty) if s.chance(80) else str(s.int(-20, 20))
        if s.chance(15):
            g = Gen(s, [], comma=False)
            e = g.expr(2)
            self.feats.add("const-expr")
            return e.at(2)
        if s.chance(5):
            return s.pick(["'a'", "'\\n'", "2.75", "3.0", "sizeof(int)"])
        return const_of(s, rand_value(s, ty)).at(2)

    def dyn(self, ty):
        s = self.s
        cand = [n for n, t in self.vs if isf(t) == isf(ty)] or ["a"]
        v = s.pick(cand)
        k = s.below(5)
        if isf(ty):
            return [v, v + " + 1", "a", v + " * 0.5", "b - a"][k]
        self.feats.add("dynamic")
        return [v, v + " + a", "id(%s)" % v, "%s ? %s : %d" % (v, s.pick(cand), s.int(0, 9)), "b - %s" % v][k]

    def init(self, t, const, d=0):
        """text of an initialiser"""
        s = self.s
        if t.kind == "scalar":
            if d and s.chance(3):
                self.feats.add("braced-scalar")
                return "{%s}" % self.const(t.ty)
            if const or s.chance(45):
                return self.const(t.ty)
            return self.dyn(t.ty)
        if t.kind == "str":
            self.feats.add("char-ptr")
            if s.chance(15):
                return s.pick(self.cstr)
            return self.string(30)[0]
        if t.kind == "ptr":
            self.feats.add("address")
            return s.pick(["0"] + self.addr.get(t.ty, []))
        if t.kind == "arr":
            if t.elem.kind == "scalar" and t.elem.ty in ("char", "uchar") and s.chance(65):
                txt, n = self.string(t.n)
                self.feats.add("string-exact" if n == t.n else "string-short")
                if s.chance(10):
                    self.feats.add("string-braced")
                    return "{%s}" % txt
                return txt
            m = t.n if t.n <= 10 and s.chance(45) else s.int(1, min(t.n, 10))
            if m < t.n:
                self.feats.add("partial-array")
            return self.list([self.init(t.elem, const, d + 1) for _ in range(m)])
        m = len(t.members) if s.chance(55) else s.int(1, len(t.members))
        if m < len(t.members):
            self.feats.add("partial-struct")
        return self.list([self.init(x, const, d + 1) for _, x in t.members[:m]])

    def list(self, xs):
        s = self.s
        return "{" + ", ".join(xs) + ("," if s.chance(12) else "") + "}"

    # ---- printing every element
    def dump(self, t, e, lv=0):
        s = self.s
        if t.kind == "scalar":
            return show(t.ty, e)
        if t.kind == "str":
            return 'if (%s) printf("%%s|\\n", %s); else printf("null\\n");' % (e, e)
        if t.kind == "ptr":
            return 'if (%s) printf("%%ld\\n", (long) *%s); else printf("null\\n");' % (e, e)
        if t.kind == "arr":
            i = "i%d" % lv
            return "for (%s = 0; %s < %d; %s++) { %s }" % (i, i, t.n, i, self.dump(t.elem, "%s[%s]" % (e, i), lv + 1))
        return " ".join(self.dump(m, "%s.%s" % (e, n), lv) for n, m in t.members)

    def modify(self, t, e, k=3):
        """statements changing some elements"""
        s = self.s
        out = []
        for _ in range(s.int(1, k)):
            x, u = e, t
            while u.kind in ("arr", "struct"):
                if u.kind == "arr":
                    x, u = "%s[%d]" % (x, s.below(u.n)), u.elem
                else:
                    n, u = s.pick(u.members)
                    x = x + "." + n
            if u.kind == "scalar":
                out.append("%s = %s;" % (x, self.const(u.ty)) if s.chance(60) else "%s += 3;" % x)
            elif u.kind == "str":
                out.append('%s = "mod";' % x)
            else:
                out.append("%s = 0;" % x)
        return " ".join(out)

    def addresses(self, t, e):
        """register constant addresses of parts of the global e"""
        s = self.s
        u, x = t, e
        if t.kind == "scalar":
            self.addr.setdefault(t.ty, []).append("&" + e)
            return
        while u.kind in ("arr", "struct"):
            if u.kind == "arr":
                if u.elem.kind == "scalar":
                    ty = u.elem.ty
                    self.addr.setdefault(ty, []).append(s.pick(["&%s[%d]" % (x, s.below(u.n)), x, "%s + %d" % (x, s.below(u.n))]))
                x, u = "%s[%d]" % (x, s.below(u.n)), u.elem
            else:
                n, u = s.pick(u.members)
                x = x + "." + n
        if u.kind == "scalar":
            self.addr.setdefault(u.ty, []).append("&" + x)

    def object(self, name, t, const, storage=""):
        """declaration text with or without initialiser"""
        s = self.s
        if t.kind == "struct" and not const and storage == "" and s.chance(10):
            same = [n for n, u in self.aggs if u is t]
            if same:
                self.feats.add("struct-copy")
                return "%s = %s;" % (decl(t, name), s.pick(same))
        ini = self.init(t, const)
        if t.kind == "arr" and ini.startswith(("{", '"')) and s.chance(35):
            # let the initialiser give the size of the first dimension
            n = self.count(ini, t)
            if n is not None:
                t.n = n
                self.feats.add("unsized")
                return storage + decl(t, name, True) + " = %s;" % ini
        return storage + decl(t, name) + " = %s;" % ini

    def count(self, ini, t):
        """number of elements the initialiser has at its top level"""
        depth, n, i, instr, any_ = 0, 0, 0, False, False
        if t.elem.kind == "scalar" and t.elem.ty in ("char", "uchar") and '"' in ini and "'" not in ini.split('"')[0]:
            return None if "\\" in ini else len(ini.strip("{},").strip('"')) + 1
        while i < len(ini):
            c = ini[i]
            if instr:
                if c == "\\":
                    i += 1
                elif c == instr:
                    instr = False
            elif c in "\"'":
                instr = c
                any_ = True
            elif c in "{([":
                depth += 1
            elif c in "})]":
                depth -= 1
            elif c == "," and depth == 1:
                n += 1
                any_ = False
            elif c not in " ":
                any_ = True
            i += 1
        # a trailing comma adds nothing
        if ini[:-1].rstrip().endswith(","):
            n -= 1
        return n + 1

    def function(self):
        """locals, statics and re-initialisation"""
        s = self.s
        f = self.new("f")
        body = ["int i0 = 0, i1 = 0, i2 = 0, i3 = 0, i4 = 0, k = 0;"]
        self.vs = [("a", "int"), ("b", "long"), ("ga", "int")]
        self.aggs = list(self.gaggs)
        dumps, mods = [], []
        for _ in range(s.int(1, 3)):
            t = self.type(s.int(0, 3))
            if t.size() > 100:
                t = self.scalar()
            x = self.new("x")
            k = s.below(10)
            if k < 5:
                body.append(self.object(x, t, False))
                if t.kind == "scalar":
                    self.vs.append((x, t.ty))
                elif t.kind == "struct":
                    self.aggs.append((x, t))
                dumps.append(self.dump(t, x))
                mods.append(self.modify(t, x))
            elif k < 7:
                self.feats.add("static-local")
                if s.chance(80):
                    body.append(self.object(x, t, True, "static "))
                else:
                    body.append("static %s;" % decl(t, x))
                dumps.append(self.dump(t, x))
                mods.append(self.modify(t, x))
            elif k < 9:
                self.feats.add("reinit")
                o = self.object(x, t, False)
                loop = s.pick(["for (k = 0; k < 3; k++) { %s }", "k = 0; do { %s k++; } while (k < 2);", "while (k++ < 2) { %s }"])
                body.append(loop % ("%s %s %s" % (o, self.dump(t, x), self.modify(t, x))))
            else:
                self.feats.add("nested-block")
                body.append("{ %s { %s %s } }" % ("dirty(3);" if s.chance(50) else "", self.object(x, t, False), self.dump(t, x)))
        order = s.below(3)
        body += dumps + mods if order else mods + dumps
        if s.chance(30):
            body.append("dirty(2);")
        body += dumps if order == 2 else []
        self.defs.append("void %s(int a, long b) {\n  %s\n}" % (f, "\n  ".join(body)))
        self.calls.append(f)

    def program(self):
        s = self.s
        self.defs, self.calls, gl, self.gaggs = [], [], [], []
        self.aggs = []
        objs = []
        late = []
        for _ in range(s.int(1, 5)):
            t = self.type(s.int(0, 3))
            if t.size() > 100:
                t = self.scalar()
            g = self.new("g")
            k = s.below(10)
            if k < 7:
                d = self.object(g, t, True, "static " if s.chance(15) else "")
                if s.chance(10) and not d.startswith("static") and "[]" not in d:
                    gl.append("extern %s;" % decl(t, g) if s.chance(50) else decl(t, g) + ";")
                    self.feats.add("redeclared")
                    if s.chance(50):
                        late.append(d)
                        d = None
                if d:
                    gl.append(d)
            else:
                gl += ["%s;" % decl(t, g)] * (2 if s.chance(15) else 1)
                self.feats.add("no-init")
            objs.append((g, t))
            if t.kind == "struct":
                self.gaggs.append((g, t))
            self.addresses(t, g)
            if t.kind == "arr" and t.elem.kind == "scalar" and t.elem.ty == "char" and t.n > 1:
                pass
        for _ in range(s.int(0, 3)):
            self.function()
        # dumping and modifying globals from different functions
        D = "void dump(void) {\n  int i0 = 0, i1 = 0, i2 = 0, i3 = 0, i4 = 0;\n  %s\n}" % "\n  ".join(self.dump(t, g) for g, t in objs)
        M = "void change(void) {\n  %s\n}" % "\n  ".join(self.modify(t, g, 2) for g, t in objs)
        parts = ["#include <stdio.h>", FLOAT_HELPERS, "int ga = 6;",
                 "int id(int x) { return x; }",
                 "int dirty(int n) { char buf[300]; int i = 0; for (i = 0; i < 300; i++) buf[i] = 90 + n; if (n > 0) return dirty(n - 1) + buf[n]; return buf[7]; }"]
        parts += self.sdefs + gl + self.defs + [D, M] + late
        body = ["dirty(3);", "dump();"]
        for f in self.calls:
            for _ in range(s.int(1, 3)):
                body.append("%s(%d, %d);" % (f, s.int(-5, 9), s.int(-5, 100)))
                if s.chance(40):
                    body.append("dirty(%d);" % s.int(0, 3))
        body += ["change();", "dump();"]
        for f in self.calls:
            body.append("%s(1, 2);" % f)
        parts.append("int main(void) {\n  %s\n  return 0;\n}" % "\n  ".join(body))
        return "\n".join(parts) + "\n"


def large(s):
    """string literals and scalar globals that fill a good part of memory: data, globals and the
    stack must still be where the code thinks they are"""
    total = s.pick([3, 9, 17, 31, 33, 40, 48]) * 1000 + s.int(0, 999)
    nlit = s.int(1, 4)
    lits = []
    for i in range(nlit):
        n = total // nlit + s.int(0, 9)
        piece = "".join(s.pick("abcdefghij 0123456789") for _ in range(s.pick([1, 7, 61])))
        lits.append((piece * (n // len(piece) + 1))[:n])
    g = ["#include <stdio.h>", "int ga = 17; long gb = 0x1122334455667788; short gc = -2; char gd = 'q'; double ge = 2.5;",
         "int z0; long z1; char z2; int arr[5] = {1, 2, 3}; struct { int a; char b[7]; } st = {9, \"hello\"};"]
    for i in range(s.below(40)):
        g.append("long h%d = %d;" % (i, s.int(-1000, 1000)))
    nh = len(g) - 3
    use, chk = [], []
    for i, l in enumerate(lits):
        k = s.below(3)
        if k == 0 or len(l) > 20000:
            g.append('char *p%d = "%s";' % (i, l))
        elif k == 1:
            use.append('char *p%d = "%s";' % (i, l))
        else:
            use.append('char *p%d = id("%s");' % (i, l))
        chk.append('printf("%%d %%d\\n", sum(p%d), len(p%d));' % (i, i))
        chk.append('printf("%%c%%c%%c\\n", p%d[0], p%d[%d], p%d[%d]);' % (i, i, len(l) // 2, i, len(l) - 1))
    g.append("char *id(char *p) { return p; }")
    g.append("int len(char *p) { int n = 0; while (*p) { p++; n++; } return n; }")
    g.append("int sum(char *p) { int n = 0; int i; for (i = 0; p[i]; i++) n = n * 31 + p[i]; return n; }")
    g.append("int deep(int n) { char buf[200]; int i; for (i = 0; i < 200; i++) buf[i] = n + i; if (n > 0) i = deep(n - 1); else i = 0; return i + buf[n] + buf[199 - n]; }")
    chk.append('printf("%d %ld %d %c %f %d %ld %d\\n", ga, gb, gc, gd, ge, z0, z1, z2);')
    chk.append('printf("%d %d %d %d %s\\n", arr[0], arr[2], arr[4], st.a, st.b);')
    chk.append(" ".join('printf("%%ld ", h%d);' % i for i in range(nh)))
    mod = "ga++; gb ^= 5; z0 -= 3; z1 += 7; z2 = 'c'; arr[4]++; st.b[0]++;"
    body = use + chk + ['printf("%%d\\n", deep(%d));' % s.int(1, 12)] + chk + [mod] + chk + ['printf("%%d\\n", deep(%d));' % s.int(1, 12)] + chk
    return "\n".join(g + ["int main(void) {"] + body + ["return 0;", "}"]) + "\n"


class C10(Prop):
    id = "C10"
    quick = 1500
    thorough = 25000
    rule = ("programs with 1-5 globals and 0-3 functions of locals, statics and re-entered blocks whose types are scalars, strings, pointers, "
            "nested arrays and structs, initialised by full, partial, braced, string, address, constant and run-time initialisers; every "
            "element is printed before main's work, after dirtying the stack and after modification; about 3% of the programs have 3 to 49 KB of string literals; non-trivial: some aggregate "
            "is initialised")
    assumptions = ["gcc -O0 gives the C behaviour of these well-defined programs"]

    def gen(self, s):
        if s.chance(3):
            return Case(large(s), {"large-literals"}, nontrivial=True)
        p = Prog(s)
        text = p.program()
        return Case(text, p.feats, nontrivial="{" in "".join(l for l in text.split("\n") if "= {" in l) or '= "' in text)


PROP = C10
