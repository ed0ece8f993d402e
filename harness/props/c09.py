from ..engine import Prop, Case
from .common import *


class X:
    """expression with the objects it reads and writes (IO: output order)"""
    __slots__ = ("t", "p", "R", "W", "ty", "fx")

    def __init__(self, t, p, R=(), W=(), ty="i", fx=0):
        self.t, self.p, self.R, self.W, self.ty, self.fx = t, p, frozenset(R), frozenset(W), ty, fx

    def at(self, p):
        return self.t if self.p >= p else "(" + self.t + ")"


class Conflict(Exception):
    pass


def apart(*xs):
    """unsequenced or indeterminately sequenced operands must not conflict"""
    for i in range(len(xs)):
        for j in range(i + 1, len(xs)):
            a, b = xs[i], xs[j]
            if a.W & (b.R | b.W) or b.W & a.R:
                raise Conflict()


HELP = """
int t(int k) { printf("t%d\\n", k); return k; }
int tz(int k) { printf("z%d\\n", k); return 0; }
int bump(void) { g0 += 3; printf("bump\\n"); return g0; }
long bumpl(long by) { g1 = g1 * 2 + by; printf("bl\\n"); return g1; }
int setp(int *q, int v) { printf("setp\\n"); *q = v; return v / 2; }
int sum3(int a, long b, char c) { return a * 100 + b * 10 + c; }
int readg(void) { return g0 * 2 + (int) g1; }
"""


class Prog:
    def __init__(self, s):
        self.s = s
        self.feats = set()
        self.k = 0
        self.vars = []
        self.n = 0
        self.pmoves = {}
        self.count = 0

    def j(self, *xs, extra=0):
        R = frozenset().union(*[x.R for x in xs])
        W = frozenset().union(*[x.W for x in xs])
        return R, W, sum(x.fx for x in xs) + extra

    # ---- lvalues: (X of address computation, text, prec, object, type)
    def lval(self, d):
        s = self.s
        k = s.below(14)
        if k < 6:
            n, ty = s.pick(self.vars)
            return X("", PRIM), n, PRIM, n, ty
        if k < 9:
            ar, ty = s.pick(self.arrs)
            i = self.expr(d - 1) if s.chance(60) and d > 0 else X(str(s.below(4)), PRIM)
            if i.ty == "f":
                i = X("0", PRIM)
            self.feats.add("lv-index-fx" if i.fx else "lv-index")
            return i, "%s[%s]" % (ar, i.t if len(i.t) == 1 and i.t in "0123" else i.at(8) + " & 3" if i.p >= 8 else "(" + i.t + ") & 3"), POST, ar, ty
        if k < 12:
            p, ar, ty = s.pick(self.ptrs)
            m = s.below(6)
            if m < 2 or self.pmoves.get(p, 0) >= 2:
                return X("", PRIM, [p]), "*" + p, UN, ar, ty
            self.pmoves[p] = self.pmoves.get(p, 0) + 1
            self.feats.add("ptr-move")
            f = ["*%s++", "*++%s", "*%s--", "*--%s"][m - 2]
            return X("", PRIM, [p], [p], fx=1), f % p, UN, ar, ty
        if k < 13:
            m, ty = s.pick([("i", "int"), ("c", "uchar"), ("l", "long")])
            self.feats.add("member")
            if s.chance(50):
                return X("", PRIM), "st." + m, POST, "st." + m, ty
            if s.chance(50) and self.pmoves.get("ps", 0) < 1:
                self.pmoves["ps"] = 1
                return X("", PRIM, ["ps"], ["ps"], fx=1), "ps++->" + m, POST, "sa", ty
            return X("", PRIM, ["ps"]), "ps->" + m, POST, "sa", ty
        return X("", PRIM), s.pick(["d0", "d1"]), PRIM, None, "double"

    def lv(self, d):
        a, t, p, o, ty = self.lval(d)
        if o is None:
            o = t
        return a, t, p, o, ty

    def cls(self, ty):
        return "f" if isf(ty) else "i"

    def leaf(self):
        s = self.s
        if s.chance(65):
            n, ty = s.pick(self.vars)
            return X(n, PRIM, [n])
        if s.chance(15):
            return X(s.pick(["readg()", "st.l", "st.i"]), POST, ["g0", "g1", "st.l", "st.i"])
        v = s.pick([0, 1, 2, 3, 5, 7, -1, 100, 255, 65536])
        return X(str(v), PRIM if v >= 0 else UN)

    def expr(self, d):
        save = (dict(self.pmoves), self.k)
        for _ in range(6):
            try:
                return self.expr1(d)
            except Conflict:
                self.pmoves, self.k = dict(save[0]), save[1]
        return self.leaf()

    def iexpr(self, d):
        for _ in range(4):
            e = self.expr(d)
            if e.ty == "i":
                return e
        return self.leaf()

    def trace(self):
        self.k += 1
        if self.s.chance(30):
            return X("tz(%d)" % self.k, POST, [], ["IO"], fx=1)
        return X("t(%d)" % self.k, POST, [], ["IO"], fx=1)

    def expr1(self, d):
        s = self.s
        self.count += 1
        if self.count > 400:
            return self.leaf()
        if d <= 0:
            return self.leaf()
        k = s.below(40)
        if k < 3:
            return self.leaf()
        if k < 7:
            return self.trace()
        if k < 12:                                  # ++ / --
            a, t, p, o, ty = self.lv(d - 1)
            if o in a.W or o in a.R:
                raise Conflict()
            op = s.pick(["++", "--"])
            post = s.chance(50)
            self.feats.add(("post" if post else "pre") + op + ty)
            if post:
                txt, pr = (t if p >= POST else "(" + t + ")") + op, POST
            else:
                txt, pr = op + (t if p >= UN else "(" + t + ")"), UN
            return X(txt, pr, a.R | {o}, a.W | {o}, self.cls(ty), a.fx + 1)
        if k < 20:                                  # assignment
            a, t, p, o, ty = self.lv(d - 1)
            op = s.weighted([(5, "="), (2, "+="), (2, "-="), (2, "*="), (1, "/="), (1, "%="), (1, "&="), (1, "|="), (1, "^="),
                             (1, "<<="), (1, ">>=")])
            if isf(ty) and op not in ("=", "+=", "-=", "*=", "/="):
                op = "="
            e = self.expr(d - 1) if isf(ty) else self.iexpr(d - 1)
            if isf(ty) and op == "=" and e.ty == "i" and s.chance(30):
                e = X(s.pick(["1.5", "0.25", "1e10"]), PRIM, ty="f")
            if op in ("/=", "%="):
                e = self.mask(e, 7, 1) if e.ty == "i" else X("2.0", PRIM, ty="f")
            elif op in ("<<=", ">>="):
                e = self.mask(e, 7)
            apart(a, e)
            if o in a.W or o in e.W:
                raise Conflict()
            self.feats.add(op + ty)
            R, W, fx = self.j(a, e, extra=1)
            return X("%s %s %s" % (t if p >= UN else "(" + t + ")", op, e.at(2)), 2, R | ({o} if op != "=" else set()), W | {o}, self.cls(ty), fx)
        if k < 26:                                  # && || ! ?:
            op = s.pick(["&&", "||", "?", "!", "&&", "||"])
            a = self.expr(d - 1)
            self.feats.add("seq" + op)
            if op == "!":
                return X("!" + a.at(UN), UN, a.R, a.W, "i", a.fx)
            b = self.expr(d - 1)
            if op == "?":
                c = self.expr(d - 1)
                R, W, fx = self.j(a, b, c)
                return X("%s ? %s : %s" % (a.at(4), b.at(1), c.at(3)), 3, R, W, "f" if "f" in (b.ty, c.ty) else "i", fx)
            R, W, fx = self.j(a, b)
            p = PREC[op]
            return X("%s %s %s" % (a.at(p), op, b.at(p + 1)), p, R, W, "i", fx)
        if k < 29:                                  # comma
            a, b = self.expr(d - 1), self.expr(d - 1)
            R, W, fx = self.j(a, b)
            self.feats.add("comma")
            return X("(%s, %s)" % (a.at(1), b.at(2)), PRIM, R, W, b.ty, fx)
        if k < 36:                                  # binary
            op = s.pick(["+", "-", "*", "&", "|", "^", "<", "==", ">=", "!=", "/", "%", "<<", ">>"])
            a = self.expr(d - 1) if op in ("+", "-", "*", "<", "==", ">=", "!=") else self.iexpr(d - 1)
            b = self.expr(d - 1) if op in ("+", "-", "*", "<", "==", ">=", "!=") else self.iexpr(d - 1)
            if op in "/%":
                b = self.mask(b, 7, 1)
            elif op in ("<<", ">>"):
                b = self.mask(b, 7)
            apart(a, b)
            R, W, fx = self.j(a, b)
            p = PREC[op]
            ty = "f" if "f" in (a.ty, b.ty) and op in "+-*" else "i"
            return X("%s %s %s" % (a.at(p), op, b.at(p + 1)), p, R, W, ty, fx)
        if k < 37:
            a = self.iexpr(d - 1)
            op = s.pick(["-", "~", "+"])
            t = a.at(UN)
            return X(op + (" " if t[0] == op else "") + t, UN, a.R, a.W, "i", a.fx)
        if k < 38:
            a = self.iexpr(d - 1)
            return X("(%s)%s" % (cname(s, s.pick(INTS)), a.at(UN)), UN, a.R, a.W, "i", a.fx)
        if k < 39:                                  # calls
            m = s.below(5)
            self.feats.add("call%d" % m)
            if m == 0:
                return X("bump()", POST, ["g0"], ["g0", "IO"], fx=1)
            if m == 1:
                a = self.iexpr(d - 1)
                if a.W & {"g1", "IO"}:
                    pass                            # arguments are evaluated before the body
                return X("bumpl(%s)" % a.at(2), POST, a.R | {"g1"}, a.W | {"g1", "IO"}, fx=a.fx + 1)
            if m == 2:
                cand = [n for n, ty in self.vars if ty == "int"]
                if not cand:
                    return self.leaf()
                n = s.pick(cand)
                a = self.iexpr(d - 1)
                return X("setp(&%s, %s)" % (n, a.at(2)), POST, a.R, a.W | {n, "IO"}, fx=a.fx + 1)
            a, b, c = self.iexpr(d - 1), self.iexpr(d - 1), self.iexpr(d - 1)
            apart(a, b, c)
            R, W, fx = self.j(a, b, c)
            return X("sum3(%s, %s, %s)" % (a.at(2), b.at(2), c.at(2)), POST, R, W, "i", fx)
        n, ty = s.pick(self.vars)
        self.feats.add("sizeof-fx")
        return X("(int)sizeof(%s)" % s.pick([n + "++", "--" + n, n + " = 5"]), UN, [], [], "i", 0)

    def mask(self, e, m, plus=0):
        t = "%s & %d" % (e.at(9), m)
        if plus:
            return X("((%s) + %d)" % (t, plus), PRIM, e.R, e.W, "i", e.fx)
        return X("(%s)" % t, PRIM, e.R, e.W, "i", e.fx)

    def full(self, d, want=True, ints=False):
        """a full expression, with a side effect if possible"""
        self.pmoves = {}
        e = None
        for _ in range(5):
            self.pmoves = {}
            e = self.iexpr(d) if ints else self.expr(d)
            if e.fx or not want:
                break
        self.nfx += e.fx
        return e

    def stmt(self, d):
        s = self.s
        k = s.below(20)
        if k < 9:
            e = self.full(d)
            if s.chance(10):
                self.feats.add("comma-stmt")
                return "%s, %s;" % (e.at(1), self.full(d - 1).at(2))
            return e.at(1) + ";"
        if k < 12:
            e = self.full(d)
            self.feats.add("if")
            a, b = self.full(d - 1).at(1), self.full(d - 1).at(1)
            return "if (%s) %s; else %s;" % (e.at(1), a, b)
        if k < 14:
            self.feats.add("loop")
            e, b = self.full(d - 1), self.full(d - 1)
            m = s.below(3)
            n = s.int(1, 3)
            if m == 0:
                return "n = %d; while (n-- > 0 && (%s)) { %s; reset; }" % (n, e.at(1), b.at(1))
            if m == 1:
                return "n = %d; do { %s; reset; } while (--n > 0 && %s);" % (n, b.at(1), e.at(6))
            i, st = self.full(d - 1), self.full(d - 1)
            return "for (n = 0, %s; n < %d || (%s, 0); n++, %s) { %s; reset; }" % (i.at(2), n, e.at(1), st.at(2), b.at(1))
        if k < 15:
            e = self.full(d, ints=True)
            self.feats.add("switch")
            cs = "".join("case %d: %s; %s" % (c, self.full(d - 1).at(1), "break; " if s.chance(60) else "reset; ") for c in range(s.int(1, 4)))
            return "switch ((%s) & 3) { %sdefault: %s; }" % (e.at(1), cs, self.full(d - 1).at(1))
        if k < 17:
            self.n += 1
            self.feats.add("init")
            self.pmoves = {}
            if s.chance(60):
                ty = s.pick(INTS)
                e = self.full(d, ints=True)
                return "{ %s v%d = %s; %s }" % (cname(s, ty), self.n, e.at(2), show(ty, "v%d" % self.n))
            for _ in range(6):
                self.pmoves = {}
                xs = [self.iexpr(d - 1) for _ in range(s.int(2, 3))]
                try:
                    apart(*xs)
                    break
                except Conflict:
                    xs = xs[:1]
            self.nfx += sum(x.fx for x in xs)
            self.feats.add("init-list")
            return "{ long v%d[4] = {%s}; printf(\"%%ld %%ld %%ld\\n\", v%d[0], v%d[1], v%d[2]); }" % (
                self.n, ", ".join(x.at(2) for x in xs), self.n, self.n, self.n)
        if k < 18:
            self.feats.add("printf-arg")
            e = self.full(d, ints=True)
            return 'printf("%%ld\\n", (long)(%s));' % e.at(1)
        if k < 19:
            self.feats.add("index-read")
            e = self.full(d, ints=True)
            return 'printf("%%d\\n", %s[(%s) & 3]);' % (s.pick(["ga", "la"]), e.at(1))
        self.feats.add("return-fx")
        self.n += 1
        # a function whose return expression has side effects on globals
        loc = self.vars
        self.vars = [v for v in self.vars if v[0].startswith("g")]
        sa, sp, self.arrs, self.ptrs = self.arrs, self.ptrs, [("ga", "int")], [("gp", "ga", "int")]
        self.inret = True
        e = self.full(d, ints=True)
        self.vars, self.arrs, self.ptrs = loc, sa, sp
        if "ps" in e.t or "d0" in e.t or "d1" in e.t:
            return "t(%d);" % self.n
        self.defs.append("long r%d(void) { return %s; }" % (self.n, e.at(1)))
        return 'printf("%%ld\\n", r%d());' % self.n

    def program(self):
        s = self.s
        self.defs = []
        self.nfx = 0
        gl, lo_ = [("g0", "int"), ("g1", "long")], []
        decl = ["int g0 = 4;", "long g1 = -7;"]
        for i in range(s.int(1, 3)):
            ty = s.pick(INTS)
            gl.append(("g%d" % (i + 2), ty))
            decl.append("%s g%d = %s;" % (cname(s, ty), i + 2, const_in(s, rand_value(s, ty), ty)))
        body = []
        for i in range(s.int(2, 4)):
            ty = s.pick(INTS)
            lo_.append(("x%d" % i, ty))
            body.append("%s%s x%d = %s;" % ("static " if s.chance(12) else "", cname(s, ty), i, const_in(s, rand_value(s, ty), ty)))
        lty = s.pick(["int", "char", "long", "ushort", "uint"])
        body += ["%s la[20] = {1, 2, 3, 4, 5, 6, 7, 8};" % cname(s, lty), "%s *lp = la + 8;" % ("char" if lty == "char" else cname(s, lty)),
                 "double d0 = 1.5, d1 = -2.0;", "struct S sa[12] = {{1, 2, 3}, {4, 5, 6}, {7, 8, 9}, {10, 11, 12}};", "struct S *ps = sa;", "int n = 0, z = 0;"]
        if lty == "char":
            body = [b.replace("signed char la", "char la") for b in body]
        self.vars = gl + lo_
        self.arrs = [("ga", "int"), ("la", lty)]
        self.ptrs = [("gp", "ga", "int"), ("lp", "la", lty)]
        fm = " ".join(FMT[ty] for _, ty in self.vars)
        dump = 'printf("%s | %%d %%d %%d\\n", %s, (int)(gp - ga), (int)(lp - la), (int)(ps - sa));' % (
            fm.replace("%", "%"), ", ".join(n for n, _ in self.vars))
        reset = "gp = ga + 8; lp = la + 8; ps = sa"
        for _ in range(s.int(2, 6)):
            st = self.stmt(s.int(1, 4))
            body.append(st.replace("reset", reset))
            body.append(dump + " " + reset + ";")
        for i in range(8):
            pass
        body.append('for (z = 0; z < 20; z++) { printf("%%d %%ld\\n", ga[z], (long)la[z]); }'.replace("%%", "%"))
        body.append('for (z = 0; z < 12; z++) { printf("%d %d %ld\\n", sa[z].i, sa[z].c, sa[z].l); }')
        body.append('printf("%d %d %ld\\n", st.i, st.c, st.l); pd(d0); pd(d1);')
        out = ["#include <stdio.h>", FLOAT_HELPERS, "struct S { int i; unsigned char c; long l; };", "struct S st = {1, 2, 3};"] + decl
        out += ["int ga[20] = {10, 20, 30, 40, 50, 60, 70, 80};", "int *gp = ga;", HELP] + self.defs
        main = "int main(void) {\n  gp = ga + 8;\n  %s\n  return 0;\n}" % "\n  ".join(body)
        return "\n".join(out + [main]) + "\n"


class C09(Prop):
    id = "C09"
    quick = 700
    thorough = 25000
    rule = ("programs of 2-6 statements whose expressions contain ++/--, simple, compound and chained assignments on variables of every "
            "integer type and double, array elements with effectful indices, *p++ style lvalues, struct members and traced calls under "
            "&&, ||, ?:, comma, conditions, arguments, initialisers, indices, loops, switch and return; unsequenced conflicts are excluded "
            "by tracked read/write sets; all variables are printed after each statement; non-trivial: at least three side effects")
    assumptions = ["gcc -O0 gives the C behaviour of these well-defined programs"]

    def gen(self, s):
        p = Prog(s)
        text = p.program()
        return Case(text, p.feats, nontrivial=p.nfx >= 3)


PROP = C09
