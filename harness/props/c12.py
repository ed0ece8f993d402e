import math
from ..engine import Prop, Case
from .common import *
import re


class Strict(Gen):
    """no overflow of signed operations: with it an expression isn't a constant expression"""

    def bin(self, op, a, b):
        ty, v = binop(op, a.ty, a.val, b.ty, b.val)
        if not isf(ty) and signed(ty):
            x, y = conv(a.val, a.ty, ty), conv(b.val, b.ty, ty)
            r = {"+": x + y, "-": x - y, "*": x * y}.get(op, v) if op != "<<" else a.val << b.val
            if r != v or (op == "<<" and a.val < 0):
                op = "^" if op != "<<" else ">>"
        if isf(ty) and not math.isfinite(v):
            raise Undefined()
        return Gen.bin(self, op, a, b)

    def un(self, op, a):
        if op == "-" and a.val == lo(promote(a.ty)) and signed(promote(a.ty)):
            op = "~"
        return Gen.un(self, op, a)


class C12(Prop):
    id = "C12"
    quick = 1100
    thorough = 25000
    rule = ("programs of up to 14 constant expressions (depth 1-4) over literals of every base, character constants, enumerators, sizeof and casts, "
            "of every operator and integer type, used as enumerator values, array sizes (local, global, member, typedef, parameter, second dimension), "
            "case labels, initialisers of globals and statics; each is also evaluated at run time with its operands in variables; "
            "non-trivial: at least one expression with two or more operators used where a constant is required")
    assumptions = ["gcc -O0 gives the C value of these constant expressions"]

    def operand(self, s, floats, ftypes):
        """-> (placeholder, type, value, constant text, needs)"""
        k = s.below(12)
        if floats and k < 4:
            ty = s.pick(ftypes)
            v = abs(rand_float(s, ty))
            if self.last and s.chance(60):
                # near another operand: comparisons must not be done on truncated values
                v = abs(float(s.pick(self.last) + s.pick([0.0, 0.5, -0.5, 0.25, 1.0])))
                v = v if v < 1e15 else 1.5
                v = conv(v, "double", ty)
            t = float_text(v)
            return ty, v, t if ty == "double" else "(float)" + t
        if k < 5:
            e = literal(s, abs(rand_value(s, s.pick(["int", "char", "long"]))) % (1 << 63))
            return e.ty, e.val, e.text
        if k == 5:
            c = s.pick(["a", "0", "\\n", "\\0", "\\x7f", "\\377", "~", "\\\\", "\\'"])
            v = {"\\n": 10, "\\0": 0, "\\x7f": 127, "\\377": -1, "\\\\": 92, "\\'": 39}.get(c)
            return "int", ord(c) if v is None else v, "'%s'" % c
        if k == 6 and self.enums:
            n, v = s.pick(self.enums)
            return "int", v, n
        if k == 7:
            ty = s.pick(INTS + FLOATS)
            self.feats.add("sizeof")
            if s.chance(40):
                m = s.int(1, 9)
                return "int", SIZE[ty] * m, "(int)sizeof(%s)" % self.arr_type(s, ty, m)
            return "int", SIZE[ty], "(int)sizeof(%s)" % SPELL[ty][0]
        if k == 8:
            x = s.int(0, 300)
            f = s.pick([0.0, 0.5, 0.99])
            ty = s.pick(INTS)
            try:
                v = conv(x + f, "double", ty)
            except Undefined:
                x, v = 3, 3
            self.feats.add("float-cast")
            return ty, v, "(%s)%s" % (SPELL[ty][0], float_text(x + f))
        ty = s.pick(INTS)
        v = rand_value(s, ty)
        return ty, v, "(%s)%s" % (SPELL[ty][0], const_of(s, v).at(UN))

    def arr_type(self, s, ty, m):
        n = "T%d" % self.nt
        self.nt += 1
        self.glob.append("typedef %s %s[%d];" % (SPELL[ty][0], n, m))
        return n

    def expr(self, s, depth, floats=False, strict=True, integer=False):
        ops = []
        n = s.int(1, 5)
        self.last = []
        for i in range(n):
            ops.append(self.operand(s, floats, ["double"] if integer else FLOATS))
            if abs(ops[-1][1]) < 1 << 50:
                self.last.append(ops[-1][1])
        vs = [("@%d@" % i, ty, v) for i, (ty, v, _) in enumerate(ops)]
        g = (Strict if strict else Gen)(s, vs, floats=floats and not integer, comma=False, sizeof=False)
        # only the operands: leaves are variables or their constants
        g.leaf = lambda: (lambda o: E(o[0], UN, o[1], o[2]))(s.pick(vs))
        e = g.expr(depth)
        if integer and isf(e.ty):
            # an integer is required; floating operands remain below
            e = g.cast_safe(s.pick(INTS), e)
        if integer and floats:
            self.feats.add("float-operands")
        self.feats |= g.feats
        const = re.sub(r"@(\d+)@", lambda m: ops[int(m.group(1))][2], e.text)
        # an operand that starts with a sign may follow the same sign
        const = re.sub(r"--", "- -", re.sub(r"\+\+", "+ +", const))
        self.nx += 1
        pre = []
        for i, (ty, v, t) in enumerate(ops):
            if "@%d@" % i in e.text:
                pre.append("%s v%d_%d = %s;" % (SPELL[ty][0], self.nx, i, t))
        run = re.sub(r"@(\d+)@", lambda m: "v%d_%s" % (self.nx, m.group(1)), e.text)
        return e, const, pre, run, g.nops

    def gen(self, s):
        self.feats, self.glob, self.enums, self.nx, self.nt = set(), ["#include <stdio.h>", FLOAT_HELPERS], [], 0, 0
        body, funs = [], []
        nontriv = False
        for i in range(s.int(1, 14)):
            k = s.below(14)
            fl = s.chance(60) if k in (8, 9) else s.chance(30)
            e, c, pre, run, nops = self.expr(s, s.int(1, 4), fl, k < 8 or k > 11, k not in (8, 9))
            if nops >= 2:
                nontriv = True
            b = []
            self.feats.add("ctx%d" % k)
            small = not isf(e.ty) and 1 <= e.val <= 500
            if k < 4:
                if not (lo("int") <= e.val <= hi("int")) :
                    c, val = "(int)(%s)" % c, wrap(e.val, "int")
                else:
                    val = e.val
                if s.chance(15):
                    self.feats.add("unevaluated")
                    c = s.pick(["1 ? %s : 1 / 0", "0 ? 1 %% 0 : (%s)", "(1 || 1 / 0) ? %s : 0", "(0 && 1 / 0) ? 9 : (%s)"]) % ("(" + c + ")")
                n = "E%d" % i
                decl = "enum { %s = %s, %sn };" % (n, c, n)
                if val == hi("int"):
                    decl = "enum { %s = %s };" % (n, c)
                if s.chance(60):
                    self.glob.append(decl)
                    self.enums.append((n, val))
                    if val != hi("int"):
                        self.enums.append((n + "n", val + 1))
                    b.append('printf("%%d\\n", %s);' % n)
                else:
                    b.append(decl)
                    b.append('printf("%%d\\n", %s);' % n)
                if val != hi("int"):
                    b.append('printf("%%d\\n", %sn);' % n)
            elif k < 7:
                if small:
                    size = c
                else:
                    size = s.pick(["((%s) & 7) + 1", "((%s) & 15) + 3", "(%s) ? 4 : 9", "(%s) == 0 ? 5 : 2"]) % c
                ety = s.pick(["int", "char", "long", "short", "double"])
                m = s.below(6)
                self.feats.add("array%d" % m)
                if m == 0:
                    b.append("%s a[%s]; printf(\"%%d\\n\", (int)(sizeof(a) / sizeof(a[0])));" % (ety, size))
                elif m == 1:
                    self.glob.append("%s ga%d[%s]; char gb%d = 7;" % (ety, i, size, i))
                    b.append("printf(\"%%d\\n\", (int)sizeof(ga%d)); for (int j = 0; j < (int)(sizeof(ga%d) / sizeof(ga%d[0])); j++) ga%d[j] = -1;"
                             " printf(\"%%d\\n\", gb%d);" % (i, i, i, i, i))
                elif m == 2:
                    self.glob.append("struct s%d { %s a[%s]; };" % (i, ety, size))
                    b.append("struct s%d x; printf(\"%%d\\n\", (int)sizeof(x.a));" % i)
                elif m == 3:
                    self.glob.append("typedef %s t%d[%s];" % (ety, i, size))
                    b.append("t%d x; printf(\"%%d\\n\", (int)sizeof(x));" % i)
                elif m == 4:
                    b.append("%s a[2][%s]; printf(\"%%d %%d\\n\", (int)sizeof(a), (int)sizeof(a[0]));" % (ety, size))
                else:
                    self.glob.append("int f%d(%s p[2][%s]) { return (int)sizeof(p[1]); }" % (i, ety, size))
                    b.append("printf(\"%%d\\n\", f%d(0));" % i)
            elif k < 8 or k > 11:
                ty = s.pick(INTS)
                pt = promote(ty)
                v = wrap(e.val, pt)
                cases = [(c, v)]
                for _ in range(s.int(0, 4)):
                    if s.chance(40):
                        e2, c2, pre2, run2, _ = self.expr(s, 2)
                        cases.append((c2, wrap(e2.val, pt)))
                    else:
                        d = v + s.pick([1, -1, 256, 65536, 1 << 32, -256])
                        if lo("long") <= d <= hi("long"):
                            cases.append((const_of(s, d).text, wrap(d, pt)))
                seen, out = set(), []
                for t, w in cases:
                    if w not in seen:
                        seen.add(w)
                        out.append((t, w))
                perm = s.shuffle(range(len(out)))
                vals = [wrap(x, ty) for x in [out[0][1], out[-1][1], 0]]
                fn = "sw%d" % i
                d = s.below(len(out) + 2)
                lines = []
                for j, q in enumerate(perm):
                    if j == d:
                        lines.append("default: printf(\"def\\n\"); break;")
                    lines.append("case %s: printf(\"c%d\\n\");%s" % (out[q][0], q, " break;" if s.chance(80) else ""))
                self.glob.append("void %s(%s x) { switch (x) { %s } printf(\".\\n\"); }" % (fn, SPELL[ty][0], "\n".join(lines)))
                for x in vals:
                    b.append("%s(%s);" % (fn, const_of(s, x).text))
            elif k < 10:
                ty = s.pick(ALL)
                try:
                    conv(e.val, e.ty, ty)
                except Undefined:
                    ty = e.ty
                m = s.below(4)
                if m == 0:
                    self.glob.append("%s g%d = %s;" % (SPELL[ty][0], i, c))
                    b.append(show(ty, "g%d" % i))
                elif m == 1:
                    b += ["static %s x = %s;" % (SPELL[ty][0], c), show(ty, "x")]
                elif m == 2:
                    self.glob.append("%s g%d[3] = {%s, %s};" % (SPELL[ty][0], i, c, c))
                    b += [show(ty, "g%d[%d]" % (i, j)) for j in range(3)]
                else:
                    self.glob.append("struct i%d { char c; %s m; } g%d = {5, %s};" % (i, SPELL[ty][0], i, c))
                    b += [show(ty, "g%d.m" % i)]
            else:
                b.append(show(e.ty, c))
                if not isf(e.ty):
                    b.append("if (%s) printf(\"t\\n\"); else printf(\"f\\n\");" % c)
            b = pre + b + [show(e.ty, run)]
            body.append("{ %s }" % "\n  ".join(b))
        src = "\n".join(self.glob + ["int main(void) {"] + body + ["return 0;", "}"]) + "\n"
        return Case(src, self.feats, nontrivial=nontriv)


PROP = C12
