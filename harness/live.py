"""Functions with many variables of different sizes whose live ranges start, end and overlap at
random places of a random control flow: what stack slot sharing and dead code removal depend on."""
import re
from .ctl import Ctl
from .cgen import *

HEAD = """#include <stdio.h>
int fuel = 40;
int gi = 3; long gl = 5; char gc = 7;
void t(int k) { printf("%d ", k); }
"""


class Live(Ctl):
    def __init__(self, s, gotos, callees, name):
        Ctl.__init__(self, s, gotos=gotos, callees=[])
        self.name = name
        self.funs = list(callees)              # (name, [param types], return type)
        self.max_size = s.pick([12, 25, 40])
        self.vs = [("s", "int")]
        self.reserved = set()
        self.decls = []
        self.ptrs = []
        self.arrs = []
        for i in range(s.int(2, 12)):
            ty = s.pick(INTS + ["int", "int", "long", "char", "double", "float"])
            n = "v%d" % i
            self.vs.append((n, ty))
            self.decls.append("%s %s = %s;" % (SPELL[ty][0], n, s.pick(["s", "%d" % s.int(1, 90), "s + %d" % s.int(1, 9), "v%d" % (i - 1) if i else "1"])))
        if s.chance(35):
            n = "a%d" % s.below(3)
            k = s.int(2, 6)
            ty = s.pick(["int", "char", "short", "long"])
            self.arrs.append((n, k, ty))
            self.decls.append("%s %s[%d] = {%s};" % (SPELL[ty][0], n, k, ", ".join(str(s.int(0, 50)) for _ in range(s.int(1, k)))))
            self.feats.add("array")
        if s.chance(40):
            ints = [v for v in self.vs if not isf(v[1])]
            v = s.pick(ints)
            self.ptrs.append(("p0", v[1]))
            self.decls.append("%s *p0 = &%s;" % (SPELL[v[1]][0], v[0]))
            self.feats.add("address-taken")

    def iv(self):
        s = self.s
        k = s.below(20)
        if k == 0 and self.ptrs:
            return "*p0"
        if k == 1 and self.arrs:
            n, c, _ = s.pick(self.arrs)
            return "%s[%s]" % (n, s.pick(["%d" % s.below(c), "(unsigned)s %% %d" % c]))
        if k == 2:
            return s.pick(["gi", "gl", "gc"])
        return s.pick([v for v in self.vs if not isf(v[1])])[0]

    def ex(self, d):
        s = self.s
        k = s.below(10)
        if d <= 0 or k < 3:
            if s.chance(20):
                return str(s.int(0, 99))
            return self.iv()
        if k == 9:
            return "(%s ? %s : %s)" % (self.ex(d - 1), self.ex(d - 1), self.ex(d - 1))
        if k == 8:
            m = s.below(6)
            if m == 0:
                return "(%s %s %d)" % (self.ex(d - 1), s.pick([">>", "<<"]), s.int(0, 7))
            if m == 1:
                return "(%s %s %d)" % (self.ex(d - 1), s.pick(["/", "%"]), s.int(1, 9))
            if m == 2:
                return s.pick(["-", "~", "!"]) + "(%s)" % self.ex(d - 1)
            if m == 3:
                return "(%s %s %s)" % (self.ex(d - 1), s.pick([">", "<=", ">=", "!=", "&&", "||"]), self.ex(d - 1))
            if m == 4:
                self.feats.add("cast")
                return "(%s)%s" % (SPELL[s.pick(INTS)][0], self.ex(d - 1) if s.chance(50) else "(%s)" % self.ex(d - 1))
            return "(%s %s %s)" % (self.fl(d - 1), s.pick(["<", ">", "<=", ">=", "==", "!="]), self.fl(d - 1))
        return "(%s %s %s)" % (self.ex(d - 1), s.pick(["+", "-", "*", "^", "&", "|", "<", "==", "+", "-"]), self.ex(d - 1))

    def fl(self, d):
        """a floating expression"""
        s = self.s
        fs = [v for v in self.vs if isf(v[1])]
        k = s.below(8)
        self.feats.add("float")
        if d <= 0 or k < 2:
            return s.pick(fs)[0] if fs and s.chance(80) else s.pick(["1.5", "0.0", "300.25"])
        if k < 5:
            # a computed value, so that it has a temporary of its own
            return "(%s)(%s)%s" % (s.pick(FLOATS), SPELL[s.pick(INTS)][0], self.ex(d - 1) if s.chance(30) else "(%s)" % self.ex(d))
        if k < 6:
            return "(%s)%s" % (s.pick(FLOATS), self.fl(d - 1))
        if k < 7:
            return "-" + self.fl(d - 1) if d < 2 else "(-(%s))" % self.fl(d - 1)
        return "(%s %s %s)" % (self.fl(d - 1), s.pick(["+", "-"]), self.fl(d - 1))

    def toint(self):
        """an integer from a floating value that fits"""
        f = self.fl(1)
        return "(%s > -1.0 && %s < 100.0 ? (%s)%s : 1)" % (f, f, SPELL[self.s.pick(INTS)][0], f if f[0] == "(" else "(%s)" % f)

    def callx(self, d):
        n, ps, r = self.s.pick(self.funs)
        t = "%s(%s)" % (n, ", ".join(self.ex(d - 2) + (" & 15" if i == 0 else "") for i, p in enumerate(ps)))
        return "(int)" + t if isf(r) else t

    def cond(self, d=2):
        s = self.s
        k = s.below(8)
        if k < 2:
            return "(%s) & %d" % (self.ex(1), 1 << s.below(4))
        if k < 4:
            return "%s %s %s" % (self.ex(1), s.pick(["<", ">", "==", "!=", "<=", ">="]), self.ex(1))
        if k < 5:
            return self.iv()
        if k < 6:
            return "!%s" % self.iv()
        return Ctl.cond(self, d)

    def upd(self):
        s = self.s
        k = s.below(12)
        n, ty = s.pick(self.vs)
        if k < 2 and self.funs and self.cost < self.max_cost:
            # calls are statements of their own: the order of their side effects is defined
            self.cost += 60
            self.feats.add("call")
            return s.pick([n + " = ", n + " = ", ""]) + self.callx(2)
        if k < 7:
            if isf(ty):
                return "%s = %s" % (n, s.pick(["%s + 0.5" % n, self.ex(1), "%s * 0.5" % n, self.fl(2), self.fl(2)]))
            if s.chance(10):
                return "%s = %s" % (n, self.toint())
            return "%s = %s" % (n, self.ex(2))
        if k < 8:
            return "%s %s= %s" % (n, s.pick(["+", "-"] if isf(ty) else ["+", "-", "*", "^", "|", "&"]), self.ex(1))
        if k < 9:
            return s.pick(["%s++", "++%s", "--%s", "%s--"]) % n
        if k < 10 and self.arrs:
            a, c, _ = s.pick(self.arrs)
            return "%s[%d] = %s" % (a, s.below(c), self.ex(1))
        if k < 11 and self.ptrs:
            return "*p0 = %s" % self.ex(1)
        return "%s = %s" % (s.pick(["gi", "gl", "gc"]), self.ex(1))

    def simple(self, mult, loop, brk):
        s = self.s
        k = s.below(12)
        if k < 2:
            return self.trace()
        if k < 9:
            return self.upd() + ";"
        if k < 10:
            return "t((char)(%s));" % self.ex(1)
        if k < 11 and not self.gotos and not loop:
            # a variable of a block of its own
            ty = s.pick(INTS)
            n = "b%d" % self.k
            self.k += 1
            self.vs.append((n, ty))
            t = "{ %s %s = %s; %s; %s; }" % (SPELL[ty][0], n, self.iv().replace(n, "s"), self.upd(), self.upd())
            self.vs.pop()
            return t
        return self.jump(mult, loop, brk)

    def jump(self, mult, loop, brk):
        j = Ctl.jump(self, mult, loop, brk)
        m = re.search(r"return s \+ (\d+);", j)
        if m and self.s.chance(50):
            if self.funs and self.s.chance(40):
                self.feats.add("tail-call")
                return j[:m.start()] + "return %s;" % self.callx(2) + j[m.end():]
            return j[:m.start()] + "return %s;" % self.ex(1) + j[m.end():]
        return j

    def function(self, depth):
        s = self.s
        self.ps = [("s", "int")] + [("q%d" % i, s.pick(INTS)) for i in range(s.below(4) if not s.chance(10) else s.int(5, 14))]
        self.vs += self.ps[1:]
        self.ret = s.pick(["int", "int", "long", "char", "unsigned int"])
        body = self.stmts(depth, 1, False, False, 2, 7)
        if self.gotos:
            body.append("%s: t(998);" % self.label())
        if s.chance(60):
            for n, ty in s.sample(self.vs, s.int(1, 6)):
                body.append('printf("%s ", %s);' % ("%f" if isf(ty) else FMT[ty], n))
        if self.selfrec:
            body.append("if (fuel-- > 0) return %s(%s);" % (self.name, ", ".join(["s + 1 & 63"] + [self.ex(1) for _ in self.ps[1:]])))
            self.feats.add("self-tail-call")
        text = "\n".join(body)
        if self.gotos:
            text = re.sub(r"@(\d+)@", lambda m: "L%d" % (int(m.group(1)) % len(self.labels)), text)
        return "%s %s(%s) {\n%s\n%s\n%s\nreturn %s;\n}" % (
            self.ret, self.name, ", ".join("%s %s" % (SPELL[t][0], n) for n, t in self.ps), "\n".join(self.decls), "\n".join(self.tops), text, self.ex(2))


def program(s, gotos=None):
    out, feats, funs, main = [HEAD], set(), [], []
    for i in range(s.int(1, 3)):
        c = Live(s, s.chance(40) if gotos is None else gotos, funs, "f%d" % i)
        c.selfrec = s.chance(20)
        out.append(c.function(s.int(1, 3)))
        feats |= c.feats
        funs.append(("f%d" % i, [t for _, t in c.ps], c.ret))
        for a in range(s.int(1, 4)):
            main.append('fuel = 12; printf("=%%d\\n", (int)f%d(%s));' % (i, ", ".join(str(s.int(0, 63)) for _ in c.ps)))
    out.append('int main(void) {\n%s\nprintf("%%d %%ld %%d\\n", gi, gl, gc);\nreturn gi & 127;\n}' % "\n".join(main))
    return "\n".join(out) + "\n", feats
