"""Random statements with a bounded running time and an observable trace."""


class Ctl:
    def __init__(self, s, gotos=False, callees=(), max_cost=2500, rich=True):
        self.s = s
        self.gotos = gotos
        self.callees = list(callees)       # (name, cost)
        self.feats = set()
        self.k = 0                         # trace ids
        self.nv = 0                        # counters
        self.tops = []                     # declarations at the top of the function
        self.labels = []
        self.pending = 0
        self.max_cost = max_cost
        self.cost = 0
        self.rich = rich
        self.size = 0
        self.max_size = s.pick([25, 40, 60]) if gotos else s.pick([40, 70, 110])

    # ---- expressions
    def cond(self, d=2):
        s = self.s
        k = s.below(16)
        c = s.int(0, 40)
        if k < 3:
            return "s & %d" % (1 << s.below(6))
        if k < 5:
            return "s %s %d" % (s.pick(["<", ">", "<=", ">=", "==", "!="]), c)
        if k < 6:
            return "s %% %d == %d" % (s.int(2, 5), s.below(3))
        if k < 7:
            return "!(s & %d)" % (1 << s.below(6))
        if k < 8:
            return "s"
        if k < 9:
            self.feats.add("cond-assign")
            return "(s = s * 3 + %d & 63) > %d" % (c, s.int(5, 50))
        if k < 10:
            return s.pick(["1", "0", "!0", "2 > 1", "-1", "0L" if False else "3 < 2"])
        if k < 11 and self.nv:
            return "c%d > %d" % (s.below(self.nv), s.below(3))
        if k < 14 and d > 0:
            self.feats.add("cond-logic")
            return "%s %s %s" % (self.cpar(d), s.pick(["&&", "||"]), self.cpar(d))
        if k < 15 and d > 0:
            self.feats.add("cond-ternary")
            return "(%s) ? %s : %s" % (self.cond(d - 1), self.cpar(d), self.cpar(d))
        if d > 0:
            return "(%s, %s)" % (self.upd(), self.cond(d - 1))
        return "s > %d" % c

    def cpar(self, d):
        c = self.cond(d - 1)
        return "(" + c + ")" if any(o in c for o in "&|?,=") or self.s.chance(20) else c

    def upd(self):
        s = self.s
        return s.pick(["s = s * 5 + %d & 63", "s ^= %d", "s = s + %d & 63", "s = (s << 1 | s >> 5) & 63 ^ %d", "s = %d - s & 63"]) % s.int(1, 63)

    def trace(self):
        self.k += 1
        return "t(%d);" % self.k

    def counter(self):
        n = "c%d" % self.nv
        self.nv += 1
        ty = self.s.weighted([(6, "int"), (1, "char"), (1, "long"), (1, "unsigned int"), (1, "short")])
        self.tops.append("%s %s = 0;" % (ty, n))
        return n, not ty.startswith("unsigned")

    def label(self):
        n = len(self.labels)
        self.labels.append(n)
        return "L%d" % n

    # ---- statements; ctx: (mult, in_loop, in_switch_or_loop)
    def stmts(self, depth, mult, loop, brk, lo=1, hi=4):
        out = []
        n = self.s.int(lo, hi)
        for i in range(n):
            out += self.stmt(depth, mult, loop, brk)
            if self.size > self.max_size:
                break
        return out

    def block(self, depth, mult, loop, brk, lo=1, hi=3):
        """statement after a control header: braces or a single simple statement"""
        s = self.s
        if s.chance(25):
            one = self.stmt(depth, mult, loop, brk, single=True)
            if len(one) == 1:
                self.feats.add("unbraced")
                return one[0]
            return "{ " + " ".join(one) + " }"
        return "{ " + "\n".join(self.stmts(depth, mult, loop, brk, lo, hi)) + " }"

    def stmt(self, depth, mult, loop, brk, single=False):
        s = self.s
        self.cost += mult
        self.size += 1
        k = s.below(40)
        lab = ""
        if self.gotos and not single and s.chance(35):
            lab = "%s: if (fuel-- <= 0) return s;\n" % self.label()
        if depth <= 0 or mult > 300 or self.size > self.max_size or self.cost > self.max_cost or k < 8:
            return [lab + self.simple(mult, loop, brk)]
        if k < 16:
            return [lab + self.if_(depth, mult, loop, brk)]
        if k < 19:
            return [lab + x for x in [self.while_(depth, mult)]]
        if k < 22:
            return [lab + self.do_(depth, mult)]
        if k < 27:
            return [lab + self.for_(depth, mult)]
        if k < 34:
            return [lab + self.switch_(depth, mult, loop)]
        if k < 36:
            self.feats.add("block")
            self.k += 1
            return [lab + "{ " + "\n".join(self.stmts(depth - 1, mult, loop, brk)) + " }"]
        return [lab + self.jump(mult, loop, brk)]

    def simple(self, mult, loop, brk):
        s = self.s
        k = s.below(12)
        if k < 6:
            return self.trace()
        if k < 9:
            return self.upd() + ";"
        if k < 10 and self.callees and self.cost < self.max_cost:
            n, c = s.pick(self.callees)
            if mult * c + self.cost < self.max_cost:
                self.cost += mult * c
                self.feats.add("call")
                return s.pick(["s = s + %s(s & 15) & 63;", "%s(s);"]) % n
        if k < 11:
            return ";"
        return self.jump(mult, loop, brk)

    def jump(self, mult, loop, brk):
        s = self.s
        k = s.below(8)
        j = None
        if self.gotos and k < 5:
            self.pending += 1
            self.feats.add("goto")
            j = "goto @%d@;" % s.below(1000)     # resolved when all labels are known
        elif loop and k < 5:
            self.feats.add("continue")
            j = "continue;"
        elif brk and k < 7:
            self.feats.add("break")
            j = "break;"
        else:
            self.feats.add("return")
            j = "return s + %d;" % s.int(0, 5)
        if s.chance(80):
            j = "if (%s) %s" % (self.cond(), j)
        return j

    def if_(self, depth, mult, loop, brk):
        s = self.s
        c = self.cond()
        t = self.block(depth - 1, mult, loop, brk)
        k = s.below(10)
        if k < 5:
            self.feats.add("if")
            return "if (%s) %s" % (c, t)
        self.feats.add("if-else")
        # a nested unbraced if would take the else: that is a legal program as well
        e = self.block(depth - 1, mult, loop, brk)
        if k >= 8:
            self.feats.add("else-if")
            e = "if (%s) %s else %s" % (self.cond(), self.block(depth - 1, mult, loop, brk), e)
        return "if (%s) %s else %s" % (c, t, e)

    def trips(self):
        return self.s.int(0, 4)

    def while_(self, depth, mult):
        s = self.s
        n = self.trips()
        c, sg = self.counter()
        self.feats.add("while")
        k = s.below(4)
        body = self.block(depth - 1, mult * max(n, 1), True, True)
        if k == 0:
            r = "%s = %d; while (%s-- > 0) %s" % (c, n, c, body)
        elif k == 1:
            r = "%s = 0; while (%s < %d) { %s++; %s }" % (c, c, n, c, body)
        elif k == 2:
            r = "%s = 0; while (1) { if (%s++ >= %d) break; %s }" % (c, c, n, body)
        else:
            r = "%s = 0; while (%s++ < %d && (%s)) %s" % (c, c, n, self.cond(), body)
        return "{ " + r + " }"

    def do_(self, depth, mult):
        s = self.s
        n = self.trips()
        c, sg = self.counter()
        self.feats.add("do")
        body = self.block(depth - 1, mult * (n + 1), True, True)
        if s.chance(30):
            return "{ %s = 0; do %s while (++%s <= %d && (%s)); }" % (c, body, c, n, self.cond())
        if s.chance(20):
            return "do %s while (0);" % body
        return "{ %s = %d; do %s while (%s-- > 0); }" % (c, n, body, c) if sg else \
               "{ %s = 0; do %s while (++%s < %d); }" % (c, body, c, n + 1)

    def for_(self, depth, mult):
        s = self.s
        n = self.trips()
        self.feats.add("for")
        k = s.below(7)
        if self.gotos and k in (0, 1):
            k = 3
        if k < 2:
            v = "i%d" % self.nv
            self.nv += 1
            self.tops.append("int c%d = 0;" % (self.nv - 1))
            body = self.block(depth - 1, mult * max(n, 1), True, True)
            self.feats.add("for-decl")
            return "for (int %s = 0; %s < %d; %s) %s" % (v, v, n, s.pick(["%s++", "++%s", "%s += 1", "%s = %s + 1".replace("%s + 1", "1 + %s")]).replace("%s", v), body)
        c, sg = self.counter()
        body = self.block(depth - 1, mult * max(n, 1), True, True)
        if k == 2:
            return "for (%s = 0; ; ) { if (%s++ >= %d) break; %s }" % (c, c, n, body)
        if k == 3:
            return "for (%s = %d; %s > 0; %s--) %s" % (c, n, c, c, body)
        if k == 4:
            return "{ %s = 0; for (; %s < %d; %s++) %s }" % (c, c, n, c, body)
        if k == 5:
            self.feats.add("for-comma")
            return "for (%s = 0, %s; %s < %d; %s, %s++) %s" % (c, self.upd(), c, n, self.upd(), c, body)
        return "for (%s = 0; %s < %d && (%s); %s++) %s" % (c, c, n, self.cond(), c, body)

    def switch_(self, depth, mult, loop):
        s = self.s
        self.feats.add("switch")
        ncase = s.int(0, 5)
        sel = s.pick(["s & 3", "s & 7", "s % 5", "(char)(s - 32)", "(s & 3) - 2", "s", "(long)s & 7", "(unsigned char)(s & 3) + 254", "-(s & 3)"])
        pool = list(range(0, 8)) if "254" not in sel else [254, 255, 256, 257, 0, 1]
        if "-" in sel:
            pool = [-3, -2, -1, 0, 1, 2, -32, 31]
        vals = s.shuffle(pool)[:ncase]
        items = [("case", v) for v in vals]
        if s.chance(65):
            items.append(("default", 0))
            if s.chance(50):
                items = s.shuffle(items)
        parts = []
        if s.chance(8):
            parts.append("t(999);")
            self.feats.add("switch-dead")
        for kind, v in items:
            lab = "default:" if kind == "default" else "case %s:" % (("%d" % v) if s.chance(80) else "%d + %d" % (v - 1, 1))
            k = s.below(10)
            if k < 1:
                self.feats.add("case-nested")
                parts.append("if (%s) { %s %s %s }" % (self.cond(), self.trace(), lab, self.trace()))
            elif k < 2:
                parts.append(lab)            # falls into the next label
                self.feats.add("case-shared")
                continue
            else:
                parts.append(lab)
                if s.chance(25):
                    parts.append("{ %s }" % "\n".join(self.stmts(depth - 1, mult, loop, True, 1, 3)))
                else:
                    parts += self.stmts(depth - 1, mult, loop, True, 1, 3)
            k = s.below(10)
            if k < 6:
                parts.append("break;")
            elif k < 7 and loop:
                parts.append("continue;")
                self.feats.add("switch-continue")
            elif k < 8:
                parts.append("return s + %d;" % s.int(6, 9))
            else:
                self.feats.add("fallthrough")
        if parts and parts[-1].endswith(":"):
            parts.append(";")
        return "switch (%s) { %s }" % (sel, "\n".join(parts))

    def function(self, name, depth, lo=2, hi=6, storage=""):
        s = self.s
        body = self.stmts(depth, 1, False, False, lo, hi)
        if self.gotos:
            body.append("%s: t(998);" % self.label())
        text = "\n".join(body)
        if self.gotos:
            import re
            text = re.sub(r"@(\d+)@", lambda m: "L%d" % (int(m.group(1)) % len(self.labels)), text)
            if not self.pending:
                pass
        tops = "\n".join(self.tops)
        return "%sint %s(int s) {\n%s\n%s\nreturn s;\n}" % (storage, name, tops, text)


TRACE = """#include <stdio.h>
int fuel = 60;
void t(int k) { printf("%d ", k); }
"""
