from ..engine import Prop, Case
from .common import *


def tname(s, ty):
    """prototypes and definitions must agree: char and signed char are distinct types"""
    return "char" if ty == "char" else cname(s, ty)


class Fn:
    def __init__(self, name, ret, params, cost, pure, rec):
        self.name, self.ret, self.params, self.cost, self.pure, self.rec = name, ret, params, cost, pure, rec


class Prog:
    def __init__(self, s):
        self.s = s
        self.fns = []
        self.feats = set()
        self.n = 0
        self.protos = []
        self.defs = []
        self.k = 0

    # ---- expressions without undefined behaviour for any operand values
    def iexpr(self, vs, d, cost, calls=True):
        """vs: list of (text, type) ; returns text (parenthesised unless atomic), cost"""
        s = self.s
        ints = [v for v in vs if not isf(v[1]) and not v[1].endswith("*")]
        k = s.below(12)
        if d <= 0 or k < 4:
            if ints and s.chance(75):
                return s.pick(ints)[0], 0
            return const_of(s, rand_value(s, s.pick(["int", "char", "long"])), 0).at(PRIM), 0
        if k < 8 or not calls:
            a, ca = self.iexpr(vs, d - 1, cost, calls)
            b, cb = self.iexpr(vs, d - 1, cost - ca, calls)
            op = s.pick(["+", "-", "*", "^", "&", "|", "+", "-", "<", "==", "!=", ">="])
            if s.chance(8):
                return "(%s %s %d)" % (a, s.pick([">>", "<<"]), s.below(8)), ca + cb
            if s.chance(8):
                return "(%s %s %d)" % (a, s.pick(["/", "%"]), s.int(2, 9)), ca + cb
            return "(%s %s %s)" % (a, op, b), ca + cb
        if k < 11:
            fs = [f for f in self.fns if f.pure and f.cost <= cost and not isf(f.ret) and f.ret != "void"]
            if fs:
                f = s.pick(fs)
                t, c = self.call(f, vs, d - 1, cost - f.cost)
                return t, c + f.cost
            return self.iexpr(vs, d - 1, cost, calls)
        a, ca = self.iexpr(vs, d - 1, cost, calls)
        b, cb = self.iexpr(vs, d - 1, cost - ca, calls)
        c, cc = self.iexpr(vs, d - 1, cost - ca - cb, calls)
        return "(%s ? %s : %s)" % (a, b, c), ca + cb + cc

    def fexpr(self, vs, d, cost):
        s = self.s
        fl = [v for v in vs if isf(v[1])]
        k = s.below(8)
        if d <= 0 or k < 3:
            if fl and s.chance(70):
                return s.pick(fl)[0], 0
            return const_in(s, abs(rand_float(s, "double")), "double"), 0
        if k < 6:
            a, ca = self.fexpr(vs, d - 1, cost)
            if s.chance(30):
                b, cb = self.iexpr(vs, d - 1, cost - ca)
            else:
                b, cb = self.fexpr(vs, d - 1, cost - ca)
            return "(%s %s %s)" % (a, s.pick(["+", "-", "*"]), b), ca + cb
        fs = [f for f in self.fns if f.pure and f.cost <= cost and isf(f.ret)]
        if fs:
            f = s.pick(fs)
            t, c = self.call(f, vs, d - 1, cost - f.cost)
            return t, c + f.cost
        return self.iexpr(vs, d - 1, cost)

    def arg(self, ty, vs, d, cost):
        s = self.s
        if isf(ty):
            return self.fexpr(vs, d, cost)
        if ty == "double*":
            return "0", 0
        return self.iexpr(vs, d, cost)

    def call(self, f, vs, d, cost, depth=None):
        s = self.s
        args = []
        c = 0
        for i, (n, ty) in enumerate(f.params):
            if f.rec and n == "n":
                args.append(str(s.int(0, f.rec)) if depth is None else depth)
                continue
            if ty.endswith("*"):
                cand = [v[0] for v in vs if v[1] == ty] + ["&" + v[0] for v in vs if v[1] + "*" == ty and v[0].isidentifier()]
                args.append(s.pick(cand) if cand else "&z_" + ty[:-1])
                continue
            t, k = self.arg(ty, vs, d, cost - c)
            c += k
            args.append(t.strip() if t[0] != "(" or s.chance(50) else t)
        self.feats.add("args%d" % min(len(args), 9))
        return "%s(%s)" % (f.name, ", ".join(args)), c

    def params(self, ptr, lo=0, hi=5):
        s = self.s
        n = s.int(lo, hi) if not s.chance(6) else s.int(6, 12)
        out = []
        for i in range(n):
            ty = s.weighted([(5, "int"), (2, "char"), (1, "uchar"), (2, "short"), (1, "ushort"), (2, "uint"), (3, "long"), (1, "ulong"),
                             (2, "double"), (2, "float"), (3 if ptr else 0, "int*"), (2 if ptr else 0, "long*"), (1 if ptr else 0, "char*")])
            out.append(("p%d" % i, ty))
        return out

    def ptext(self, params, named=True):
        s = self.s
        if not params:
            return "void"
        r = []
        for n, ty in params:
            b = tname(s, ty.rstrip("*"))
            if ty.endswith("*") and named and s.chance(35):
                self.feats.add("array-parameter")
                r.append("%s %s[%s]" % (b, n, s.pick(["", "1", "4"])))
                continue
            r.append("%s %s%s" % (b, "*" if ty.endswith("*") else "", n if named else ""))
        return ", ".join(x.strip() for x in r)

    def deref(self, params):
        return [(("*" + n) if ty.endswith("*") else n, ty.rstrip("*")) for n, ty in params] + \
               [(n, ty) for n, ty in params if ty.endswith("*")]

    def locals(self, body, vs, cost, d=1):
        s = self.s
        new = []
        tot = 0
        for i in range(s.int(0, 3)):
            self.n += 1
            if s.chance(20):
                n = "a%d" % self.n
                m = s.int(1, 4)
                ty = s.pick(INTS)
                xs = []
                for _ in range(m):
                    e, c = self.iexpr(vs, d, cost - tot)
                    tot += c
                    xs.append(e)
                body.append("%s %s[%d] = {%s};" % (tname(s, ty), n, m, ", ".join(xs)))
                new += [("%s[%d]" % (n, j), ty) for j in range(m)]
                self.feats.add("local-array")
                continue
            n = "x%d" % self.n
            ty = s.pick(INTS + ["double", "float"])
            e, c = (self.fexpr if isf(ty) else self.iexpr)(vs, d, cost - tot)
            tot += c
            body.append("%s %s = %s;" % (tname(s, ty), n, e))
            new.append((n, ty))
        return new, tot

    def ret_expr(self, ret, vs, d, cost):
        return self.fexpr(vs, d, cost) if isf(ret) else self.iexpr(vs, d, cost)

    def fname(self):
        self.n += 1
        return "f%d" % self.n

    def rtype(self, floats=True):
        s = self.s
        return s.weighted([(5, "int"), (1, "char"), (1, "uchar"), (1, "short"), (1, "ushort"), (2, "uint"), (3, "long"), (1, "ulong"),
                           (2 if floats else 0, "double"), (1 if floats else 0, "float")])

    def pure(self, rec):
        """a function without side effects; rec: 0 none, 1 single, 2 double recursion"""
        s = self.s
        name = self.fname()
        ret = self.rtype()
        ps = self.params(False)
        if rec:
            ps.insert(s.below(len(ps) + 1), ("n", s.pick(["int", "int", "long", "char", "short"])))
        vs = list(ps)
        body = []
        budget = 40 if not rec else 12
        f = Fn(name, ret, ps, 1, True, rec and (5 if rec == 1 else 4))
        tot = 0
        if rec:
            e, c = self.ret_expr(ret, vs, 1, 4)
            tot += c
            body.append("if (n <= 0) return %s;" % e)
            self.feats.add("rec%d" % rec)
        new, c = self.locals(body, vs, budget)
        tot += c
        vs += new
        if rec:
            if s.chance(50):
                # recursive results through locals, other locals used afterwards
                for j in range(rec):
                    t, c = self.call(f, vs, 1, 4, "n - %d" % (j + 1))
                    tot += c
                    body.append("%s r%d = %s;" % (tname(s, ret), j, t))
                    vs.append(("r%d" % j, ret))
                e, c = self.ret_expr(ret, vs, 2, 4)
            else:
                parts = []
                for j in range(rec):
                    t, c = self.call(f, vs, 1, 4, "n - %d" % (j + 1))
                    tot += c
                    parts.append(t)
                e, c = self.ret_expr(ret, vs, 1, 4)
                e = (" %s " % s.pick(["+", "-", "*"])).join(parts + [e]) if s.chance(60) else \
                    (" %s " % s.pick(["+", "-", "*"])).join([e] + parts)
            tot += c
        else:
            if s.chance(30):
                c1, k1 = self.iexpr(vs, 1, 5)
                e1, k2 = self.ret_expr(ret, vs, 1, 5)
                body.append("if (%s) return %s;" % (c1, e1))
                tot += k1 + k2
            e, c = self.ret_expr(ret, vs, 2, 10)
            tot += c
        body.append("return %s;" % e)
        f.cost = (1 + tot) * {0: 1, 1: 7, 2: 20}[rec]
        self.finish(f, body)

    def tail(self):
        """self tail recursion with rearranged arguments"""
        s = self.s
        name = self.fname()
        ret = self.rtype(False)
        ps = [("p%d" % i, s.pick(INTS + ["double"])) for i in range(s.int(1, 4) if s.chance(75) else s.int(5, 16))]
        ps.insert(s.below(len(ps) + 1), ("n", "int"))
        f = Fn(name, ret, ps, 30, True, 12)
        vs = list(ps)
        body = []
        if s.chance(50):
            # a digest of all parameters
            e = " + ".join("(%s > 3)" % n if isf(ty) else "(%s & 63) * %d" % (n, 2 * i + 1) for i, (n, ty) in enumerate(ps))
        else:
            e, _ = self.iexpr(vs, 2, 0, calls=False)
        stop = "if (n <= 0) return %s;" % e
        self.feats.add("tail")
        args = []
        perm = s.shuffle([p for p in ps if p[0] != "n"])
        it = iter(perm)
        for n, ty in ps:
            if n == "n":
                args.append("n - 1")
                continue
            m, mt = next(it)
            if isf(ty) or isf(mt):
                e = n
            elif s.chance(40):
                e = m
                self.feats.add("tail-swap")
            else:
                e, _ = self.iexpr(vs, 1, 0, calls=False)
            args.append(e)
        call = "return %s(%s);" % (name, ", ".join(args))
        k = s.below(4)
        if k == 0:
            body = [stop, call]
        elif k == 1:
            e2, _ = self.iexpr(vs, 1, 0, calls=False)
            body = [stop, "if (%s) { %s }" % (self.iexpr(vs, 1, 0, calls=False)[0], call), "return %s(%s);" % (
                name, ", ".join("n - 2" if n == "n" else n for n, _ in ps))]
        elif k == 2:
            new, _ = self.locals(body, vs, 0, 0)
            vs += new
            body = [stop] + body + ["while (n > 0) { %s }" % call, "return n;"]
        else:
            new, _ = self.locals(body, vs, 0, 0)
            body = body + ["if (n > 0) %s else { %s }" % (call, "return %s;" % self.iexpr(vs + new, 1, 0, calls=False)[0])]
        self.finish(f, body)

    def mutual(self):
        s = self.s
        a, b = self.fname(), self.fname()
        ra, rb = self.rtype(False), self.rtype(False)
        pa = [("n", "int")] + self.params(False, 0, 3)
        pb = self.params(False, 0, 2) + [("n", "int")]
        fa, fb = Fn(a, ra, pa, 40, True, 8), Fn(b, rb, pb, 40, True, 8)
        self.feats.add("mutual")
        self.protos.append("%s %s(%s);" % (tname(s, ra), a, self.ptext(pa, s.chance(50))))
        self.protos.append("%s %s(%s);" % (tname(s, rb), b, self.ptext(pb, s.chance(50))))
        for f, g in ((fa, fb), (fb, fa)):
            body = ["if (n <= 0) return %s;" % self.iexpr(f.params, 1, 0, calls=False)[0]]
            vs = list(f.params)
            new, _ = self.locals(body, vs, 0, 1)
            vs += new
            t, _ = self.call(g, vs, 1, 0, "n - 1")
            if s.chance(40):
                body.append("return %s;" % t)
                self.feats.add("mutual-tail")
            else:
                body.append("%s r = %s;" % (tname(s, g.ret), t))
                vs.append(("r", g.ret))
                body.append("return %s;" % self.iexpr(vs, 2, 0, calls=False)[0])
            self.finish(f, body, proto=False)

    def impure(self):
        """prints, writes through pointers and globals; its calls are whole statements"""
        s = self.s
        name = self.fname()
        ret = s.weighted([(3, "void"), (3, "int"), (1, "char"), (2, "long"), (1, "double")])
        rec = s.chance(40)
        ps = self.params(True, 0, 4)
        if rec:
            ps.insert(s.below(len(ps) + 1), ("n", "int"))
        f = Fn(name, ret, ps, 1, False, rec and s.int(1, 4))
        vs = self.deref(ps) + [("g0", "int"), ("g1", "long")]
        body = []
        tot = 2
        new, c = self.locals(body, vs, 15)
        tot += c
        vs += new
        if s.chance(30):
            body.append("static int cnt = %d; cnt++;" % s.int(0, 5))
            vs.append(("cnt", "int"))
            self.feats.add("static")
        self.k += 1
        body.append('printf("%s %%d\\n", %s);' % (name, "n" if rec else str(self.k)))
        budget = 40
        for _ in range(s.int(1, 5)):
            k = s.below(8)
            lvs = [v for v in vs if not v[1].endswith("*") and v[0] not in ("n", "cnt")]
            if k < 3 and lvs:
                l, ty = s.pick(lvs)
                e, c = (self.fexpr if isf(ty) else self.iexpr)(vs, 2, min(budget, 20))
                tot += c
                body.append("%s = %s;" % (l, e))
            elif k < 6 or (rec and k < 7):
                fs = [g for g in self.fns if not g.pure and g.cost <= budget]
                if rec and s.chance(50):
                    t, c = self.call(f, vs, 1, 10, "n - 1")
                    if ret != "void" and s.chance(60):
                        self.n += 1
                        body.append("%s y%d = 0;" % (tname(s, ret), self.n))
                        body.append("if (n > 0) y%d = %s;" % (self.n, t))
                        vs.append(("y%d" % self.n, ret))
                    else:
                        body.append("if (n > 0) { %s; }" % t)
                    tot += c
                    rec = False
                    self.feats.add("impure-rec")
                elif fs:
                    g = s.pick(fs)
                    t, c = self.call(g, vs, 1, 10)
                    tot += c + g.cost
                    budget -= g.cost
                    if g.ret == "void" or s.chance(40):
                        body.append("%s;" % t)
                    else:
                        self.n += 1
                        body.append("%s y%d = %s;" % (tname(s, g.ret), self.n, t))
                        vs.append(("y%d" % self.n, g.ret))
            else:
                v = s.pick([v for v in vs if not v[1].endswith("*")])
                body.append(show(v[1], v[0]))
        for v in new:
            body.append(show(v[1], v[0]))
        if ret != "void":
            e, c = self.ret_expr(ret, vs, 2, 10)
            tot += c
            body.append("return %s;" % e)
        elif s.chance(20):
            body.append("return;")
        f.cost = tot * (5 if f.rec else 1)
        self.finish(f, body)

    def finish(self, f, body, proto=None):
        s = self.s
        self.fns.append(f)
        rt = "void" if f.ret == "void" else tname(s, f.ret)
        self.defs.append("%s %s(%s) {\n  %s\n}" % (rt, f.name, self.ptext(f.params), "\n  ".join(body)))
        if proto is None and s.chance(40):
            self.protos.append("%s %s(%s);" % ("void" if f.ret == "void" else tname(s, f.ret), f.name, self.ptext(f.params, s.chance(60))))
            self.feats.add("proto")

    def program(self):
        s = self.s
        for _ in range(s.int(1, 6)):
            k = s.below(10)
            if k < 2:
                self.pure(0)
            elif k < 4:
                self.pure(1)
            elif k < 5:
                self.pure(2)
            elif k < 7:
                self.tail()
            elif k < 8:
                self.mutual()
            else:
                self.impure()
        body = ["int m0 = %d;" % s.int(0, 50), "long m1 = %d;" % s.int(0, 50), "double m2 = 1.5;", "char mc = 65;"]
        vs = [("m0", "int"), ("m1", "long"), ("m2", "double"), ("mc", "char")]
        order = s.shuffle(self.defs) if len(self.protos) >= len(self.fns) and s.chance(50) else self.defs
        ncall = 0
        for f in self.fns * 2:
            if f.cost > 4000 or ncall > 10:
                continue
            ncall += 1
            t, c = self.call(f, vs, 2, 100)
            if f.ret == "void":
                body.append(t + ";")
            elif s.chance(15):
                body.append(t + ";")
            else:
                body.append(show(f.ret, t))
        body += [show(ty, n) for n, ty in vs] + [show("int", "g0"), show("long", "g1"), show("int", "z_int"), show("long", "z_long"), show("char", "z_char")]
        all_protos = "\n".join(self.protos)
        if order is not self.defs:
            named = set(p.split("(")[0].split()[-1] for p in self.protos)
            if not all(f.name in named for f in self.fns):
                order = self.defs
        text = ["#include <stdio.h>", FLOAT_HELPERS, "int g0 = 3;\nlong g1 = -4;\nint z_int;\nlong z_long;\nchar z_char;", all_protos] + order
        text.append("int main(void) {\n  %s\n  return m0 & 63;\n}" % "\n  ".join(body))
        return "\n".join(text) + "\n"


class C08(Prop):
    id = "C08"
    quick = 800
    thorough = 25000
    rule = ("programs of 1-7 functions (pure, self-recursive with one or two calls, tail-recursive with rearranged arguments, "
            "mutually recursive, effectful with pointer parameters, statics and globals) with 0-12 parameters of all scalar types, "
            "called with random arguments, nested calls and prototypes; results, caller locals and globals are printed; "
            "non-trivial: some function is recursive or takes at least two arguments")
    assumptions = ["gcc -O0 gives the C behaviour of these well-defined programs"]

    def gen(self, s):
        p = Prog(s)
        text = p.program()
        nt = p.feats & {"rec1", "rec2", "tail", "mutual", "impure-rec"} or any(len(f.params) > 1 for f in p.fns)
        return Case(text, p.feats, nontrivial=bool(nt))


PROP = C08
