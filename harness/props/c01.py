from ..engine import Prop, Case
from ..cgen import *


def declare(s, n, prefix, types, feats):
    out = []
    for i in range(n):
        ty = s.pick(types)
        v = rand_value(s, ty)
        out.append(("%s%d" % (prefix, i), ty, v))
    return out


class C01(Prop):
    id = "C01"
    quick = 1800
    thorough = 20000
    rule = ("random programs of 1-5 functions, each printing up to 8 random integer expressions (depth<=4) over global, "
            "local, parameter, array and pointer operands of all eight integer types with boundary values; "
            "non-trivial: at least 3 distinct operators and one operand that is not a constant")
    assumptions = ["gcc -O0 -fwrapv computes the C value", "two's complement, 8-bit char signed, 64-bit long"]

    def gen(self, s):
        feats = set()
        glob = declare(s, s.int(1, 5), "g", INTS, feats)
        arr_ty = s.pick(INTS)
        arr = [rand_value(s, arr_ty) for _ in range(s.int(1, 4))]
        out = ["#include <stdio.h>"]
        for n, ty, v in glob:
            out.append("%s %s = %s;" % (cname(s, ty), n, const_in(s, v, ty)))
        out.append("%s ga[%d] = {%s};" % (cname(s, arr_ty), len(arr), ", ".join(const_in(s, v, arr_ty) for v in arr)))
        calls = []
        nonconst = 0
        for fi in range(s.int(1, 5)):
            params = declare(s, s.below(4), "p", INTS, feats)
            loc = declare(s, s.int(1, 4), "x", INTS, feats)
            vs = list(glob) + params + loc
            vs += [("ga[%d]" % i, arr_ty, v) for i, v in enumerate(arr)]
            body = []
            for n, ty, v in loc:
                body.append("%s %s = %s;" % (cname(s, ty), n, const_in(s, v, ty)))
            if s.chance(40):
                n, ty, v = s.pick(loc + glob)
                body.append("%s *q = &%s;" % (cname(s, ty), n))
                vs.append(("*q", ty, v))
            for ei in range(s.int(1, 8)):
                g = Gen(s, vs)
                e = g.expr(s.int(1, 4))
                feats |= g.feats
                if not e.const:
                    nonconst += 1
                k = s.below(10)
                if k < 4:
                    body.append('printf("%s\\n", %s);' % (FMT[e.ty], e.at(2)))
                elif k < 6:
                    body.append('printf("%%ld\\n", (long)%s);' % e.at(UN))
                elif k < 7:
                    body.append('if (%s) printf("t%d\\n"); else printf("f%d\\n");' % (e.text, ei, ei))
                    feats.add("if")
                elif k < 8:
                    ty = s.pick(INTS)
                    body.append('{ %s r = %s; printf("%s\\n", r); }' % (cname(s, ty), e.at(2), FMT[ty]))
                    feats.add("init:" + ty)
                elif k < 9:
                    ty = s.pick(INTS)
                    body.append('{ %s r; r = %s; printf("%s\\n", r); }' % (cname(s, ty), e.at(2), FMT[ty]))
                else:
                    ty = s.pick(INTS)
                    out.append("%s h%d_%d(%s) { return %s; }" % (
                        cname(s, ty), fi, ei, ", ".join("%s %s%s" % (cname(s, t.strip("*")), "*" if t[-1] == "*" else "", n)
                                                for n, t, v in vs_params(vs)) or "void",
                        e.text if e.prec > 1 else "(" + e.text + ")"))
                    body.append('printf("%s\\n", h%d_%d(%s));' % (
                        FMT[ty], fi, ei, ", ".join(n for n, t, v in vs_params(vs))))
                    feats.add("return:" + ty)
            out.append("void f%d(%s) {\n  %s\n}" % (
                fi, ", ".join("%s %s" % (cname(s, ty), n) for n, ty, v in params) or "void", "\n  ".join(body)))
            calls.append("f%d(%s);" % (fi, ", ".join(const_in(s, v, ty) for n, ty, v in params)))
        out.append("int main(void) {\n  %s\n  return 0;\n}" % "\n  ".join(calls))
        text = "\n".join(out) + "\n"
        nops = len([f for f in feats if f.startswith("op")])
        return Case(text, feats, nontrivial=nops >= 3 and nonconst >= 1)


def vs_params(vs):
    return [(n.replace("*q", "q"), t + "*" if n == "*q" else t, v) for n, t, v in vs if n[0] in "px*"]


PROP = C01
