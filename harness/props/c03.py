from ..engine import Prop, Case
from .common import *


def specials(s, feats):
    """operands that are infinite, not a number, or signed zeroes"""
    feats.add("specials")
    ts = [s.pick(FLOATS) for _ in range(3)]

    def val(ty):
        return s.pick(["z / z", "z / z", "1 / z", "-1 / z", "-z", "z", "1.5", "-2.25", "-(z / z)", "1 / z - 1 / z",
                       float_text(abs(rand_float(s, ty)))])

    names = ["a", "b", "c"]
    decl = " ".join("%s %s = %s;" % (t, n, val(t)) for t, n in zip(ts, names))
    ops = ["<", "<=", ">", ">=", "==", "!="]

    def cmp():
        x = s.pick(names)
        y = s.weighted([(6, s.pick(names)), (1, "0"), (1, "1.5"), (1, "one")])
        return ("%s %s %s" if s.chance(85) else "!(%s %s %s)") % ((x, s.pick(ops), y) if s.chance(80) else (y, s.pick(ops), x))

    st = []
    for _ in range(s.int(1, 5)):
        k = s.below(8)
        if k < 2:
            st.append('printf("%d%d%d\\n", ' + ", ".join(cmp() for _ in range(3)) + ");")
        elif k < 3:
            st.append('if (%s) printf("t\\n"); else printf("f\\n");' % s.pick([cmp(), s.pick(names), "!" + s.pick(names)]))
        elif k < 4:
            st.append('printf("%%d\\n", %s ? 5 : 6);' % s.pick([cmp(), s.pick(names)]))
        elif k < 5:
            st.append('printf("%%d\\n", (%s) %s (%s));' % (cmp(), s.pick(["&&", "||"]), s.pick([cmp(), s.pick(names)])))
        elif k < 6:
            st.append('{ int n = 0; while (%s) { if (n++ > 2) break; } printf("%%d\\n", n); }' % cmp())
        elif k < 7:
            i, j = s.below(3), s.below(3)
            ty = "double" if "double" in (ts[i], ts[j]) else "float"
            st.append(show(ty, "%s %s %s" % (names[i], s.pick(["+", "-", "*", "/"]), names[j])))
        else:
            i = s.below(3)
            st.append(show(ts[i], s.pick(["-%s", "%s", "+%s"]) % names[i]))
    return "{ %s z = 0; int one = 1; %s %s }" % (s.pick(FLOATS), decl, " ".join(st))


def mixes(s, feats):
    """integers that aren't representable in the floating type that they're converted to"""
    feats.add("mixes")
    st = []
    for _ in range(s.int(1, 5)):
        ity, fty = s.pick(["int", "uint", "long", "long", "ulong", "ulong"]), s.pick(["float", "float", "double"])
        i, f = const_in(s, tie_value(s, ity), ity), const_in(s, s.pick([0.0, 1.0, rand_float(s, fty)]), fty)
        b = ["%s i = %s; %s f = %s;" % (SPELL[ity][0], i, fty, f)]
        for _ in range(s.int(1, 3)):
            b.append(s.pick([show(fty, "i %s f" % s.pick("+-*")), show(fty, "f %s i" % s.pick("+-*/")), show(fty, "(%s)i" % fty), "f %s= i; %s" % (s.pick(["", "+", "-", "*"]), show(fty, "f")),
                             'printf("%%d\\n", i %s f);' % s.pick(["<", "<=", "==", "!=", ">", ">="]), "f = i; " + show("int", "f %s i" % s.pick(["<", "==", ">"]))]))
        st.append("{ " + " ".join(b) + " }")
    return " ".join(st)


class C03(Prop):
    id = "C03"
    quick = 1800
    thorough = 20000
    rule = ("programs printing the bit patterns of random floating/mixed expressions (depth<=4) over float, double and "
            "integer operands (boundary magnitudes, denormals, exact ties, infinities, NaN and signed zeroes arising from operations, in every comparison, condition and operator; integers halfway between neighbouring floats), "
            "compound assignments, ++/--, comparisons and conditions; non-trivial: at least 3 operators, one of them on a "
            "floating operand that is not a constant")
    assumptions = ["gcc -O0 on x86-64 evaluates in the operand type (FLT_EVAL_METHOD 0)", "NaNs are compared as a class"]

    def gen(self, s):
        out = ["#include <stdio.h>", FLOAT_HELPERS]
        feats = set()
        calls = []
        nonconst = 0
        special = s.chance(25)
        glob = []
        for i in range(s.int(1, 4)):
            ty = s.weighted([(4, "double"), (4, "float"), (2, None)]) or s.pick(INTS)
            v = rand_any(s, ty)
            if special and isf(ty) and s.chance(50):
                v = s.pick([0.0, -0.0, 5e-324, 1.7976931348623157e308, 2.2250738585072014e-308] if ty == "double" else
                           [0.0, -0.0, f32(1e-45), f32(3.4e38), f32(1.1754943508222875e-38)])
            glob.append(("g%d" % i, ty, v))
            out.append("%s g%d = %s;" % (cname(s, ty), i, const_in(s, v, ty)))
        for fi in range(s.int(1, 4)):
            params = [("p%d" % i, ty, rand_any(s, ty)) for i, ty in
                      enumerate(s.weighted([(4, "double"), (4, "float"), (2, "int"), (1, "ulong"), (1, "long"), (1, "char")])
                                for _ in range(s.below(4)))]
            loc = [("x%d" % i, ty, rand_any(s, ty)) for i, ty in
                   enumerate(s.weighted([(4, "double"), (4, "float"), (2, "int"), (1, "uint"), (1, "short")]) for _ in range(s.int(1, 3)))]
            vs = glob + params + loc
            body = ["%s %s = %s;" % (cname(s, ty), n, const_in(s, v, ty)) for n, ty, v in loc]
            for ei in range(s.int(1, 6)):
                k = s.below(16)
                if k >= 12:
                    body.append(specials(s, feats) if k < 14 else mixes(s, feats))
                    continue
                g = Gen(s, vs, floats=True)
                e = g.expr(s.int(1, 4))
                if not isf(e.ty) and s.chance(70):
                    fv = [x for x in vs if isf(x[1])]
                    if fv:
                        t, ty, v = s.pick(fv)
                        try:
                            e = g.bin(s.pick(["+", "-", "*", "/", "<", ">=", "=="]), e, E(t, PRIM, ty, v))
                        except Undefined:
                            pass
                feats |= g.feats
                nonconst += not e.const
                if k < 6:
                    body.append(show(e.ty, e.at(2)))
                elif k < 7:
                    body.append('if (%s) printf("t\\n"); else printf("f\\n");' % e.text)
                    feats.add("if")
                elif k < 8:
                    ty = s.pick(FLOATS)
                    body.append("{ %s r = %s; %s }" % (ty, e.at(2), show(ty, "r")))
                elif k < 10:
                    ty = s.pick(FLOATS)
                    v = rand_float(s, ty)
                    op = s.pick(["+", "-", "*", "/"])
                    feats.add("op=" + op)
                    body.append("{ %s r = %s; r %s= %s; %s }" % (ty, const_in(s, v, ty), op, e.at(2), show(ty, "r")))
                elif k < 11:
                    ty = s.pick(FLOATS)
                    op = s.pick(["r++", "++r", "r--", "--r"])
                    body.append("{ %s r = %s; %s %s }" % (ty, e.at(2), show(ty, op), show(ty, "r")))
                else:
                    out.append("%s h%d_%d(%s) { return %s; }" % (
                        e.ty if isf(e.ty) else SPELL[e.ty][0], fi, ei,
                        ", ".join("%s %s" % (cname(s, t), n) for n, t, v in params + loc), e.text))
                    body.append(show(e.ty, "h%d_%d(%s)" % (fi, ei, ", ".join(n for n, t, v in params + loc))))
            out.append("void f%d(%s) {\n  %s\n}" % (fi, ", ".join("%s %s" % (cname(s, ty), n) for n, ty, v in params) or "void",
                                                    "\n  ".join(body)))
            calls.append("f%d(%s);" % (fi, ", ".join(const_in(s, v, ty) for n, ty, v in params)))
        out.append("int main(void) {\n  %s\n  return 0;\n}" % "\n  ".join(calls))
        nops = len([f for f in feats if f.startswith("op")])
        return Case("\n".join(out) + "\n", feats, nontrivial=nops >= 3 and nonconst >= 1)


PROP = C03
