from ..engine import Prop, Case
from .common import *


def value_for(s, a, b):
    """a value of type a whose conversion to b is defined"""
    for _ in range(4):
        v = rand_any(s, a)
        try:
            conv(v, a, b)
            return v
        except Undefined:
            pass
    # a float inside b's range
    x = rand_value(s, b)
    v = int_to_float(x, a)
    frac = s.pick([0.0, 0.5, 0.99, 0.25])
    w = v + frac if v >= 0 else v - frac
    if a == "float":
        w = f32(w)
    for c in (w, v, 1.0 if s.chance(50) else 0.0):
        try:
            conv(c, a, b)
            return c
        except Undefined:
            pass
    return 0.0


class C02(Prop):
    id = "C02"
    quick = 2000
    thorough = 20000
    rule = ("programs of up to 24 conversion probes; each draws a source type, a target type, a defined source value "
            "(boundary values, exact halves, values just inside the target range) and one of 20 contexts (local, global, "
            "static and aggregate initialisers, assignment, value of an assignment, cast, argument, return, varargs, array "
            "element, member and pointer stores, compound assignment, ?:, mixed operators, conditions, switch, index, ++/--); "
            "non-trivial: at least one probe whose source and target types differ")
    assumptions = ["gcc -O0 gives the C value"]

    def gen(self, s):
        head = ["#include <stdio.h>", FLOAT_HELPERS]
        funs, glob, body, decls = [], [], [], []
        feats = set()
        nontriv = False
        n = s.int(1, 24)
        funcs = []
        for i in range(n):
            a = s.pick(ALL)
            b = s.pick(ALL)
            k = s.below(24)
            v = value_for(s, a, b)
            A, B = cname(s, a), cname(s, b)
            if a != b:
                nontriv = True
            # the source operand
            st = s.below(7)
            lines = []
            if st == 0:
                lines.append("%s s = %s;" % (A, to_text(s, v, a)))
                src = "s"
            elif st == 1:
                glob.append("%s gs%d = %s;" % (A, i, to_text(s, v, a)))
                src = "gs%d" % i
            elif st == 2:
                lines.append("%s sa[3] = {0, %s, 0};" % (A, to_text(s, v, a)))
                src = "sa[1]"
            elif st == 3:
                glob.append("struct t%d { char c; %s m; short d; };" % (i, A))
                lines.append("struct t%d st; st.c = 0; st.d = -1; st.m = %s;" % (i, to_text(s, v, a)))
                src = "st.m"
            elif st == 4:
                lines.append("%s s0 = %s; %s *s = &s0;" % (A, to_text(s, v, a), A))
                src = "*s"
            elif st == 5:
                glob.append("%s ret%d(void) { %s x = %s; return x; }" % (A, i, A, to_text(s, v, a)))
                src = "ret%d()" % i
            else:
                # a constant operand: its own type decides
                if isf(a):
                    src = to_text(s, v, "double")
                    a = "double"
                else:
                    e = const_of(s, v)
                    src, a, v = "(" + e.text + ")", e.ty, e.val
            try:
                r = conv(v, a, b)
            except Undefined:
                continue
            feats.add("%s->%s" % (a, b))
            feats.add("ctx%d" % k)
            if k == 0:
                lines += ["%s r = %s;" % (B, src), show(b, "r")]
            elif k == 1:
                lines += ["%s r;" % B, "r = %s;" % src, show(b, "r")]
            elif k == 2:
                c = s.pick(ALL)
                try:
                    conv(r, b, c)
                except Undefined:
                    c = b
                lines += ["%s r;" % B, "%s z = (r = %s);" % (cname(s, c), src), show(c, "z"), show(b, "r")]
            elif k == 3:
                lines.append(show(b, "(%s)%s" % (B, src)))
            elif k == 4:
                glob.append("%s id%d(int u, %s x, char w) { return x; }" % (B, i, B))
                lines.append(show(b, "id%d(1, %s, 2)" % (i, src)))
            elif k == 5:
                glob.append("%s rt%d(%s x) { return x; }" % (B, i, cname(s, a)))
                lines.append(show(b, "rt%d(%s)" % (i, src)))
            elif k == 6:
                lines += ["%s r[3];" % B, "r[0] = 0; r[2] = 0; r[1] = %s;" % src] + [show(b, "r[%d]" % j) for j in range(3)]
            elif k == 7:
                glob.append("struct d%d { char a; %s m; char z; };" % (i, B))
                lines += ["struct d%d r; r.a = 17; r.z = 18; r.m = %s;" % (i, src), show(b, "r.m"),
                          'printf("%d %d\\n", r.a, r.z);']
            elif k == 8:
                lines += ["%s r0; %s *r = &r0;" % (B, B), "*r = %s;" % src, show(b, "r0"), show(b, "*r")]
            elif k == 9:
                lines += ["%s r[2] = {%s, %s};" % (B, src, src), show(b, "r[0]"), show(b, "r[1]")]
            elif k == 10:
                glob.append("struct e%d { short a; %s m; };" % (i, B))
                lines += ["struct e%d r = {3, %s};" % (i, src), show(b, "r.m"), show("short", "r.a")]
            elif k in (11, 12, 13):
                # compound assignment
                w = value_for(s, b, b)
                ops = ["+", "-", "*"] + ([] if isf(a) or isf(b) else ["&", "|", "^", "/", "%"])
                op = s.pick(ops)
                try:
                    ty, x = binop(op, b, w, a, v)
                    conv(x, ty, b)
                except Undefined:
                    op, w = "-", v if a == b else (0.0 if isf(b) else 0)
                    try:
                        ty, x = binop(op, b, w, a, v)
                        conv(x, ty, b)
                    except Undefined:
                        continue
                feats.add("cmp" + op)
                lines += ["%s r = %s;" % (B, to_text(s, w, b)), "r %s= %s;" % (op, src), show(b, "r")]
            elif k == 14:
                w = rand_any(s, b)
                lines += ["%s w = %s; int c = %d;" % (B, to_text(s, w, b), s.below(2)),
                          show(common(a, b), s.pick(["c ? %s : w", "c ? w : %s"]) % src)]
            elif k in (15, 16, 17):
                w = rand_any(s, b)
                op = s.pick(["+", "-", "*", "<", ">", "<=", ">=", "==", "!="])
                lines += ["%s w = %s;" % (B, to_text(s, w, b))]
                ty, x = binop(op, b, w, a, v)
                if s.chance(50):
                    lines.append(show(ty, "w %s %s" % (op, src)))
                else:
                    ty, x = binop(op, a, v, b, w)
                    lines.append(show(ty, "%s %s w" % (src, op)))
                feats.add("mix" + op)
            elif k == 18:
                # default argument promotions
                if isf(a):
                    if abs(v) > 1e15:
                        continue
                    lines.append('printf("%%d %%f %%d\\n", 1, %s, 2);' % src)
                else:
                    lines.append('printf("%%d %s %%d\\n", 1, %s, 2);' % (FMT[a], src))
            elif k == 19:
                lines.append('if (%s) printf("t\\n"); else printf("f\\n");' % src)
                lines.append('printf("%%d\\n", !%s);' % src)
                lines.append('printf("%%d %%d\\n", %s && 1, 0 || %s);' % (src, src))
            elif k == 20:
                if isf(a) or isf(b):
                    continue
                lines.append('switch ((%s)%s) { case %s: printf("same\\n"); break; case %d: printf("c\\n"); break; default: printf("other\\n"); }'
                             % (B, src, const_of(s, conv(r, b, promote(b)), 0).text, 77 if r != 77 else 78))
            elif k == 21:
                if isf(a):
                    continue
                m = conv(v, a, promote(a))
                lines += ["int ix[5] = {10, 20, 30, 40, 50};", "%s y = 2;" % A, "y = y + (%s)(%s & 1);" % (A, src),
                          'printf("%d %d\\n", ix[y], *(ix + y));', "y = y - 3;", "{ int *p = ix + 3; printf(\"%d\\n\", p[(signed char)y]); }"]
            elif k == 22:
                op = s.pick(["r++", "++r", "r--", "--r"])
                try:
                    r = conv(v, a, b)
                    x = r + 1 if "+" in op else r - 1
                    if isf(b):
                        pass
                except Undefined:
                    continue
                lines += ["%s r = %s;" % (B, src), show(b, op), show(b, "r")]
            else:
                # static storage initialised by a constant
                t = to_text(s, v, a)
                try:
                    if isf(a):
                        vv = v
                        conv(vv, "double", b)
                    else:
                        e = const_of(s, v, 0)
                        t = e.text
                        conv(e.val, e.ty, b)
                except Undefined:
                    continue
                glob.append("%s gg%d = %s;" % (B, i, t))
                lines += [show(b, "gg%d" % i), "static %s ss = %s;" % (B, t), show(b, "ss"), "gg%d = gg%d + 1;" % (i, i) if not isf(b) else ";"]
            funcs.append("void q%d(void) {\n  %s\n}" % (i, "\n  ".join(lines)))
            body.append("q%d();" % i)
        text = "\n".join(head + glob + funcs + ["int main(void) {\n  %s\n  return 0;\n}" % "\n  ".join(body)]) + "\n"
        return Case(text, feats, nontrivial=nontriv)


PROP = C02
