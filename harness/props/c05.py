from ..engine import Prop, Case
from ..ctl import Ctl, TRACE
from .c04 import program


def graph(s):
    """a function that is nothing but a control-flow graph"""
    n = s.int(2, 12)
    feats = set(["graph"])
    blocks = []
    for i in range(n):
        c = Ctl(s)
        b = ["L%d: t(%d);" % (i, i), "if (fuel-- <= 0) return s;"]
        if s.chance(70):
            b.append(c.upd() + ";")
        k = s.below(10)
        tgt = lambda: "L%d" % s.below(n)
        if k < 2:
            b.append("goto %s;" % tgt())
        elif k < 5:
            b.append("if (%s) goto %s;" % (c.cond(1), tgt()))
            feats.add("cond-fall")
        elif k < 7:
            b.append("if (%s) goto %s; else goto %s;" % (c.cond(1), tgt(), tgt()))
            feats.add("cond-two")
        elif k < 8:
            m = s.int(2, 4)
            b.append("switch (s & %d) { %s }" % (3 if m > 2 else 1, " ".join("case %d: goto %s;" % (j, tgt()) for j in range(m))))
            feats.add("switch-goto")
        elif k < 9:
            b.append("if (%s) return s;" % c.cond(1))
        else:
            b.append("while (%s) { if (fuel-- <= 0) goto %s; %s; if (%s) goto %s; }" % (c.cond(1), tgt(), c.upd(), c.cond(1), tgt()))
            feats.add("loop-goto")
        blocks.append(" ".join(b))
    return blocks, feats


class C05(Prop):
    id = "C05"
    quick = 1800
    thorough = 30000
    rule = ("two generators: (a) functions that are random control-flow graphs of 2-12 labelled blocks (conditional, two-way, "
            "switch and loop-nested gotos, forward and backward), (b) random structured statements with labels at any "
            "nesting depth and gotos into, out of and across loops, switches and branches; every label burns fuel, the "
            "trace of visited labels and the results are compared; non-trivial: at least one goto is executable")
    assumptions = ["gcc -O0 executes the C trace"]

    def gen(self, s):
        if s.chance(50):
            out = [TRACE.replace("60", "25")]
            feats = set()
            main = []
            for f in range(s.int(1, 3)):
                blocks, fe = graph(s)
                feats |= fe
                out.append("int f%d(int s) {\n%s\nreturn s + 1;\n}" % (f, "\n".join(blocks)))
                for a in s.sample([0, 1, 2, 5, 7, 11, 19, 30, 45, 63], s.int(1, 6)):
                    main.append('fuel = 25; printf("=%%d\\n", f%d(%d));' % (f, a))
            out.append("int main(void) {\n  %s\n  return 0;\n}" % "\n  ".join(main))
            return Case("\n".join(out) + "\n", feats, nontrivial=len(feats) > 1)
        text, feats = program(s, True, 20)
        return Case(text, feats, nontrivial="goto" in feats)


PROP = C05
