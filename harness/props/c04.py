from ..engine import Prop, Case
from ..ctl import Ctl, TRACE


def program(s, gotos, fuel=60):
    feats = set()
    out = [TRACE.replace("fuel = 60", "fuel = %d" % fuel)]
    callees = []
    n = s.int(1, 3)
    for i in range(n):
        c = Ctl(s, gotos=gotos, callees=callees if not gotos else [])
        out.append(c.function("f%d" % i, s.int(1, 4)))
        feats |= c.feats
        callees.append(("f%d" % i, max(c.cost, 1)))
    main = []
    calls = 0
    for i in range(n):
        for a in s.sample([0, 1, 2, 5, 7, 11, 19, 30, 45, 63], s.int(1, 5)):
            if gotos:
                main.append("fuel = %d;" % fuel)
            main.append('printf("=%%d\\n", f%d(%d));' % (i, a))
    out.append("int main(void) {\n  %s\n  return f%d(3) & 127;\n}" % ("\n  ".join(main), n - 1))
    return "\n".join(out) + "\n", feats


class C04(Prop):
    id = "C04"
    quick = 1800
    thorough = 30000
    rule = ("programs of 1-3 functions of random structured statements (depth<=4: if/else chains, while, do, for in all "
            "forms, switch with shared/nested/negative cases, fall-through and default anywhere, break, continue, return, "
            "unbraced bodies), state-dependent conditions, called with 1-5 seeds each; the printed trace and return values "
            "are compared; non-trivial: at least 3 different control constructs, one of them a loop or switch")
    assumptions = ["gcc -O0 executes the C trace"]

    def gen(self, s):
        text, feats = program(s, False)
        nt = len(feats) >= 3 and feats & {"while", "do", "for", "switch"}
        return Case(text, feats, nontrivial=bool(nt))


PROP = C04
