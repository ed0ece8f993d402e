import re
from ..engine import Prop, Case, reference, run_one
from .. import live
from ..cgen import *
from ..toolchain import FLAGS

TYPES = ["int", "int", "int", "long", "char", "short", "uint", "uchar", "ushort", "ulong", "double", "float"]


class Acts(live.Live):
    """Live functions whose activations announce themselves: every t(...) prints 'activation:k'."""

    def __init__(self, s, gotos, callees, name, rec):
        live.Live.__init__(self, s, gotos, callees, name)
        self.rec = rec
        self.ps0 = None

    def upd(self):
        s = self.s
        if self.rec and s.chance(12):
            self.feats.add("recursion")
            self.cost += 100
            return "fuel-- > 0 ? (int)%s(%s) : %d" % (
                self.name, ", ".join(["s + 1 & 63"] + ["1"] * (len(self.ps) - 1)), s.int(0, 5))
        return live.Live.upd(self)

    def function(self, depth):
        text = live.Live.function(self, depth)
        text = re.sub(r"\bt\(", "t(me, ", text)
        i = text.index("{")
        return text[:i + 1] + "\nint me = act++;" + text[i + 1:]


HEAD = """#include <stdio.h>
int fuel = 40, act = 1;
int gi = 3; long gl = 5; char gc = 7;
void t(int me, int k) { printf("@%d:%d\\n", me, k); }
"""


def histories(s):
    out, feats, funs, main = [HEAD], set(), [], []
    for i in range(s.int(1, 4)):
        c = Acts(s, s.chance(35), funs, "f%d" % i, s.chance(60))
        c.selfrec = s.chance(25)
        out.append(c.function(s.int(1, 3)))
        feats |= c.feats
        funs.append(("f%d" % i, [t for _, t in c.ps], c.ret))
        for a in range(s.int(1, 3)):
            main.append('t(0, %d);\nfuel = 12; printf("=%%d\\n", (int)f%d(%s));' % (a, i, ", ".join(str(s.int(0, 63)) for _ in c.ps)))
    text = "\n".join(out).replace('%f ",', '%f\\n",')
    text = re.sub(r'printf\("(%\w+) "', r'printf("\1\\n"', text)
    text += '\nint main(void) {\n%s\nt(0, 99);\nprintf("%%d\\n", gi);\nreturn gi & 127;\n}\n' % "\n".join(main)
    return text, feats


def deep(s):
    """self and mutual tail recursion of great depth; marks at the beginning, in between and at the end"""
    out = ["#include <stdio.h>", "int acc = 1, hits = 0;", "void mark(int k) { printf(\"#%d\\n\", k); }",
           "int side(int a, long b) { int c = a * 3; acc = acc * 5 + c + (int)b; return acc & 7; }"]
    main, feats = [], set()
    for i in range(s.int(1, 3)):
        mutual = s.chance(30)
        n = s.int(800, 2500) if mutual else s.pick([3000, 20000, 200000])
        ret = s.pick(["int", "int", "long", "uint", "char", "double", "short"])
        k = s.below(5) if s.chance(80) else s.int(6, 14)
        ps = [("n", "int")] + [("p%d" % j, s.pick(TYPES)) for j in range(k)]
        if s.chance(15):
            s.shuffle(ps)
        names = ["f%d" % i] if not mutual else ["f%d" % i, "g%d" % i]
        feats.add("mutual" if mutual else "self")
        sig = lambda f: "%s %s(%s)" % (SPELL[ret][0], f, ", ".join("%s %s" % (SPELL[t][0], v) for v, t in ps))
        if mutual:
            out.append(sig(names[1]) + ";")
        nsites = 0
        for j, f in enumerate(names):
            other = names[(j + 1) % len(names)]

            def args():
                r = []
                for v, t in ps:
                    if v == "n":
                        r.append("n - 1")
                        continue
                    o = s.pick(ps)
                    if s.chance(20):
                        r.append(str(s.int(0, 90)))
                    elif isf(t):
                        r.append(s.pick(["%s * 0.5 + 1" % v, "%s + %d" % (v, s.int(1, 5)), v, "n"]))
                    elif isf(o[1]):
                        r.append("(int)%s %% 50 + 1" % o[0] if False else v)
                    else:
                        r.append(s.pick(["%s + %d" % (o[0], s.int(1, 9)), o[0], "%s ^ %s" % (v, o[0]), "%s & %s" % (v, o[0]), "(%s + n) %% 97" % o[0] if o[1] in ("int", "short", "char") else v]))
                return ", ".join(r)

            call = lambda: "return %s(%s);" % (other if not mutual or s.chance(80) else f, args())
            b = ["%s;" % "hits++", "if (n == %d || n == %d || n == 1) mark(%d);" % (n - 1 - j, n // 2, i)]
            b = ["hits++;", "if (n %% %d == 1) mark(%d);" % (max(2, n // s.int(3, 9)) | 1, i * 2 + j)]
            for q in range(s.below(4)):
                b.append("int l%d = n * %d;" % (q, s.int(1, 9)) if s.chance(60) else "double l%d = n;" % q)
            if s.chance(40):
                b.append("acc += side(n, acc & 15);" if s.chance(70) else "int z = side(1, n); acc += z;")
                feats.add("inner-call")
            base = ["return acc;", "return %d;" % s.int(0, 99)] + \
                ["return %s;" % " + ".join("(%s > 3)" % v if isf(t) else "(%s & 63) * %d" % (v, 2 * q + 1) for q, (v, t) in enumerate(ps))] * 2
            b.append("if (n <= 0) { mark(%d); %s }" % (i * 2 + j, s.pick(base)))
            shape = s.below(8)
            if shape == 0:
                b.append("if (n & 1) { acc += n; %s } else { acc ^= n; %s }" % (call(), call()))
            elif shape == 1:
                b.append("switch (n & 3) { case 0: %s case 1: acc++; default: %s }" % (call(), call()))
            elif shape == 2:
                b.append("while (1) { acc += 3; %s }" % call())
            elif shape == 3:
                b.append("for (int i = 0; i < 3; i++) { acc += i; if (i == (n & 1)) %s }\n%s" % (call(), call()))
            elif shape == 4:
                b.append("if (n %% 7 == 3) %s\nacc += 2;\n%s" % (call(), call()))
            elif shape == 5:
                b.append("do { acc += n & 1; if (n & 2) break; %s } while (0);\n%s" % (call(), call()))
            else:
                b.append("acc = acc * 3 + n;\n" + call())
            feats.add("shape%d" % shape)
            out.append("%s {\n%s\n}" % (sig(f), "\n".join(b)))
        vals = ", ".join(str(n) if v == "n" else str(s.int(0, 100)) for v, t in ps)
        pre = s.pick(["", "int loc%d = %d; " % (i, i)])
        main.append('%shits = 0; printf("=%%d", (int)%s(%s)); printf(" %%d %%d\\n", acc, hits); mark(-1);' % (pre, names[0], vals))
    out.append("int main(void) {\nmark(-1);\n%s\nreturn acc & 63;\n}" % "\n".join(main))
    return "\n".join(out) + "\n", feats


def frames(s):
    """few variables, many parameters: what a frame consists of apart from the variables"""
    out, main, feats = [HEAD], [], set()
    for i in range(s.int(1, 3)):
        ps = [("n", "int")] + [("p%d" % j, s.pick(TYPES)) for j in range(s.below(4) if s.chance(25) else s.int(5, 14))]
        ret = s.pick(["int", "long", "double", "char", "void"])
        rt = "void" if ret == "void" else SPELL[ret][0]
        b = ["int me = act++;"]
        names = [v for v, ty in ps]
        for j in range(s.below(4)):
            k = s.below(5)
            if k == 0:
                b.append("int a%d[%d]; a%d[0] = n;" % (j, s.int(1, 6), j))
                names.append("a%d[0]" % j)
            else:
                ty = s.pick(TYPES)
                b.append("%s x%d = n + %d;" % (SPELL[ty][0], j, j))
                names.append("x%d" % j)
                if k == 1:
                    b.append("%s *q%d = &x%d; *q%d = *q%d + 1;" % (SPELL[ty][0], j, j, j, j))
        b.append("t(me, 0);")
        args = ", ".join(["n - 1"] + [s.pick([v, v, str(s.int(0, 60))]) for v, ty in ps[1:]])
        b.append("if (n > 0) { %sf%d(%s); %st(me, 1); }" % (
            "" if ret == "void" else s.pick(["", "gl += ", "int z = "]), i, args, s.pick(["", "f%d(%s); " % (i, args.replace("n - 1", "n - 2", 1))])))
        use = s.sample(names, s.below(len(names) + 1))
        for v in use[:s.below(4)]:
            b.append("gi ^= (int)%s & 7;" % v)
        b.append("t(me, 2);")
        if ret != "void":
            b.append("return %s;" % (" + ".join(["((int)%s & 15)" % v for v in use]) or "n"))
        out.append("%s f%d(%s) {\n%s\n}" % (rt, i, ", ".join("%s %s" % (SPELL[ty][0], v) for v, ty in ps), "\n".join(b)))
        feats.add("params=%d" % len(ps))
        feats.add("ret=" + ret)
        main.append("t(0, %d);\nf%d(%s);" % (i, i, ", ".join([str(s.int(1, 5))] + [str(s.int(0, 60)) for _ in ps[1:]])))
    out.append('int main(void) {\n%s\nt(0, 99);\nprintf("%%d %%ld\\n", gi, gl);\nreturn gi & 127;\n}' % "\n".join(main))
    return "\n".join(out) + "\n", feats


def tokens(out):
    """one entry per printf call (generated programs end every call's output with a newline, or begin it with '=' / blank)"""
    return re.findall(r"[^\n]+\n", out)


class C15(Prop):
    id = "C15"
    quick = 700
    thorough = 24000
    rule = ("(a) call histories: 1-4 functions with up to 15 parameters, random variables, control flow, calls, recursion and tail calls, each activation of which prints its "
            "number at many places; the stack pointer read at every printf must be the same throughout an activation, nothing but main's own frame may be left "
            "at the end, every value logged by --prof-stack must lie between the initial value and the memory's end and the last one equal the "
            "first, and at each printf the optimised allocation may not use more stack than --noopt-stack-allocation; "
            "(b) self tail calls 3000 to 200000 and mutual ones 800 to 2500 deep without addressed variables: marks at many depths must see one stack pointer; outputs are "
            "compared with gcc's; non-trivial: the program makes a call from a function other than main")
    assumptions = ["tail calls are bounded only in functions whose locals are not addressed (their frames cannot be replaced)",
                   "memory is one 64 KB page"]

    def gen(self, s):
        if s.chance(40):
            text, feats = deep(s)
            return Case(text, feats, kind="deep", bigstack=True, fl=s.pick([[], [], ["--noopt-stack-allocation"], ["--noopt-unreachable-procedure"]]))
        text, feats = histories(s) if s.chance(70) else frames(s)
        return Case(text, feats, kind="hist", fl=s.pick([[], [], ["--noopt-tailcall"], ["--noopt-unreachable-procedure"]]))

    def check(self, case, t):
        exp, rc = reference(case, t)
        if case.kw["kind"] == "deep":
            f, r = run_one(case, t, exp, rc, flags=case.kw["fl"], trace=True)
            return f or self.deep(r, t)
        f, r = run_one(case, t, exp, rc, flags=case.kw["fl"], trace=True)
        if f:
            return f
        f = self.restored(r, t)
        if f:
            return f
        f, r2 = run_one(case, t, exp, rc, flags=case.kw["fl"] + ["--noopt-stack-allocation"], trace=True)
        if f:
            return f
        f = self.restored(r2, t)
        if f:
            return "[--noopt-stack-allocation] " + f
        toks = tokens(r["out"])
        for i, (a, b) in enumerate(zip(r["sps"], r2["sps"])):
            if a[2] > b[2]:
                return "at printf %d (%r) the optimised allocation has stack pointer %d, the plain one %d" % (i, toks[i], a[2], b[2])
            if a[2] < b[2]:
                t.bump("printf_with_smaller_stack")
        f, r3 = run_one(case, t, exp, rc, flags=case.kw["fl"] + ["--prof-stack"], trace=True)
        if f:
            return f
        f = self.restored(r3, t) or self.logged(r3, t)
        if f:
            return "[--prof-stack] " + f
        return None

    def deep(self, r, t):
        if not r["spArgs"] <= r["spEnd"] <= r["sps"][-1][2]:
            # (the start code leaves main's own frame in place when the program is over)
            return "the program starts with stack pointer %s, main prints at %s and the program ends with %s" % (r["spArgs"], r["sps"][-1][2], r["spEnd"])
        seen = {}
        k = -1
        for line in re.findall(r"#-?\d+\n|=-?\d+| -?\d+ -?\d+\n", r["out"]):
            k += 1
            if not line.startswith("#"):
                continue
            t.bump("deep_marks")
            sp = r["sps"][k][2]
            # a function and its mutually recursive partner may have different frames above the same base
            if seen.setdefault(line, sp) != sp:
                return "mark %r at stack pointer %d, earlier at %d: tail calls consume stack" % (line.strip(), sp, seen[line])
        if k + 1 != len(r["sps"]):
            return "%d printf calls observed for %d outputs" % (len(r["sps"]), k + 1)
        return None

    def restored(self, r, t):
        if not r["spArgs"] <= r["spEnd"] <= r["sps"][-1][2]:
            # (the start code leaves main's own frame in place when the program is over)
            return "the program starts with stack pointer %s, main prints at %s and the program ends with %s" % (r["spArgs"], r["sps"][-1][2], r["spEnd"])
        toks = tokens(r["out"])
        if len(toks) != len(r["sps"]):
            return "%d printf calls observed for %d outputs" % (len(r["sps"]), len(toks))
        seen = {}
        for tok, sp in zip(toks, r["sps"]):
            if sp[2] < r["spArgs"]:
                return "stack pointer %d below its start value %d" % (sp[2], r["spArgs"])
            if tok.startswith("@"):
                me = tok[1:].split(":")[0]
                t.bump("stack_pointer_observations")
                if seen.setdefault(me, sp[2]) != sp[2]:
                    return "activation %s: stack pointer %d at %r, earlier %d" % (me, sp[2], tok, seen[me])
        t.bump("activations", len(seen))
        return None

    def logged(self, r, t):
        p = r["prof"]
        if not p:
            return "no stack pointer was logged"
        t.bump("logged_stack_pointers", len(p))
        if min(p) < r["sp0"] or max(p) > 65536:
            return "logged stack pointers range from %d to %d (start %d)" % (min(p), max(p), r["sp0"])
        if len(p) < 200000 and p[-1] != r["spEnd"]:
            return "last logged stack pointer %d, actual %d" % (p[-1], r["spEnd"])
        hi = max(x[2] for x in r["sps"])
        if len(p) < 200000 and max(p) < hi:
            return "the log's maximum is %d but printf saw %d" % (max(p), hi)
        return None


PROP = C15
