import os
from ..engine import Prop, Case, reference, run_one, write_case
from ..toolchain import FLAGS
from .. import wasm

CTYPE = {"isalnum": ["isalpha", "isdigit"], "isalpha": [], "iscntrl": [], "isdigit": [], "isxdigit": ["isdigit"],
         "isgraph": ["isprint"], "ispunct": ["isgraph", "isalnum"], "isprint": [], "islower": [], "isupper": [],
         "isspace": [], "tolower": ["isupper"], "toupper": ["islower"]}
LIBS = {"strlen": "strlen(\"ab\" + (x & 1))", "strstr": "(strstr(\"abc\", \"c\") != 0)",
        "strtol": "(int)strtol(\"12\", 0, 10)", "strtoul": "(int)strtoul(\"12\", 0, 10)"}
NOOPT = "--noopt-unreachable-procedure"


def magic(i):
    return 0x4d000000 + i * 4099


def close(start, edges):
    seen, todo = set(), list(start)
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo += edges.get(x, ())
    return seen


class G:
    def __init__(self, s):
        self.s = s
        self.feats = set()
        n = s.weighted([(6, s.int(2, 8)), (2, s.int(9, 25)), (1, s.int(60, 150))])
        self.n = n
        self.void = [s.chance(20) for _ in range(n)]
        self.long = [s.chance(15) for _ in range(n)]
        self.np = [s.weighted([(5, 1), (2, 2), (1, 0)]) for _ in range(n)]
        self.live = {}          # certain edges
        self.all = {}           # every call in the text
        self.lib = s.chance(50)
        self.ct = s.chance(25)

    def call(self, me, j, live=True):
        s = self.s
        name = "f%d" % j
        self.all.setdefault(me, set()).add(name)
        if live:
            self.live.setdefault(me, set()).add(name)
        return "%s(%s)" % (name, ", ".join(["x + %d & 15" % s.int(1, 9), "%d" % s.int(0, 9)][:self.np[j]]))

    def edge(self, me, j, body, ret_int):
        """append statements that call function j"""
        s = self.s
        c = self.call(me, j)
        if self.void[j]:
            k = s.below(4)
            t = ["if (fuel-- > 0) %s;" % c, "while (fuel-- > 0) { %s; break; }" % c, "fuel-- > 0 ? %s : (%s);" % (c, self.call(me, j)) if False else "if (fuel > 0) { fuel--; %s; }" % c,
                 "switch (fuel-- > 0) { case 1: %s; }" % c][k]
            self.feats.add("void-call")
        else:
            k = s.below(14)
            self.feats.add("ctx%d" % k)
            if k == 8:
                others = [q for q in range(self.n) if not self.void[q] and self.np[q] >= 1]
                if not others:
                    k = 0
                else:
                    q = s.pick(others)
                    self.all[me].add("f%d" % q)
                    self.live[me].add("f%d" % q)
                    nest = "f%d(%s%s)" % (q, c, ", 1" if self.np[q] == 2 else "")
            t = [
                lambda: "if (fuel-- > 0) r += (int)%s;" % c,
                lambda: "if (fuel-- > 0 && %s > 3) acc++;" % c,
                lambda: "r += fuel-- > 0 ? (int)%s : 5;" % c,
                lambda: "for (int i = 0; i < 2; i++) if (fuel-- > 0) r ^= (int)%s;" % c,
                lambda: "if (fuel-- > 0) switch ((int)%s & 3) { case 1: acc += 3; break; default: acc += 7; }" % c,
                lambda: "if (fuel-- > 0) { int l = %s; acc += l; }" % c,
                lambda: "if (fuel-- > 0) r += arr[(int)%s & 3];" % c,
                lambda: "while (fuel-- > 0 && (%s & 1)) acc += 9;" % c,
                lambda: "if (fuel-- > 0) r += (int)%s;" % nest,
                lambda: "if (fuel-- > 0) %s;" % c,
                lambda: "if (fuel-- > 0) return %s;" % c if ret_int else "if (fuel-- > 0) { %s; return; }" % c,
                lambda: "if (fuel-- > 0) r += (int)(acc++, %s);" % c,
                lambda: "r += !(fuel-- > 0) || %s ? 1 : 2;" % c,
                lambda: "if (fuel-- > 0) { acc += 11; goto lab%d; lab%d: r += (int)-%s; }" % (self.nl, self.nl, c),
            ][k]()
            self.nl += 1
        body.append(t)

    def function(self, i):
        s = self.s
        me = "f%d" % i
        self.nl = 0
        body = ["acc = acc * 3 + %d;" % magic(i), "unsigned int r = 0;"]
        if self.np[i] == 0:
            body.insert(0, "int x = 2;")
        ri = not self.void[i]
        for j in self.targets[i]:
            self.edge(me, j, body, ri)
        if self.lib and s.chance(25):
            l = s.pick(sorted(LIBS))
            self.all.setdefault(me, set()).add(l)
            self.live.setdefault(me, set()).add(l)
            body.append("r += %s;" % LIBS[l])
            self.feats.add("library")
        if self.ct and s.chance(30):
            l = s.pick(sorted(CTYPE))
            self.all.setdefault(me, set()).add(l)
            self.live.setdefault(me, set()).add(l)
            body.append("r += %s(x + 60)%s;" % (l, "" if l.startswith("to") else " != 0"))
        if s.chance(10):
            j = s.below(self.n)
            if not self.void[j]:
                body.append(s.pick(["r += (int)sizeof(%s) > 0;", "if (0) r += %s;"]) % self.call(me, j, live=False))
                self.feats.add("unevaluated")
        last = "acc ^= r;\nreturn x + (r & 1023);"
        if s.chance(35) and self.targets[i]:
            # a call that must be in tail position, with the same type
            j = s.pick(self.targets[i])
            if not self.void[j] and not self.void[i] and self.long[i] == self.long[j]:
                body.append("if (fuel-- <= 0) return 1;")
                last = "return %s;" % self.call(me, j)
                self.feats.add("tail")
        if not ri:
            last = "acc ^= r;"
        body.append(last)
        if s.chance(8):
            j = s.below(self.n)
            if not self.void[j] and ri:
                body.append("r += (int)%s;\nreturn 1;" % self.call(me, j, live=False))
                self.feats.add("dead-code")
        return "%s {\n%s\n}" % (self.sig(i), "\n".join(body))

    def sig(self, i):
        return "%s f%d(%s)" % ("void" if self.void[i] else "long" if self.long[i] else "int", i,
                               ", ".join(["int x", "int y"][:self.np[i]]) or "void")

    def program(self):
        s = self.s
        n = self.n
        out = ["#include <stdio.h>"]
        if self.lib:
            out += ["#include <string.h>", "#include <stdlib.h>"]
        if self.ct:
            out.append("#include <ctype.h>")
        out += ["unsigned int acc = 1; int fuel = 80; int arr[4] = {1, 2, 3, 4};"]
        # graph: sparse, so that parts of it are unreachable
        self.targets = []
        kind = s.below(4)
        for i in range(n):
            k = s.weighted([(4, 1), (3, 2), (2, 0), (1, 4)])
            if kind == 0:
                t = [min(n - 1, i + 1 + s.below(3)) for _ in range(k)]       # chains
            elif kind == 1:
                t = [j for j in [2 * i + 1, 2 * i + 2] if j < n]             # tree
            elif kind == 2:
                half = n // 2
                t = [s.below(half) if i < half and half else half + s.below(n - half) for _ in range(k)]    # two components
                if i >= half and half and s.chance(30):
                    t.append(s.below(half))
            else:
                t = [s.below(n) for _ in range(k)]
            self.targets.append(t)
        order = s.shuffle(list(range(n)))
        for i in range(n):
            out.append(self.sig(i) + ";")
        if s.chance(20):
            out.append("int never_defined(int x, long y);")
        fns = [self.function(i) for i in range(n)]
        for i in order:
            out.append(fns[i])
        roots = [s.below(n) for _ in range(s.int(1, 3))] if kind != 1 or s.chance(50) else [0]
        if kind == 2:
            roots = [0]
        refs, ours, start = [], [], []
        if s.chance(25):
            j = s.below(n)
            if not self.void[j]:
                a = ", ".join(["3", "4"][:self.np[j]])
                ours.append("int g%d = f%d(%s);" % (j, j, a))
                refs.append("g%d = f%d(%s);" % (j, j, a))
                self.all.setdefault("main", set()).add("f%d" % j)
                self.live.setdefault("main", set()).add("f%d" % j)
                self.feats.add("global-initialiser")
        main = ["int x = 1; unsigned int r = 0;"]
        self.nl = 0
        for j in roots:
            main.append("fuel = 80;")
            self.edge("main", j, main, True)
        tailmain = ["printf(\"%u %u\\n\", acc, r);", "return acc & 63;"]
        if any("return f" in m for m in main):
            main.insert(1, "printf(\"go\\n\");")
        mk = lambda glob, first: "\n".join(out[:1] + out[1:] + glob + ["int main(void) {\n%s\n}" % "\n".join(first + main + tailmain)]) + "\n"
        text = mk(ours, [])
        ref = mk(["int g%s;" % o.split()[1][1:] for o in ours], refs) if ours else None
        return text, ref


class C16(Prop):
    id = "C16"
    quick = 1500
    thorough = 60000
    rule = ("programs of 2-150 functions with a random call graph (chains, trees, cycles, separate components, self calls), each function "
            "containing a constant of its own; calls in 15 contexts including tail position, conditions, arguments, global initialisers; the "
            "emitted module is decoded: constants of functions reachable from main must be there, of functions no path leads to must not "
            "(calls in dead or unevaluated code are left open), and all must be with " + NOOPT + "; the same for library imports; output "
            "compared with gcc's; non-trivial: at least one function is unreachable and one beyond main's direct callees is reachable")
    assumptions = ["gcc -O0 gives the C behaviour", "a function's body is identified by a constant that appears nowhere else"]

    def gen(self, s):
        g = G(s)
        text, ref = g.program()
        live = dict(g.live)
        alle = dict(g.all)
        for k, v in CTYPE.items():
            live[k] = alle[k] = set(v)
        keep = close(["main"], live)
        may = close(["main"], alle)
        names = {"f%d" % i for i in range(g.n)}
        direct = live.get("main", set())
        nt = bool(names - may) and bool((keep & names) - direct)
        if names - may:
            g.feats.add("unreachable")
        return Case(text, g.feats, nt, n=g.n, keep=sorted(keep), may=sorted(may), ref=ref, ct=g.ct,
                    fl=s.pick([[], [], ["--noopt-tailcall"], ["--noopt-stack-allocation"], ["--prof-stack"]]))

    def check(self, case, t):
        if case.kw["ref"]:
            exp, rc = reference(Case(case.kw["ref"]), t)
            t.last_ref = None
            write_case(case, t)
        else:
            exp, rc = reference(case, t)
        n = case.kw["n"]
        keep, may = set(case.kw["keep"]), set(case.kw["may"])
        for fl in (case.kw["fl"], case.kw["fl"] + [NOOPT]):
            f, r = run_one(case, t, exp, rc, flags=fl)
            if f:
                return f
            try:
                m = wasm.Module(open(t.path("main.wasm"), "rb").read())
            except (wasm.Bad, IndexError, UnicodeDecodeError) as e:
                return "module cannot be decoded: %s" % e
            where = {}
            for b in m.bodies:
                for k in set(b["i32"]):
                    where[k] = where.get(k, 0) + 1
            present = {"f%d" % i for i in range(n) if where.get(magic(i))}
            t.bump("functions_checked", n)
            for i in range(n):
                if where.get(magic(i), 0) > 1:
                    return "%s the body of f%d is emitted %d times" % (fl, i, where[magic(i)])
            names = {"f%d" % i for i in range(n)}
            imports = {x[1] for x in m.imports if x[2] == 0}
            if NOOPT in fl:
                if names - present:
                    return "%s defined functions missing from the module: %s" % (fl, sorted(names - present))
                if (keep & set(LIBS)) - imports:
                    return "%s imports missing: %s" % (fl, sorted((keep & set(LIBS)) - imports))
            else:
                if (keep & names) - present:
                    return "%s reachable functions missing from the module: %s" % (fl, sorted((keep & names) - present))
                if present - may:
                    return "%s unreachable functions in the module: %s" % (fl, sorted(present - may))
                t.bump("removed", len(names - present))
                lib = (imports & set(LIBS))
                if (keep & set(LIBS)) - lib or lib - may:
                    return "%s library imports: %s, reachable: %s" % (fl, sorted(lib), sorted(may & set(LIBS)))
                most = len(may & names) + len(may & set(CTYPE)) + 2      # main and the start code
                if len(m.bodies) > most:
                    return "%s the module has %d functions, at most %d can be reached" % (fl, len(m.bodies), most)
        return None


PROP = C16
