import re
from ..engine import Prop, Case, reference, run_one, load_prop
from ..cgen import *
from .. import wasm
from .common import show

LIB = {"printf", "strlen", "strstr", "strtol", "strtoul"}
# sizes around the places where an encoded length or index needs another byte
EDGE = [1, 2, 3, 15, 16, 31, 62, 63, 64, 65, 100, 120, 126, 127, 128, 129, 130, 140]
LENS = [0, 1, 2, 62, 63, 64, 126, 127, 128, 129, 200, 255, 256, 1000, 8190, 8191, 8192, 16382, 16383, 16384, 16385, 20000]


class Big:
    def __init__(self, s):
        self.s = s
        self.glob, self.main, self.feats = [], [], set()
        self.strings = []
        self.mem = 0
        self.uid = 0

    def name(self, p):
        self.uid += 1
        return "%s%d" % (p, self.uid)

    def out(self, ty, e):
        self.main.append('printf("%s\\n", %s);' % (FMT[ty], e))

    # ---- dimensions
    def functions(self):
        s = self.s
        n = s.pick(EDGE + [200, 260, 300])
        b = self.name("f")
        for i in range(n):
            self.glob.append("int %s_%d(int x) { return x * 3 + %d; }" % (b, i, i))
        self.main.append("{ int a = 1;")
        for i in range(n):
            if n <= 8 or s.chance(60) or i >= n - 2:
                self.main.append("a = %s_%d(a) & 65535;" % (b, i))
        self.out("int", "a")
        self.main.append("}")

    def params(self):
        s = self.s
        n = s.pick([x for x in EDGE if x <= 66 or s.chance(25)])
        f = self.name("f")
        tys = [s.pick(INTS) for _ in range(n)]
        self.glob.append("unsigned int %s(%s) { unsigned int h = 7; %s return h; }" % (
            f, ", ".join("%s p%d" % (SPELL[t][0], i) for i, t in enumerate(tys)), " ".join("h = h * 31 + p%d;" % i for i in range(n))))
        self.main.append("{ int v = 5; long w = 77;")
        self.out("uint", "%s(%s)" % (f, ", ".join(s.pick([str(i % 120), "v", "w", "v + %d" % (i % 50)]) for i in range(n))))
        self.main.append("}")

    def locals(self):
        s = self.s
        n = s.pick([x for x in EDGE if x <= 66 or s.chance(20)])
        f = self.name("f")
        tys = [s.pick(ALL) for _ in range(n)]
        b = "".join("%s l%d = x + %d;\n" % (SPELL[t][0], i, i % 90) for i, t in enumerate(tys))
        b += "".join("l%d = l%d + %s;\n" % (i, i, "l%d" % s.below(n) if not isf(tys[i]) and False else "1") for i in range(n) if s.chance(30))
        b += "unsigned int h = 1;\n" + "".join("h = h * 7 + (int)l%d;\n" % i for i in range(n))
        self.glob.append("unsigned int %s(int x) {\n%sreturn h;\n}" % (f, b))
        self.out("uint", "%s(%d)" % (f, s.int(0, 30)))

    def frame(self):
        """local arrays: variables behind them have large offsets"""
        s = self.s
        f = self.name("f")
        n = s.pick([100, 126, 127, 128, 500, 4000, 8180, 8192, 16370, 16384])
        if self.mem + 2 * n > 40000:
            n = 100
        self.mem += 2 * n
        self.glob.append("""int %s(int x) {
char a[%d]; int b = x; short c = x + 1; long d = x * 3; char e[%d]; int k;
for (k = 0; k < 20; k++) { a[k * %d] = k + x; }
for (k = 0; k < 9; k++) e[k] = k * x;
b += a[%d]; c -= a[19 * %d]; d ^= b;
return b * 3 + c * 5 + (int)d + e[8];
}""" % (f, n, s.pick([9, 120, 128]), n // 21, (n // 21) * s.below(20), n // 21))
        self.out("int", "%s(%d)" % (f, s.int(0, 9)))

    def globals_(self):
        s = self.s
        n = s.pick(EDGE)
        b = self.name("g")
        for i in range(n):
            t = s.pick(INTS)
            self.glob.append("%s %s_%d = %d;" % (SPELL[t][0], b, i, i % 120))
        big = s.pick([0, 0, 127, 128, 8192, 16384, 20000])
        if self.mem + big < 34000 and big:
            self.mem += big
            self.glob.append("char %s_big[%d] = {1, 2, 3};" % (b, big))
            self.glob.append("int %s_behind = 1234567;" % b)
            self.main.append("%s_big[%d] = 9;" % (b, big - 1))
            self.out("int", "%s_behind + %s_big[2] + %s_big[%d] + %s_big[%d]" % (b, b, b, big - 1, b, big // 2))
        f = self.name("h")
        for k in range(0, n, 20):
            self.glob.append("unsigned int %s_%d(unsigned int h) { %s return h; }" % (
                f, k, " ".join("h = h * 31 + %s_%d;" % (b, i) for i in range(k, min(n, k + 20)))))
            self.out("uint", "%s_%d(%d)" % (f, k, s.int(0, 9)))

    def string(self):
        s = self.s
        n = s.pick(LENS) if s.chance(30) else s.int(0, 140)
        if self.mem + n > 40000:
            n = s.int(0, 10)
        self.mem += n + 1
        self.uid += 1
        mark = "<%d>" % self.uid
        if n > 6:
            k = s.below(6)
            body = mark + "".join(chr(33 + (j * 7 + k) % 90) for j in range(n - len(mark)))
        else:
            body = (mark * 3)[:n] if n else ""
        lit = ""
        raw = b""
        i = 0
        while i < len(body):
            c = body[i]
            e = s.below(40) if n < 300 else 39
            if e == 0:
                lit += s.pick(["\\n", "\\t", "\\\\", "\\\"", "\\'", "\\a"])
                raw += {"n": b"\n", "t": b"\t", "\\": b"\\", '"': b'"', "'": b"'", "a": b"\a"}[lit[-1]]
            elif e == 1:
                v = s.pick([1, 127, 128, 200, 255])
                lit += "\\%03o" % v
                raw += bytes([v])
            elif e == 2 and n > 8:
                lit += "\\000"
                raw += b"\0"
            elif c in "\\\"?%":
                lit += "."
                raw += b"."
            else:
                lit += c
                raw += c.encode()
            i += 1
        self.strings.append(raw)
        return '"%s"' % lit, raw

    def literals(self):
        s = self.s
        for _ in range(s.weighted([(6, s.int(1, 6)), (2, s.pick([60, 127, 128, 150]))])):
            lit, raw = self.string()
            k = s.below(5)
            p = self.name("s")
            if k == 0:
                self.main.append('printf("%%s|\\n", %s);' % lit)
            elif k == 1:
                self.glob.append("char *%s = %s;" % (p, lit))
                self.main.append('printf("%%s|\\n", %s);' % p)
            elif k == 2:
                self.main.append("{ char *p = %s; int n = 0; unsigned int h = 3; while (n < %d) { h = h * 31 + p[n]; n++; } printf(\"%%u %%d\\n\", h, p[%d]); }" % (
                    lit, len(raw), len(raw)))
            elif len(raw) > 300:
                # (an initialised array costs ten bytes of memory per element, so it stays small)
                self.main.append("{ char *p = %s; printf(\"%%d %%d\\n\", p[%d], p[%d]); }" % (lit, len(raw), len(raw) - 1))
            elif k == 3 and b"\0" not in raw and b"%" not in raw:
                self.main.append("printf(%s);" % lit)
            else:
                # a char array of its own: no literal needs to exist
                self.strings.pop()
                self.glob.append("char %s[] = %s;" % (p, lit))
                self.mem += 12 * len(raw)
                self.main.append('printf("%%s|%%d\\n", %s, (int)sizeof(%s));' % (p, p))

    def nesting(self):
        s = self.s
        n = s.int(2, 45)
        kinds = [s.below(5) for _ in range(n)]
        f = self.name("f")
        head, tail = [], []
        for i, k in enumerate(kinds):
            if k == 0:
                head.append("for (int i%d = 0; i%d < 1; i%d++) {" % (i, i, i)), tail.append("h += %d; }" % i)
            elif k == 1:
                head.append("if (x >= %d) {" % (i - 60)), tail.append("} else h -= 1;")
            elif k == 2:
                head.append("do { h++;"), tail.append("h ^= %d; } while (h < 0);" % i)
            elif k == 3:
                head.append("switch (x & 1) { case 0: case 1:"), tail.append("h *= 3; break; default: h = 0; }")
            else:
                head.append("while (1) {"), tail.append("h += 2; break; }")
        mid = "h = h + x;"
        self.glob.append("unsigned int %s(int x) { unsigned int h = 1;\n%s\n%s\n%s\nreturn h; }" % (f, "\n".join(head), mid, "\n".join(reversed(tail))))
        self.out("uint", "%s(%d)" % (f, s.int(0, 9)))

    def expression(self):
        s = self.s
        n = s.pick([20, 50, 100, 127, 128, 129, 250])
        k = s.below(4)
        self.main.append("{ unsigned int v = %d;" % s.int(1, 50))
        if k == 0:
            self.main.append("v = %s v %s;" % ("(" * n, "".join(" %s %d)" % (s.pick("+^*"), i % 200) for i in range(n))))
        elif k == 1:
            n = min(n, 130)
            self.main.append("v = %s v %s;" % ("".join("%d %s (" % (i % 200, s.pick("+^*")) for i in range(n)), ")" * n))
        elif k == 2:
            self.main.append("v = %s v;" % ("".join(s.pick(["-", "~", "!", "+"]) + " " for i in range(n))))
        else:
            n = min(n, 25)
            self.main.append("v = %s 7;" % "".join("v & %d ? v + %d : " % (1 << i % 30, i) for i in range(n)))
        self.out("uint", "v")
        self.main.append("}")

    def body(self):
        """function bodies of many bytes"""
        s = self.s
        n = s.pick([10, 60, 100, 200, 400])
        f = self.name("f")
        self.glob.append("unsigned int %s(unsigned int a, unsigned int b) {\n%s\nreturn a; }" % (
            f, "\n".join(s.pick(["a = a * %d + b;", "b ^= a + %d;", "a += b >> 3 ^ %d;", "b = b + %d;"]) % (i * s.pick([1, 37, 65537])) for i in range(n))))
        self.out("uint", "%s(3, %d)" % (f, s.int(0, 99)))

    def switch(self):
        s = self.s
        n = s.pick([3, 63, 64, 65, 100, 127, 128, 129, 130])
        f = self.name("f")
        base = s.pick([0, 0, 1, -64, -65, 8190, 1 << 20])
        self.glob.append("int %s(int x) { switch (x) {\n%s\n} return -1; }" % (
            f, "\n".join("case %d: return %d;" % (base + i, i * 3) for i in range(n))))
        self.main.append("{ int s = 0; for (int i = %d; i < %d; i++) s = s * 3 + %s(i) & 65535;" % (base - 2, base + n + 2, f))
        self.out("int", "s")
        self.main.append("}")

    def structs(self):
        s = self.s
        n = s.pick([2, 30, 64, 127, 128])
        t = self.name("T")
        tys = [s.pick(INTS) for _ in range(n)]
        arr = s.pick([0, 0, 100, 128, 5000])
        if self.mem + 2 * (arr + 8 * n) > 30000:
            arr = 0
        self.mem += 2 * (arr + 8 * n)
        mem = ["%s m%d;" % (SPELL[q][0], i) for i, q in enumerate(tys)]
        if arr:
            mem.insert(s.below(n), "char pad[%d];" % arr)
        self.glob.append("struct %s { %s };\nstruct %s %sg;" % (t, " ".join(mem), t, t))
        self.main.append("{ struct %s a; struct %s *p = &%sg; unsigned int h = 1;" % (t, t, t))
        for i in range(n):
            self.main.append("a.m%d = %d;" % (i, i % 100))
        self.main.append("*p = a;" if s.chance(50) and not arr else " ".join("p->m%d = a.m%d;" % (i, i) for i in range(n)))
        self.main.append("}")
        for k in range(0, n, 20):
            self.glob.append("unsigned int %s_%d(struct %s *p) { unsigned int h = 1; %s return h; }" % (
                t, k, t, " ".join("h = h * 31 + p->m%d;" % i for i in range(k, min(n, k + 20)))))
            self.out("uint", "%s_%d(&%sg)" % (t, k, t))

    def vararg(self):
        s = self.s
        n = s.pick([1, 2, 30, 62, 63, 64, 126, 127, 128])
        self.main.append('printf("%s\\n", %s);' % (" ".join(["%d"] * n), ", ".join(str(i * 7) for i in range(n))))

    def program(self):
        s = self.s
        dims = [self.functions, self.params, self.locals, self.frame, self.globals_, self.literals, self.literals, self.nesting,
                self.expression, self.body, self.switch, self.structs, self.vararg]
        for d in [s.pick(dims) for _ in range(s.int(1, 4))]:
            if d != self.literals and sum(len(x) for x in self.glob + self.main) > 14000:
                continue
            self.feats.add(d.__name__.strip("_"))
            d()
        # the parts in functions of their own: compile time grows fast with a function's size
        parts, cur, depth = [], [], 0
        for l in self.main:
            cur.append(l)
            depth += l.count("{") - l.count("}") if not '"' in l else 0
            if l.startswith("{") and '"' in l:
                depth = 0
            if depth <= 0 and sum(map(len, cur)) > 400:
                parts.append(cur)
                cur, depth = [], 0
        parts.append(cur)
        fns = ["void part%d(void) {\n%s\n}" % (i, "\n".join(p)) for i, p in enumerate(parts)]
        return "#include <stdio.h>\n%s\n%s\nint main(void) {\n%s\nreturn 0;\n}\n" % (
            "\n".join(self.glob), "\n".join(fns), "\n".join("part%d();" % i for i in range(len(parts))))


class C17(Prop):
    id = "C17"
    quick = 420
    thorough = 16000
    rule = ("programs of extreme sizes in 1-4 dimensions (functions, parameters, locals, frame size, globals, string literals and their lengths, "
            "nesting, expression depth, body size, switch cases, struct members, variadic arguments; sizes around 64, 128, 8192 and 16384, where "
            "encodings grow) and programs of the other properties' generators; the emitted file is decoded by an independent decoder (section sizes "
            "and order, LEB128 ranges, branch depths), validated by the engine, its imports, export and signature compared with the documented "
            "ones, and every string literal looked up in its initial memory; output compared with gcc's; non-trivial: module of at least 1000 bytes")
    assumptions = ["gcc -O0 gives the C behaviour", "node's WebAssembly validation is right", "data stays below the single 64 KB page"]
    BASES = ["C01", "C03", "C05", "C07", "C08", "C09", "C10", "C11", "C12", "C13"]

    def gen(self, s):
        fl = s.pick([[], [], [], ["--noopt-tailcall"], ["--noopt-unreachable-procedure"], ["--noopt-stack-allocation"], ["--prof-stack"]])
        if s.chance(20):
            b = s.pick(self.BASES)
            c = load_prop(b).gen(s)
            return Case(c.src, {"base:" + b}, files=c.files, args=c.args, strings=[], fl=fl)
        g = Big(s)
        text = g.program()
        return Case(text, g.feats, strings=g.strings, fl=fl)

    def check(self, case, t):
        exp, rc = reference(case, t)
        f, r = run_one(case, t, exp, rc, flags=case.kw["fl"])
        if f:
            return f
        data = open(t.path("main.wasm"), "rb").read()
        t.stats["max_module_bytes"] = max(t.stats.get("max_module_bytes", 0), len(data))
        if len(data) < 1000:
            case.nontrivial = False
        try:
            m = wasm.Module(data)
            image = m.memory_image()
        except (wasm.Bad, IndexError, UnicodeDecodeError) as e:
            return "module cannot be decoded: %s" % e
        prof = "--prof-stack" in case.kw["fl"]
        mems = 0
        for mod, name, kind, d in m.imports:
            if kind == 2:
                mems += 1
                if (mod, name) != ("runtime", "memory") or d[0] > 1:
                    return "memory import %s.%s %s" % (mod, name, d)
            elif kind == 0:
                if mod != "stdlib" or name not in LIB | ({"log_stack_ptr"} if prof else set()):
                    return "imports the function %s.%s" % (mod, name)
                if d != (b"", b""):
                    return "import %s has type %s" % (name, d)
            else:
                return "imports %s.%s of kind %d" % (mod, name, kind)
        if mems != 1 or m.memories != 1:
            return "%d memories imported, %d in all" % (mems, m.memories)
        if len(set(x[:2] for x in m.imports)) != len(m.imports):
            return "duplicate imports"
        ex = [x for x in m.exports if x[0] == "main"]
        if len(ex) != 1 or ex[0][1] != 0:
            return "exports %s" % m.exports
        i = ex[0][2] - m.nfimports
        if not 0 <= i < len(m.funcs) or m.types[m.funcs[i]] != (b"\x7f\x7f", b"\x7f"):
            return "main is exported as function %d, type %s" % (ex[0][2], m.types[m.funcs[i]] if 0 <= i < len(m.funcs) else None)
        n = len(m.funcs) + m.nfimports
        for b in m.bodies:
            for c in b["calls"]:
                if c >= n:
                    return "call of function %d of %d" % (c, n)
        for raw in case.kw["strings"]:
            if raw + b"\0" not in image:
                return "string literal %r is not (NUL-terminated) in the initial memory" % raw[:60]
            t.bump("string_literals_found")
        return None


PROP = C17
