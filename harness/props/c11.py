from ..engine import Prop, Case, GenError, run_one, reference, write_case
from .common import *

WEIRD = ("int1 if_ do0 doo fo form for_ return1 returns struct_ structure sizeofx sizeo whiles whil _x __y1 X charm longer unsignedd unsigne voidd "
         "autos elsee els e1 E10 x0x1f L u8 goto_ got cas casey defaults default0 breaks brea enumm uniona typedefs NULL_ ext extern1 "
         "inlin inline_ volatile1 const_ constt register_ static1 stati switchh i32 memory main1 wasm __stack sp fp frame_ptr i f d "
         "label block loop br local_get temp t0 t1 _ __ ___ a_ aA Aa AA O0 l1 I1 lI Il int_ intt ints inti double2 floaty shortt signed_ "
         "continue_ continu log_stack_ptr argc argv xyzzy_xyzzy_xyzzy_xyzzy_xyzzy_xyzzy_xyzzy_1 xyzzy_xyzzy_xyzzy_xyzzy_xyzzy_xyzzy_xyzzy_2 "
         "xyzzy_xyzzy_xyzzy_xyzzy_xyzzy_xyzzy_xyzzy_ z9 z90 z_9 z").split()
POOL = ["a", "b", "x", "n", "v", "k"]


class Sym:
    def __init__(self, n, ns, kind, **kw):
        self.n, self.ns, self.kind = n, ns, kind
        self.start, self.end, self.uses, self.scope = None, None, [], None
        self.__dict__.update(kw)


class Scope:
    def __init__(self, kind):
        self.kind, self.syms = kind, []


class Prog:
    def __init__(self, s):
        self.s = s
        self.out = []
        self.syms = []
        self.scopes = [Scope("global")]
        self.feats = set()
        self.depth = 0
        self.budget = 0
        self.fn = None
        self.labels = []
        self.nstruct = 0

    # ---- emission
    def w(self, *parts):
        for p in parts:
            if isinstance(p, Sym):
                p.uses.append(len(self.out))
            self.out.append(p)

    def declare(self, ns, kind, emit=True, visible=True, **kw):
        y = Sym(len(self.syms), ns, kind, **kw)
        self.syms.append(y)
        y.start = len(self.out)
        if emit:
            self.out.append(y)
        sc = self.scopes[-1]
        y.scope = sc
        sc.syms.append(y)
        y.visible = visible
        return y

    def push(self, kind="block"):
        self.scopes.append(Scope(kind))

    def pop(self):
        sc = self.scopes.pop()
        for y in sc.syms:
            y.end = len(self.out)
        return sc

    def vis(self, *kinds):
        return [y for sc in self.scopes for y in sc.syms if y.kind in kinds and y.visible]

    # ---- expressions (emitted directly)
    def scalars(self):
        return self.vis("var", "enumerator")

    def expr(self, d):
        s = self.s
        k = s.below(14)
        if d <= 0 or k < 6:
            vs = self.scalars()
            if vs and s.chance(85):
                # prefer recently declared ones
                y = vs[-1 - s.below(min(len(vs), 6))] if s.chance(60) else s.pick(vs)
                if y.ty == "enum":
                    self.w("(int)")          # the type compatible with an enum is up to the implementation
                self.w(y)
            else:
                self.w(str(s.int(0, 30)))
            return
        if k < 9:
            self.w("(")
            self.expr(d - 1)
            self.w(s.pick([" + ", " - ", " * ", " ^ ", " < ", " == "]))
            self.expr(d - 1)
            self.w(")")
            return
        if k < 10:
            ss = self.vis("svar")
            if ss:
                y = s.pick(ss)
                self.w(y, "." if not y.ptr else "->", s.pick(y.st.members))
                return
        if k < 11:
            aa = self.vis("avar")
            if aa:
                y = s.pick(aa)
                self.w(y, "[%d]" % s.below(y.size))
                return
        if k < 12:
            ys = self.vis("var", "avar", "typedef", "enumerator") + [y for y in self.vis("tag", "svar")
                                                      if not getattr(y, "ptr", 0) and (y.st if y.kind == "svar" else y).same]
            if ys:
                y = s.pick(ys)
                self.feats.add("sizeof")
                if y.kind == "tag":
                    self.w("(int)sizeof(", y.sk + " ", y, ")")
                else:
                    self.w("(int)sizeof(", y, ")")
                return
        ts = self.vis("typedef")
        if ts:
            self.w("(", s.pick(ts), ")")
        self.w(str(s.int(0, 9)))

    def full(self, d):
        """a whole full expression: may be a call (its order is then determined)"""
        s = self.s
        fs = self.vis("func")
        if fs and s.chance(20):
            f = s.pick(fs)
            self.w(f, "(")
            for i in range(f.np):
                if i:
                    self.w(", ")
                self.expr(d - 1)
            self.w(")")
            return
        self.expr(d)

    def typ(self):
        """emit a scalar type; returns printing format"""
        s = self.s
        k = s.below(8)
        ts, es = self.vis("typedef"), [y for y in self.vis("etag")]
        if k == 6 and ts:
            y = s.pick(ts)
            self.w(y, " ")
            return y.ty
        if k == 7 and es:
            self.w("enum ", s.pick(es), " ")
            return "enum"
        ty = s.pick(["int", "char", "long", "short", "uint", "uchar", "ulong", "int"])
        self.w(SPELL[ty][0] + " ")
        return ty

    def show(self, y):
        ty = y.ty if y.ty != "enum" else "int"
        self.w('printf("%s\\n", ' % FMT[ty], y, "); ")

    # ---- declarations
    def decl_var(self, static=False):
        s = self.s
        k = s.below(10)
        tags = [y for y in self.vis("tag")]
        if k == 0 and tags:
            t = s.pick(tags)
            self.w(t.sk + " ", t, " ")
            y = self.declare("o", "svar", st=t, ptr=False, visible=False)
            if t.sk == "struct" and s.chance(70):
                self.w(" = {")
                for i, m in enumerate(t.members):
                    self.w(", " if i else "")
                    self.w(str(s.int(0, 20))) if self.glob or static or i != 0 else self.expr(1)
                self.w("};\n")
            else:
                self.w(";\n")
                if not self.glob:
                    for m in t.members:
                        self.w(y, ".", m, " = %d; " % s.int(1, 20))
            y.visible = True
            return
        if k == 1:
            ty = s.pick(["int", "char", "long"])
            n = s.int(1, 4)
            self.w(ty + " ")
            y = self.declare("o", "avar", ty=ty, size=n, visible=False)
            self.w("[%d] = {" % n, ", ".join(str(s.int(0, 50)) for _ in range(s.int(1, n))), "};\n")
            y.visible = True
            return
        ty = self.typ()
        m = s.int(1, 2)
        for i in range(m):
            if i:
                self.w(", ")
            y = self.declare("o", "var", ty=ty, visible=False)
            self.w(" = ")
            if self.glob or static:
                es = self.vis("enumerator")
                if es and s.chance(40):
                    self.w(s.pick(es))
                else:
                    self.w(str(s.int(0, 100)))
            elif s.chance(12):
                # its own scope has begun
                self.feats.add("own-scope")
                self.w("(int)sizeof(", y, ")")
            else:
                self.full(2)
            y.visible = True
        self.w(";\n")

    def decl_struct(self):
        s = self.s
        sk = "union" if s.chance(20) else "struct"
        self.w(sk + " ")
        t = self.declare("t", "tag", sk=sk, visible=False, members=[], same=False)
        t.same = True
        ty = s.pick(["int", "char", "long", "short"])
        self.w(" { ")
        self.nstruct += 1
        n = s.int(1, 3)
        sc = Scope("members")
        self.scopes.append(sc)
        for i in range(n):
            if sk == "struct" and s.chance(25):
                ty2 = s.pick(["int", "char", "long"])
                if ty2 != ty:
                    t.same = False
            else:
                ty2 = ty
            self.w(ty2 + " ")
            t.members.append(self.declare("m%d" % self.nstruct, "member", ty=ty2))
            self.w("; ")
        self.pop()
        if sk == "union":
            t.members = t.members[:1]
        t.visible = True
        self.w("}")
        if s.chance(40):
            self.w(" ")
            y = self.declare("o", "svar", st=t, ptr=False, visible=False)
            self.w(";\n")
            if not self.glob:
                for m in t.members:
                    self.w(y, ".", m, " = %d; " % s.int(1, 20))
            y.visible = True
        else:
            self.w(";\n")
        self.feats.add("tag-" + sk)

    def decl_enum(self):
        s = self.s
        self.w("enum ")
        t = None
        if s.chance(70):
            t = self.declare("t", "etag", visible=False)
        self.w(" { ")
        for i in range(s.int(1, 3)):
            if i:
                self.w(", ")
            y = self.declare("o", "enumerator", ty="int", visible=False)
            if s.chance(50):
                self.w(" = ")
                es = self.vis("enumerator")
                if es and s.chance(50):
                    self.w(s.pick(es), " + %d" % s.int(1, 5))
                else:
                    self.w(str(s.int(0, 60)))
            y.start = len(self.out) - 1        # visible after its definition
            y.decl_start = True
            y.visible = True
        if t:
            t.visible = True
        self.w(" };\n")
        self.feats.add("enum")

    def decl_typedef(self):
        s = self.s
        ty = s.pick(["int", "char", "long", "short", "uchar"])
        self.w("typedef %s " % SPELL[ty][0])
        self.declare("o", "typedef", ty=ty, fixed=True)
        self.w(";\n")
        self.feats.add("typedef")

    # ---- statements
    def assign(self):
        s = self.s
        vs = [y for y in self.vis("var") if not getattr(y, "counter", False)]
        if not vs:
            self.w(";\n")
            return
        y = s.pick(vs[-8:])
        if y.ty == "enum":
            self.w(y, " = %d;\n" % s.int(0, 9))
            return
        op = s.pick([" = ", " += ", " ^= ", " = "])
        self.w(y, op)
        self.full(2) if op == " = " else self.expr(2)
        self.w(";\n")

    def simple(self):
        s = self.s
        if s.chance(50):
            self.assign()
        else:
            vs = self.vis("var", "enumerator")
            if vs:
                self.show(s.pick(vs[-8:]))
                self.w("\n")
            else:
                self.w(";\n")

    def stmt(self, d):
        s = self.s
        self.budget -= 1
        k = s.below(24)
        if self.budget <= 0 or d <= 0 or k < 5:
            self.simple()
        elif k < 9:
            self.block(d - 1, s.int(1, 5))
        elif k < 11:
            self.w("if (")
            self.expr(1)
            self.w(") ")
            self.stmt_block(d - 1)
            if s.chance(50):
                self.w("else ")
                self.stmt_block(d - 1)
        elif k < 14:
            self.feats.add("for-decl")
            self.push("for")
            self.w("for (", s.pick(["int ", "long ", "char ", "short "]))
            y = self.declare("o", "var", ty="int", visible=False)
            y.ty = "int"
            self.w(" = 0")
            y.visible = True
            y.counter = True
            y.ty = {"int ": "int", "long ": "long", "char ": "char", "short ": "short"}[self.out[-3]]
            if s.chance(30):
                self.w(", ")
                z = self.declare("o", "var", ty=y.ty, visible=False)
                self.w(" = ")
                self.expr(1)
                z.visible = True
            self.w("; ", y, " < %d; " % s.int(1, 3), y, "++) ")
            self.stmt_block(d - 1)
            self.pop()
        elif k < 16:
            self.w("switch (")
            self.expr(1)
            self.w(" & 3) { case 0: ")
            self.stmt_block(d - 1)
            if s.chance(50):
                self.w("break; ")
            self.w("default: ")
            self.stmt_block(d - 1)
            self.w("}\n")
        elif k < 19 and len(self.labels) < 4:
            self.feats.add("label")
            l = Sym(len(self.syms), "l%s" % self.fn, "label")
            self.syms.append(l)
            l.start, l.end, l.scope = self.fnstart, None, self.fnscope
            self.labels.append(l)
            if s.chance(50):
                self.w("if (")
                self.expr(1)
                self.w(") goto ", l, "; ")
                self.simple()
                self.w(l, ": ")
                self.simple()
            else:
                self.w(l, ": ")
                self.simple()
                self.w("if (")
                self.w(self.counter, "++ < %d) goto " % s.int(1, 3), l, ";\n")
        else:
            self.simple()

    def stmt_block(self, d):
        if self.s.chance(70):
            self.block(d, self.s.int(1, 4))
        else:
            self.simple()

    def block(self, d, n, push=True):
        s = self.s
        self.w("{\n")
        if push:
            self.push()
        for _ in range(n):
            k = s.below(12)
            if k < 5:
                self.decl_var()
            elif k == 5 and s.chance(60):
                self.decl_struct()
            elif k == 6 and s.chance(60):
                self.decl_enum()
            elif k == 7 and s.chance(30):
                self.decl_typedef()
            elif k == 8 and s.chance(40):
                self.w("static ")
                self.decl_var(True)
                self.feats.add("static")
            else:
                self.stmt(d)
        for y in self.scopes[-1].syms:
            if y.kind in ("var", "enumerator") and s.chance(75):
                self.show(y)
        if push:
            self.pop()
        self.w("}\n")

    def function(self, i):
        s = self.s
        self.w("int ")
        f = self.declare("o", "func", np=s.int(0, 3), cost=1, visible=False)
        self.fn = i
        self.labels = []
        self.w("(")
        self.push("func")
        self.fnscope = self.scopes[-1]
        self.fnstart = len(self.out)
        ps = []
        for j in range(f.np):
            if j:
                self.w(", ")
            ty = s.pick(["int", "long", "char", "short"])
            self.w(ty + " ")
            ps.append(self.declare("o", "var", ty=ty))
        if not f.np:
            self.w("void")
        self.w(") ")
        self.w("{\nint ")
        self.counter = self.declare("o", "var", ty="int")
        self.counter.counter = True
        self.w(" = 0;\n")
        self.budget = s.int(3, 14)
        self.glob = False
        self.block(s.int(1, 4), s.int(2, 6))
        for p in ps:
            self.show(p)
        self.w("return ")
        self.full(2)
        self.w(";\n")
        self.pop()
        for l in self.labels:
            l.end = len(self.out)
        self.w("}\n")
        f.visible = True
        f.cost = 1
        return f

    def program(self):
        s = self.s
        self.glob = True
        self.w("#include <stdio.h>\n")
        fs = []
        for i in range(s.int(1, 3)):
            for _ in range(s.int(0, 3)):
                self.glob = True
                k = s.below(8)
                if k < 4:
                    self.decl_var()
                elif k < 5:
                    self.decl_struct()
                elif k < 6:
                    self.decl_enum()
                elif k < 7:
                    self.decl_typedef()
                else:
                    # a prototype with parameter names of its own scope
                    self.w("int ")
                    f = self.declare("o", "proto", np=0)
                    self.push("proto")
                    self.w("(int ")
                    self.declare("o", "var", ty="int")
                    self.w(", char ")
                    self.declare("o", "var", ty="char")
                    self.w(");\n")
                    self.pop()
                    self.feats.add("proto-scope")
            fs.append(self.function(i))
        self.w("int main(void) {\n")
        for f in fs:
            for _ in range(s.int(1, 2)):
                self.w('printf("= %d\\n", ', f, "(", ", ".join(str(s.int(-9, 40)) for _ in range(f.np)), "));\n")
        for y in self.scopes[0].syms:
            if y.kind in ("var", "enumerator"):
                self.show(y)
        self.w("\nreturn 0;\n}\n")
        self.pop()
        for l in self.syms:
            if l.end is None:
                l.end = len(self.out)

    # ---- naming
    def text(self, names):
        return "".join(names[p.n] if isinstance(p, Sym) else p for p in self.out)

    def unique(self):
        return {y.n: "q%d" % y.n for y in self.syms}

    def weird(self):
        s = self.s
        names = {}
        pool = s.shuffle(WEIRD)
        for i, y in enumerate(self.syms):
            names[y.n] = pool[i] if i < len(pool) else "w_%d" % i
        return names

    def clash(self, y, z):
        """may y and z not have the same name?"""
        if "typedef" in (y.kind, z.kind) and "member" in (y.kind, z.kind):
            return True             # known finding: not accepted by the parser
        if y.ns != z.ns:
            return False
        if "typedef" in (y.kind, z.kind):
            return True
        if y.scope is z.scope:
            return True
        if y.start >= z.end or z.start >= y.end:
            return False
        inner, outer = (y, z) if y.start > z.start and y.end <= z.end else (z, y)
        return any(inner.start < u < inner.end for u in outer.uses)

    def dense(self):
        s = self.s
        names = {}
        by = {}
        pool = POOL[:s.int(1, len(POOL))]
        for y in self.syms:
            for n in s.shuffle(pool):
                if not any(self.clash(y, z) for z in by.get(n, [])):
                    break
            else:
                n = "q%d" % y.n
            names[y.n] = n
            by.setdefault(n, []).append(y)
        return names


class C11(Prop):
    id = "C11"
    quick = 900
    thorough = 20000
    rule = ("programs of 1-3 functions with nested blocks, for-init declarations, parameters, globals, statics, struct/union/enum tags, "
            "members, enumerators, typedefs and labels, generated over abstract symbols; each is named three ways: all names different, as "
            "few names as C's scope and name-space rules allow, and keyword-like or long names; gcc's output for the first is the expected "
            "output of all three; non-trivial: the dense naming shadows some visible ordinary identifier")
    assumptions = ["gcc -O0 gives the C behaviour of these well-defined programs"]

    def gen(self, s):
        p = Prog(s)
        p.program()
        dn = p.dense()
        shadow = any(dn[y.n] == dn[z.n] and y.ns == z.ns == "o" and y.start > z.start and y.end <= z.end and y.scope is not z.scope
                     for y in p.syms for z in p.syms if z is not y)
        if shadow:
            p.feats.add("shadowing")
        if any(dn[y.n] == dn[z.n] and y.ns != z.ns for y in p.syms for z in p.syms):
            p.feats.add("name-spaces-share")
        return Case(p.text(dn), p.feats, nontrivial=shadow, unique=p.text(p.unique()), weird=p.text(p.weird()))

    def check(self, case, t):
        exp, rc = reference(case, t)
        f, _ = run_one(case, t, exp, rc)
        if f:
            return "[dense names] " + f
        for k in ("unique", "weird"):
            c = Case(case.kw[k])
            exp2, rc2 = reference(c, t)
            if (exp2, rc2) != (exp, rc):
                raise GenError("renaming changed the program (%s)" % k)
            f, _ = run_one(c, t, exp, rc)
            if f:
                return "[%s names] %s\n%s" % (k, f, case.kw[k][:1500])
        reference(case, t)
        return None


PROP = C11
