"""A world of typed objects (scalars, arrays, structs, unions, pointers) whose pointer
targets are known while the program is generated in execution order, so that every
access is in bounds and every lvalue can be spelled through any of its aliases."""
from .cgen import *


class Sc:
    kind = "sc"

    def __init__(self, ty, spell=None):
        self.ty, self.spell = ty, spell


class Arr:
    kind = "arr"

    def __init__(self, el, n):
        self.el, self.n = el, n


class St:
    kind = "st"

    def __init__(self, tag, members, union=False, spell=None):
        self.tag, self.members, self.union = tag, members, union
        self.spell = spell or (("union " if union else "struct ") + tag)


class Ptr:
    kind = "ptr"

    def __init__(self, to):
        self.to = to


def same(a, b):
    if a is b:
        return True
    if a.kind != b.kind:
        return False
    if a.kind == "sc":
        return a.ty == b.ty
    if a.kind == "arr":
        return a.n == b.n and same(a.el, b.el)
    if a.kind == "ptr":
        return same(a.to, b.to)
    return a.tag == b.tag


def decl(t, name, s=None):
    if t.kind == "sc":
        return "%s %s" % (t.spell or (cname(s, t.ty) if s and t.ty != "char" else SPELL[t.ty][0]), name)
    if t.kind == "arr":
        return decl(t.el, "%s[%d]" % (name, t.n), s)
    if t.kind == "st":
        return "%s %s" % (t.spell, name)
    return decl(t.to, "*" + name, s)


def has_ptr(t):
    if t.kind == "ptr":
        return True
    if t.kind == "arr":
        return has_ptr(t.el)
    if t.kind == "st":
        return any(has_ptr(m) for _, m in t.members)
    return False


def has_union(t):
    if t.kind == "arr":
        return has_union(t.el)
    if t.kind == "st":
        return t.union or any(has_union(m) for _, m in t.members)
    return False


def leaves(t, path=()):
    """all scalar/pointer sub-object paths"""
    if t.kind in ("sc", "ptr"):
        yield path, t
    elif t.kind == "arr":
        for i in range(t.n):
            yield from leaves(t.el, path + (i,))
    else:
        for n, m in t.members:
            yield from leaves(m, path + (n,))


def subs(t, path=()):
    """all sub-objects"""
    yield path, t
    if t.kind == "arr":
        for i in range(t.n):
            yield from subs(t.el, path + (i,))
    elif t.kind == "st":
        for n, m in t.members:
            yield from subs(m, path + (n,))


def union_member(t):
    """types whose layout has no padding on any target"""
    if t.kind == "sc":
        return True
    if t.kind == "arr":
        return t.el.kind == "sc" or t.el.kind == "arr" and union_member(t.el)
    if t.kind == "st" and not t.union:
        ls = [l for _, l in leaves(t)]
        return not has_union(t) and all(l.kind == "sc" for l in ls) and len(set(SIZE[l.ty] for l in ls)) == 1
    return False


def size_of(t):
    if t.kind in ("sc", "ptr"):
        return 1
    if t.kind == "arr":
        return t.n * size_of(t.el)
    return sum(size_of(m) for _, m in t.members)


class World:
    def __init__(self, s, structs=True, unions=True, floats=True, enums=False, typedefs=False):
        self.s = s
        self.structs, self.unions, self.floats = structs, unions, floats
        self.tags = []
        self.type_decls = []
        self.objs = {}           # name -> type
        self.visible = []        # stack of lists of names visible directly
        self.ptrs = {}           # (name, path) -> (name, path)   known pointer targets
        self.feats = set()
        self.nname = 0
        self.typedefs, self.enums = typedefs, enums
        self.enum_consts = []
        self.idx = []            # (variable, value) usable as index
        self.functions = []
        self.depth = 0
        self.globals_text = []
        self.nstmt = 0
        self.used_ptr = 0
        self.noaddr = set()      # loop variables etc.

    def name(self, p):
        self.nname += 1
        return "%s%d" % (p, self.nname)

    # ---- types
    def scalar(self):
        s = self.s
        if self.floats and s.chance(12):
            return Sc(s.pick(FLOATS))
        if self.enums and self.enum_consts and s.chance(8):
            return Sc("int", spell=None)
        return Sc(s.pick(INTS))

    def type(self, d=2, ptr=True):
        s = self.s
        k = s.below(10)
        if k < 4 or d <= 0:
            return self.scalar()
        if k < 7:
            el = self.type(d - 1, ptr)
            n = s.pick([1, 2, 3, 4, 4, 5, 8])
            if size_of(el) * n > 16:
                n = max(1, 16 // size_of(el))
            return Arr(el, n)
        if k < 9 and self.structs:
            return self.struct(d - 1, ptr)
        if ptr:
            return Ptr(self.pointee(d - 1))
        return self.scalar()

    def pointee(self, d):
        s = self.s
        cands = []
        for n in self.all_visible():
            for p, t in subs(self.objs[n]):
                if t.kind != "arr":
                    cands.append(t)
        if cands and s.chance(80):
            return s.pick(cands)
        return self.scalar()

    def struct(self, d, ptr=True):
        s = self.s
        if self.tags and s.chance(55):
            return s.pick(self.tags)
        union = self.unions and s.chance(25)
        members = []
        names = s.shuffle(["a", "b", "c", "d", "x", "y", "next", "val", "len", "e"])
        tot = 0
        tag = self.name("T")
        for i in range(s.int(1, 5)):
            t = self.type(d, ptr and not union)
            if union:
                if not union_member(t):
                    t = self.scalar()
            if tot + size_of(t) > 12:
                t = self.scalar()
            tot += size_of(t)
            members.append((names[i], t))
        spell = None
        body = "{ %s }" % " ".join(decl(t, n, s) + ";" for n, t in members)
        kw = "union" if union else "struct"
        k = s.below(4) if self.typedefs else 0
        if k == 1:
            self.type_decls.append("typedef %s %s %s_t;" % (kw, body, tag))
            spell = tag + "_t"
            self.feats.add("typedef-struct")
        elif k == 2:
            self.type_decls.append("%s %s %s;" % (kw, tag, body))
            self.type_decls.append("typedef %s %s %s_t;" % (kw, tag, tag))
            spell = tag + "_t" if s.chance(50) else None
        elif k == 3:
            self.type_decls.append("typedef %s %s %s %s_t;" % (kw, tag, body, tag))
            spell = tag + "_t"
        else:
            self.type_decls.append("%s %s %s;" % (kw, tag, body))
        t = St(tag, members, union, spell)
        self.tags.append(t)
        self.feats.add(kw)
        return t

    # ---- objects
    def all_visible(self):
        return [n for l in self.visible for n in l]

    def subtype(self, loc):
        t = self.objs[loc[0]]
        for st in loc[1]:
            if t.kind == "arr":
                t = t.el
            else:
                t = dict(t.members)[st]
        return t

    def init_scalar(self, t):
        s = self.s
        if isf(t.ty):
            return const_in(s, rand_float(s, t.ty), t.ty)
        return const_in(s, rand_value(s, t.ty), t.ty)

    def targets(self, t, reach):
        """locations of type t in the objects `reach`"""
        out = []
        for n in reach:
            for p, st in subs(self.objs[n]):
                if same(st, t):
                    out.append((n, p))
        return out

    def initialiser(self, t, loc, partial=True):
        """brace initialiser text; no pointers inside"""
        s = self.s
        if t.kind == "sc":
            return self.init_scalar(t)
        if t.kind == "ptr":
            return "0"
        if t.kind == "arr":
            n = t.n
            if partial and s.chance(30):
                n = s.int(1, t.n)
                self.feats.add("partial-init")
            return "{%s}" % ", ".join(self.initialiser(t.el, loc, partial) for _ in range(n))
        ms = t.members[:1] if t.union else t.members
        return "{%s}" % ", ".join(self.initialiser(m, loc, partial) for _, m in ms)

    def new_object(self, t, glob, out):
        """declare an object in the innermost scope, fully initialised"""
        s = self.s
        n = self.name("g" if glob else "v")
        self.objs[n] = t
        self.visible[-1].append(n)
        lines = []
        st = "static " if s.chance(8) else ""
        if t.kind == "ptr":
            tg = [x for x in self.targets(t.to, self.all_visible()) if x[0] != n]
            if tg and not glob and not st:
                x = s.pick(tg)
                lines.append("%s = %s;" % (decl(t, n, s), self.addr(x, skip=n)))
                self.ptrs[(n, ())] = x
                out += lines
                return n
            lines.append("%s%s%s;" % (st, decl(t, n, s), "" if glob or st else " = 0"))
            out += lines
            return n
        k = s.below(10)
        un = has_union(t)
        if glob or st:
            if k < 5 and not un and not has_ptr(t):
                lines.append("%s%s = %s;" % (st, decl(t, n, s), self.initialiser(t, (n, ()))))
                self.feats.add("global-init")
            else:
                lines.append("%s%s;" % (st, decl(t, n, s)))
            out += lines
            return n
        if k < 6 and not un and not has_ptr(t):
            lines.append("%s = %s;" % (decl(t, n, s), self.initialiser(t, (n, ()))))
            self.feats.add("local-init")
        else:
            lines.append("%s;" % decl(t, n, s))
            for p, l in leaves(t):
                lv = self.direct((n, p))
                if l.kind == "ptr":
                    lines.append("%s = 0;" % lv)
                else:
                    lines.append("%s = %s;" % (lv, self.init_scalar(l)))
            if un:
                # a member that does not cover the whole union leaves bytes undefined
                lines[1:1] = self.wipe(t, n)
        out += lines
        return n

    def wipe(self, t, n):
        v = self.name("w")
        return ["{ char *%s = (char *)&%s; int i%s; for (i%s = 0; i%s < (int)sizeof(%s); i%s++) %s[i%s] = 0; }" % (
            v, n, v, v, v, n, v, v, v)]

    # ---- spelling of lvalues
    def index(self, k):
        s = self.s
        if self.idx and s.chance(35):
            v, x = s.pick(self.idx)
            self.feats.add("var-index")
            d = k - x
            if d == 0:
                return v
            return "%s %s %d" % (v, "+" if d > 0 else "-", abs(d))
        return str(k)

    def direct(self, loc, base=None):
        s = self.s
        t = base or loc[0]
        for st in loc[1]:
            t = "%s[%s]" % (t, self.index(st)) if isinstance(st, int) else "%s.%s" % (t, st)
        return t

    def steps(self, text, path, arrow=False):
        """text denotes an object (or, with arrow, a pointer to it)"""
        s = self.s
        first = True
        for st in path:
            if isinstance(st, int):
                if first and arrow:
                    text = "(*%s)" % text
                if s.chance(20):
                    text = "(*(%s + %s))" % (text, self.index(st))
                    self.feats.add("*(a+i)")
                else:
                    text = "%s[%s]" % (text, self.index(st))
            else:
                if first and arrow:
                    text = "%s->%s" % (text, st)
                    self.feats.add("->")
                else:
                    text = "%s.%s" % (text, st)
            first = False
        return text

    def aliases(self, loc):
        """pointers through which loc can be reached: (pointer loc, element offset, rest of path)"""
        out = []
        for p, t in self.ptrs.items():
            if t is None or t[0] != loc[0]:
                continue
            tp, lp = t[1], loc[1]
            if tp == lp[:len(tp)]:
                out.append((p, 0, lp[len(tp):]))
            elif tp and isinstance(tp[-1], int) and tp[:-1] == lp[:len(tp) - 1] and len(lp) >= len(tp):
                out.append((p, lp[len(tp) - 1] - tp[-1], lp[len(tp):]))
        return out

    def lv(self, loc, d=2, skip=None):
        """an lvalue expression (at least postfix precedence) for loc"""
        s = self.s
        vis = self.all_visible()
        al = [a for a in self.aliases(loc) if a[0][0] != skip]
        if d <= 0:
            al = [a for a in al if a[0][0] in vis]
        if loc[0] in vis and (not al or d <= 0 or s.chance(50)):
            return self.steps(loc[0], loc[1])
        if d > 0:
            al = [a for a in al if self.reachable(a[0], d - 1)]
        if not al:
            if loc[0] in vis:
                return self.steps(loc[0], loc[1])
            raise KeyError(loc)
        p, off, rest = s.pick(al)
        base = self.lv(p, d - 1, skip)
        self.used_ptr += 1
        if off == 0:
            if rest and isinstance(rest[0], str):
                return self.steps(base, rest, arrow=True)
            k = s.below(4)
            if k == 0:
                return self.steps("%s[0]" % base, rest)
            return self.steps("(*%s)" % base, rest)
        self.feats.add("p[k]")
        if s.chance(40):
            return self.steps("(*(%s %s %d))" % (base, "+" if off > 0 else "-", abs(off)), rest)
        return self.steps("%s[%s]" % (base, self.index(off)), rest)

    def reachable(self, loc, d):
        if loc[0] in self.all_visible():
            return True
        if d <= 0:
            return False
        return any(self.reachable(a[0], d - 1) for a in self.aliases(loc))

    def addr(self, loc, skip=None):
        """an expression for the address of loc (type: pointer to its type)"""
        s = self.s
        if loc[1] and isinstance(loc[1][-1], int) and s.chance(45):
            arr = (loc[0], loc[1][:-1])
            self.feats.add("array-decay")
            a = self.lv(arr, skip=skip)
            k = loc[1][-1]
            if k == 0 and s.chance(70):
                return a
            return "%s + %s" % (a, self.index(k))
        al = [a for a in self.aliases(loc) if a[2] == () and a[0][0] != skip and self.reachable(a[0], 1)]
        if al and s.chance(30):
            p, off, _ = s.pick(al)
            b = self.lv(p, 1, skip)
            return b if off == 0 else "%s %s %d" % (b, "+" if off > 0 else "-", abs(off))
        return "&" + self.lv(loc, skip=skip)

    # ---- values
    def accessible(self, pred):
        out = []
        roots = set(self.all_visible())
        seen = set()
        for n in roots:
            for p, t in leaves(self.objs[n]):
                if pred(t):
                    out.append((n, p))
        # objects reachable only through pointers
        for p, t in self.ptrs.items():
            if t is not None and t[0] not in roots and self.reachable((t[0], t[1]), 2):
                for q, lt in leaves(self.subtype(t)):
                    if pred(lt):
                        out.append((t[0], t[1] + q))
        return out

    def int_leaf(self, d=2):
        c = self.accessible(lambda t: t.kind == "sc" and not isf(t.ty))
        if not c:
            return None
        loc = self.s.pick(c)
        return self.lv(loc, d), self.subtype(loc)

    def operand(self):
        s = self.s
        k = s.below(10)
        if k < 6:
            l = self.int_leaf()
            if l:
                return l[0]
        if k < 7 and self.enum_consts:
            return s.pick(self.enum_consts)
        if k < 8 and self.idx:
            return s.pick(self.idx)[0]
        return const_of(s, rand_value(s, s.pick(["int", "char", "long"])), 0).at(16)

    def value(self):
        s = self.s
        k = s.below(6)
        if k < 2:
            return self.operand()
        op = s.pick(["+", "-", "*", "^", "&", "|", "+", "-"])
        r = "%s %s %s" % (self.operand(), op, self.operand())
        if k == 5:
            r = "(%s) %s %s" % (r, s.pick(["+", "^", "-"]), self.operand())
        return r

    def float_value(self, ty):
        s = self.s
        c = self.accessible(lambda t: t.kind == "sc" and isf(t.ty))
        if c and s.chance(40):
            return self.lv(s.pick(c))
        if s.chance(30):
            l = self.int_leaf()
            if l:
                return l[0]
        return const_in(s, rand_float(s, ty), ty)

    # ---- statements (executed once, in order)
    def store(self):
        s = self.s
        c = self.accessible(lambda t: t.kind == "sc")
        if not c:
            return []
        loc = s.pick(c)
        t = self.subtype(loc)
        if isf(t.ty):
            return ["%s = %s;" % (self.lv(loc), self.float_value(t.ty))]
        k = s.below(12)
        if k < 7:
            return ["%s = %s;" % (self.lv(loc), self.value())]
        if k < 9:
            self.feats.add("compound")
            return ["%s %s= %s;" % (self.lv(loc), s.pick(["+", "-", "*", "^", "|", "&"]), self.value())]
        if k < 11:
            self.feats.add("++")
            lv = self.lv(loc)
            if lv[0] == "(":
                pass
            return [s.pick(["%s++;", "++%s;", "%s--;", "--%s;"]) % lv]
        other = s.pick(c)
        if isf(self.subtype(other).ty):
            return ["%s = %s;" % (self.lv(loc), self.value())]
        return ["%s = %s = %s;" % (self.lv(loc), self.lv(other), self.value())]

    def ptr_locs(self):
        vis = self.all_visible()
        out = []
        for n in vis:
            for p, t in leaves(self.objs[n]):
                if t.kind == "ptr":
                    out.append((n, p))
        return out

    def lifetime(self, n):
        for i, l in enumerate(self.visible):
            if n in l:
                return i
        return None

    def set_ptr(self):
        """p = &something / pointer arithmetic"""
        s = self.s
        ps = self.ptr_locs()
        if not ps:
            return []
        p = s.pick(ps)
        t = self.subtype(p)
        cur = self.ptrs.get(p)
        if cur is not None and cur[1] and isinstance(cur[1][-1], int) and s.chance(50):
            arr = self.subtype((cur[0], cur[1][:-1]))
            if arr.kind == "arr" and arr.n > 1:
                k = cur[1][-1]
                j = s.below(arr.n)
                d = j - k
                self.feats.add("ptr-arith")
                lv = self.lv(p)
                self.ptrs[p] = (cur[0], cur[1][:-1] + (j,))
                if d == 1 and s.chance(70):
                    return [s.pick(["%s++;", "++%s;"]) % lv]
                if d == -1 and s.chance(70):
                    return [s.pick(["%s--;", "--%s;"]) % lv]
                if s.chance(50):
                    return ["%s %s= %d;" % (lv, "+" if d >= 0 else "-", abs(d))]
                return ["%s = %s %s %d;" % (lv, lv, "+" if d >= 0 else "-", abs(d))]
        # a pointer must not outlive its target: targets no deeper than the pointer's own scope
        depth = self.lifetime(p[0])
        vis = [n for n in self.all_visible() if self.lifetime(n) <= depth]
        tg = self.targets(t.to, vis)
        if not tg:
            return []
        x = s.pick(tg)
        self.feats.add("ptr-set")
        a = self.addr(x)
        r = "%s = %s;" % (self.lv(p), a)
        self.ptrs[p] = x
        return [r]

    def deref_inc(self):
        """*p++ = v and friends"""
        s = self.s
        c = [(p, t) for p, t in self.ptrs.items() if t is not None and p[0] in self.all_visible() and t[1]
             and isinstance(t[1][-1], int) and self.subtype(t).kind == "sc" and not isf(self.subtype(t).ty)]
        if not c:
            return []
        p, t = s.pick(c)
        arr = self.subtype((t[0], t[1][:-1]))
        k = t[1][-1]
        form = s.below(4)
        lv = self.direct(p)
        # the value must not read through p
        v = const_of(s, rand_value(s, "int"), 0).at(2)
        self.feats.add("*p++")
        if form == 0 and k + 1 < arr.n:
            self.ptrs[p] = (t[0], t[1][:-1] + (k + 1,))
            return ["*%s++ = %s;" % (lv, v)]
        if form == 1 and k > 0:
            self.ptrs[p] = (t[0], t[1][:-1] + (k - 1,))
            return ["*--%s = %s;" % (lv, v)]
        if form == 2 and k + 1 < arr.n:
            self.ptrs[p] = (t[0], t[1][:-1] + (k + 1,))
            return ["*++%s %s= %s;" % (lv, s.pick(["+", "^"]), v)]
        return ["(*%s)%s;" % (lv, s.pick(["++", "--"]))]

    def struct_copy(self):
        s = self.s
        c = []
        for n in self.all_visible():
            for p, t in subs(self.objs[n]):
                if t.kind == "st":
                    c.append((n, p))
        if len(c) < 2:
            return []
        a = s.pick(c)
        ta = self.subtype(a)
        cb = [x for x in c if same(self.subtype(x), ta)]
        b = s.pick(cb)
        # overlapping copies (one inside the other) cannot have the same type; a = a is fine
        if has_ptr(ta):
            # pointer lifetimes: only copy from objects whose targets live long enough
            da = self.lifetime(a[0])
            for p, t in list(self.ptrs.items()):
                if p[0] == b[0] and p[1][:len(b[1])] == b[1] and t is not None:
                    lt = self.lifetime(t[0])
                    if lt is None or lt > da:
                        return []
        self.feats.add("struct-copy")
        r = "%s = %s;" % (self.lv(a), self.lv(b))
        new = {}
        for p, t in self.ptrs.items():
            if p[0] == b[0] and p[1][:len(b[1])] == b[1]:
                new[(a[0], a[1] + p[1][len(b[1]):])] = t
        for p in list(self.ptrs):
            if p[0] == a[0] and p[1][:len(a[1])] == a[1]:
                del self.ptrs[p]
        self.ptrs.update(new)
        return [r]

    def compare(self):
        """pointer comparisons and differences"""
        s = self.s
        c = [(p, t) for p, t in self.ptrs.items() if t is not None and p[0] in self.all_visible()]
        if not c:
            return []
        p, t = s.pick(c)
        a = self.lv(p)
        d = [(q, u) for q, u in c if same(self.subtype(u), self.subtype(t))]
        q, u = s.pick(d)
        b = self.lv(q)
        self.feats.add("ptr-compare")
        if u[0] == t[0] and u[1][:-1] == t[1][:-1] and u[1] and isinstance(u[1][-1], int):
            k = s.below(3)
            if k == 0:
                return ['printf("%%d\\n", (int)(%s - %s));' % (a, b)]
            if k == 1:
                return ['printf("%%d %%d\\n", %s %s %s, %s %s %s);' % (
                    a, s.pick(["<", "<=", ">", ">="]), b, b, s.pick(["<", ">"]), a)]
        return ['printf("%%d %%d %%d\\n", %s %s %s, %s != 0, !%s);' % (a, s.pick(["==", "!="]), b, a, a)]

    def loop(self):
        """for over an array of integers (or of structs with an integer leaf)"""
        s = self.s
        c = []
        for n in self.all_visible():
            for p, t in subs(self.objs[n]):
                if t.kind == "arr":
                    for q, l in leaves(t.el):
                        if l.kind == "sc" and not isf(l.ty):
                            c.append(((n, p), q, t.n))
        if not c:
            return []
        arr, q, n = s.pick(c)
        base = self.lv(arr)
        self.feats.add("loop")
        rest = "".join("[%d]" % x if isinstance(x, int) else "." + x for x in q)
        i = self.name("i")
        step = s.pick(["%s[%s]%s = %s * %d + %s;", "%s[%s]%s += %s * %d ^ %s;", "%s[%s]%s = %s * %d - %s;"]) % (
            base, i, rest, i, s.int(1, 9), self.value())
        acc = ""
        if s.chance(50):
            step += ' printf("%%ld ", (long)%s[%s]%s);' % (base, i, rest)
            acc = ' printf("\\n");'
        if s.chance(50):
            return ["for (int %s = 0; %s < %d; %s++) { %s }%s" % (i, i, n, i, step, acc)]
        return ["{ int %s = %d; while (--%s >= 0) { %s }%s }" % (i, n, i, step, acc)]

    def bytes_(self):
        """writes a single byte of an integer object"""
        s = self.s
        c = [l for l in self.accessible(lambda t: t.kind == "sc" and not isf(t.ty))]
        if not c:
            return []
        loc = s.pick(c)
        t = self.subtype(loc)
        self.feats.add("byte-access")
        k = s.below(SIZE[t.ty])
        return ["((char *)&%s)[%d] = %d;" % (self.lv(loc), k, s.int(0, 127))]

    def cond_store(self):
        st = self.store() + (self.store() if self.s.chance(30) else [])
        if not st:
            return []
        self.feats.add("cond-store")
        c = self.operand()
        if self.s.chance(40):
            e = self.store()
            return ["if (%s & %d) { %s } else { %s }" % (c, 1 << self.s.below(4), " ".join(st), " ".join(e))]
        return ["if (%s & %d) { %s }" % (c, 1 << self.s.below(4), " ".join(st))]

    def show(self, loc):
        t = self.subtype(loc)
        lv = self.lv(loc)
        if t.ty == "float":
            return "pf(%s);" % lv
        if t.ty == "double":
            return "pd(%s);" % lv
        return 'printf("%s\\n", %s);' % (FMT[t.ty], lv)

    def dump(self, names, through=False):
        out = []
        for n in names:
            ints = []
            for p, t in leaves(self.objs[n]):
                if t.kind == "ptr":
                    tg = self.ptrs.get((n, p))
                    if tg is None:
                        continue
                    ta = self.subtype(tg)
                    if ta.kind == "sc":
                        d = "*" + self.direct((n, p))
                        out.append("pd(%s);" % d if ta.ty == "double" else "pf(%s);" % d if ta.ty == "float" else
                                   'printf("%s\\n", %s);' % (FMT[ta.ty], d))
                    continue
                if isf(t.ty):
                    out.append(self.show((n, p)))
                else:
                    ints.append((self.direct((n, p)), t.ty))
            for i in range(0, len(ints), 8):
                ch = ints[i:i + 8]
                out.append('printf("%s: %s\\n", %s);' % (n, " ".join(FMT[ty] for _, ty in ch), ", ".join(x for x, _ in ch)))
        return out

    def call(self):
        """call a new function with pointers/values; its body runs now"""
        s = self.s
        if self.depth >= 2 or len(self.functions) > 5:
            return []
        self.feats.add("call-ptr")
        f = self.name("f")
        outer = self.visible
        cands = []
        for n in self.all_visible():
            for p, t in subs(self.objs[n]):
                if t.kind != "arr" or True:
                    cands.append((n, p))
        params, args, names = [], [], []
        new = []
        for _ in range(s.int(0, 3)):
            if cands and s.chance(75):
                loc = s.pick(cands)
                t = self.subtype(loc)
                pn = self.name("p")
                if t.kind == "arr":
                    if t.el.kind == "arr":
                        continue
                    # an array argument: T p[] or T *p
                    args.append(self.lv(loc))
                    pt = Ptr(t.el)
                    params.append(decl(t.el, pn + "[]", s) if s.chance(40) else decl(pt, pn, s))
                    new.append((pn, pt, (loc[0], loc[1] + (0,))))
                else:
                    args.append(self.addr(loc))
                    pt = Ptr(t)
                    params.append(decl(pt, pn, s))
                    new.append((pn, pt, loc))
            else:
                pn = self.name("p")
                t = Sc(s.pick(INTS))
                args.append(self.value())
                params.append(decl(t, pn, s))
                new.append((pn, t, None))
        call = "%s(%s);" % (f, ", ".join(args))
        saved_idx = self.idx
        self.visible = [outer[0], [x[0] for x in new]]
        self.idx = []
        hidden = outer[1:]
        for pn, t, tg in new:
            self.objs[pn] = t
            if tg is not None:
                self.ptrs[(pn, ())] = tg
        self.depth += 1
        body = []
        self.hidden = getattr(self, "hidden", []) + hidden
        for _ in range(s.int(0, 2)):
            self.new_object(self.type(1), False, body)
        self.visible.append([])
        body += self.stmts(s.int(1, 6))
        loc_names = [n for l in self.visible[1:] for n in l]
        if s.chance(40):
            body += self.dump([n for n in loc_names if self.objs[n].kind != "ptr"])
        self.drop(loc_names)
        self.depth -= 1
        self.visible = outer
        self.idx = saved_idx
        self.functions.append("void %s(%s) {\n  %s\n}" % (f, ", ".join(params) or "void", "\n  ".join(body)))
        return [call]

    def drop(self, names):
        """objects whose lifetime ends"""
        names = set(names)
        for p in list(self.ptrs):
            if p[0] in names:
                del self.ptrs[p]
            elif self.ptrs[p] is not None and self.ptrs[p][0] in names:
                self.ptrs[p] = None
        for n in names:
            self.objs.pop(n, None)

    def scope(self):
        s = self.s
        if len(self.visible) > 5:
            return []
        self.feats.add("scope")
        self.visible.append([])
        body = []
        for _ in range(s.int(1, 2)):
            self.new_object(self.type(1), False, body)
        body += self.stmts(s.int(1, 4))
        names = list(self.visible[-1])
        body += self.dump([n for n in names if self.objs[n].kind != "ptr"][:1])
        self.visible.pop()
        self.drop(names)
        return ["{ " + "\n  ".join(body) + " }"]

    def stmts(self, n):
        s = self.s
        out = []
        for _ in range(n):
            self.nstmt += 1
            if self.nstmt > 45:
                break
            k = s.below(30)
            if k < 9:
                st = self.store()
            elif k < 14:
                st = self.set_ptr()
            elif k < 16:
                st = self.deref_inc()
            elif k < 18:
                st = self.struct_copy() or self.store()
            elif k < 20:
                st = self.compare()
            elif k < 22:
                st = self.loop()
            elif k < 23:
                st = self.bytes_()
            elif k < 25:
                st = self.cond_store()
            elif k < 27:
                st = self.call()
            elif k < 28:
                st = self.scope()
            else:
                c = self.accessible(lambda t: t.kind == "sc")
                st = [self.show(s.pick(c))] if c else []
            out += st
        return out

    def program(self, lo=5, hi=30):
        from .props.common import FLOAT_HELPERS
        s = self.s
        self.visible = [[]]
        gl = []
        if self.enums:
            n = s.int(1, 4)
            v = 0
            items = []
            for i in range(n):
                nm = self.name("E")
                if s.chance(40):
                    v = s.int(0, 60) - 20
                    items.append("%s = %d" % (nm, v))
                else:
                    items.append(nm)
                self.enum_consts.append(nm)
                v += 1
            self.type_decls.append("enum en { %s };" % ", ".join(items))
            self.feats.add("enum")
        for _ in range(s.int(1, 5)):
            self.new_object(self.type(), True, gl)
        body = []
        self.visible.append([])
        for _ in range(s.int(0, 3)):
            self.new_object(self.type(), False, body)
        if s.chance(60):
            for v, x in (("k0", 0), ("k2", 2), ("k5", 5)):
                body.append("int %s = %d;" % (v, x))
                self.idx.append((v, x))
        for _ in range(s.int(0, 3)):
            self.new_object(Ptr(self.pointee(1)), False, body)
        body += self.stmts(s.int(lo, hi))
        body += self.dump(self.all_visible())
        text = ["#include <stdio.h>", FLOAT_HELPERS] + self.type_decls + gl + self.functions
        text.append("int main(void) {\n  %s\n  return 0;\n}" % "\n  ".join(body))
        return "\n".join(text) + "\n"
