"""C types, values and a value-tracking expression generator.

The generator knows the value of every variable it reads, so it can evaluate
each expression while building it and never emits undefined behaviour."""
import math, struct

SIZE = {"char": 1, "uchar": 1, "short": 2, "ushort": 2, "int": 4, "uint": 4, "long": 8, "ulong": 8,
        "float": 4, "double": 8}
INTS = ["int", "uint", "char", "uchar", "short", "ushort", "long", "ulong"]
FLOATS = ["float", "double"]
ALL = INTS + FLOATS
SPELL = {
    "char": ["char", "signed char"],
    "uchar": ["unsigned char"],
    "short": ["short", "short int", "signed short", "signed short int"],
    "ushort": ["unsigned short", "unsigned short int"],
    "int": ["int", "signed", "signed int"],
    "uint": ["unsigned int", "unsigned"],
    "long": ["long", "long int", "signed long", "signed long int"],
    "ulong": ["unsigned long", "unsigned long int"],
    "float": ["float"],
    "double": ["double"],
}
FMT = {"char": "%d", "uchar": "%d", "short": "%d", "ushort": "%d", "int": "%d", "uint": "%u", "long": "%ld", "ulong": "%lu"}


def cname(s, ty, plain=70):
    """a spelling of the type (simplest first)"""
    sp = SPELL[ty]
    if len(sp) == 1 or not s.chance(100 - plain):
        return sp[0]
    return s.pick(sp)


def signed(ty):
    return ty in ("char", "short", "int", "long", "float", "double")


def isf(ty):
    return ty in ("float", "double")


def lo(ty):
    return -(1 << (8 * SIZE[ty] - 1)) if signed(ty) else 0


def hi(ty):
    return (1 << (8 * SIZE[ty] - (1 if signed(ty) else 0))) - 1


def f32(x):
    try:
        return struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def wrap(v, ty):
    n = 8 * SIZE[ty]
    v &= (1 << n) - 1
    if signed(ty) and v >> (n - 1):
        v -= 1 << n
    return v


def int_to_float(v, ty):
    """correctly rounded"""
    if ty == "double":
        return float(v)
    # round to 24 bits directly from the integer
    if v == 0:
        return 0.0
    sgn, m = (-1, -v) if v < 0 else (1, v)
    sh = m.bit_length() - 24
    if sh > 0:
        q, r = m >> sh, m & ((1 << sh) - 1)
        half = 1 << (sh - 1)
        if r > half or (r == half and q & 1):
            q += 1
        m = q << sh
    return sgn * float(m)


class Undefined(Exception):
    pass


def conv(v, frm, to):
    """C conversion; raises Undefined when it is"""
    if isf(to):
        if isf(frm):
            return f32(v) if to == "float" else v
        return int_to_float(v, to)
    if isf(frm):
        if math.isnan(v) or math.isinf(v):
            raise Undefined()
        i = int(v)
        if not (lo(to) <= i <= hi(to)):
            raise Undefined()
        return i
    return wrap(v, to)


def promote(ty):
    return "int" if ty in ("char", "uchar", "short", "ushort") else ty


def common(a, b):
    if "double" in (a, b):
        return "double"
    if "float" in (a, b):
        return "float"
    a, b = promote(a), promote(b)
    if "ulong" in (a, b):
        return "ulong"
    if "long" in (a, b):
        return "long"
    if "uint" in (a, b):
        return "uint"
    return "int"


def arith(op, a, b, ty):
    """a op b in type ty (both already converted)"""
    if isf(ty):
        if op == "+":
            r = a + b
        elif op == "-":
            r = a - b
        elif op == "*":
            r = a * b
        elif op == "/":
            if b == 0:
                if a == 0 or math.isnan(a):
                    r = math.nan
                else:
                    r = math.copysign(math.inf, a) * math.copysign(1, b)
            else:
                r = a / b
        else:
            raise Undefined()
        return f32(r) if ty == "float" else r
    if op == "+":
        r = a + b
    elif op == "-":
        r = a - b
    elif op == "*":
        r = a * b
    elif op in "/%":
        if b == 0 or (signed(ty) and a == lo(ty) and b == -1):
            raise Undefined()
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            q = -q
        r = q if op == "/" else a - q * b
    elif op == "&":
        r = a & b
    elif op == "|":
        r = a | b
    elif op == "^":
        r = a ^ b
    else:
        raise KeyError(op)
    return wrap(r, ty)


def binop(op, ta, va, tb, vb):
    """-> (type, value)"""
    if op in ("<<", ">>"):
        ty = promote(ta)
        vb2 = conv(vb, tb, promote(tb))
        if isf(ta) or isf(tb) or not (0 <= vb2 < 8 * SIZE[ty]):
            raise Undefined()
        v = conv(va, ta, ty)
        return ty, wrap(v << vb2 if op == "<<" else v >> vb2, ty)
    if op in ("&&", "||"):
        x, y = bool(va), bool(vb)
        return "int", int((x and y) if op == "&&" else (x or y))
    ty = common(ta, tb)
    a, b = conv(va, ta, ty), conv(vb, tb, ty)
    if op in ("<", ">", "<=", ">=", "==", "!="):
        r = {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
        return "int", int(r)
    return ty, arith(op, a, b, ty)


PREC = {",": 1, "=": 2, "?": 3, "||": 4, "&&": 5, "|": 6, "^": 7, "&": 8, "==": 9, "!=": 9, "<": 10, ">": 10,
        "<=": 10, ">=": 10, "<<": 11, ">>": 11, "+": 12, "-": 12, "*": 13, "/": 13, "%": 13}
UN, POST, PRIM = 14, 15, 16


class E:
    __slots__ = ("text", "prec", "ty", "val", "const")

    def __init__(self, text, prec, ty, val, const=False):
        self.text, self.prec, self.ty, self.val, self.const = text, prec, ty, val, const

    def at(self, p):
        return self.text if self.prec >= p else "(" + self.text + ")"


def lit_type(v, dec):
    for t in (("int", "long") if dec else ("int", "uint", "long", "ulong")):
        if v <= hi(t):
            return t
    return None


BOUNDARY = sorted(set(
    [0, 1, 2, 3, 5, 7, 10, 100, 255, 256, 65535, 65536, -1, -2, -3, -7, -128, -129, -32768, -32769]
    + [(1 << k) + d for k in (7, 8, 15, 16, 31, 32, 63) for d in (-1, 0, 1)]
    + [-(1 << k) + d for k in (7, 8, 15, 16, 31, 32, 63) for d in (-1, 0, 1)]), key=lambda v: (abs(v), v < 0))


def tie_value(s, ty):
    """halfway between two neighbouring floats or doubles, or next to it"""
    bits = 8 * SIZE[ty] - signed(ty)
    p = 24 if bits < 54 or s.chance(60) else 53
    n = s.int(p + 1, bits) if s.chance(50) else bits - s.below(4)
    q = (1 << (p - 1)) | s.pick([0, 1, s.below(1 << (p - 1)), (1 << (p - 1)) - 1])
    v = (q << (n - p)) + (1 << (n - p - 1)) + s.pick([0, 1, -1, s.int(-40, 40)])
    return wrap(-v if signed(ty) and s.chance(40) else v, ty)


def rand_value(s, ty):
    """an interesting value of an integer type"""
    k = s.below(10)
    if k < 3:
        return wrap(s.int(0, 20) - s.below(12), ty)
    if k < 7:
        return wrap(s.pick(BOUNDARY), ty)
    if k < 8:
        b = s.below(8 * SIZE[ty])
        return wrap((1 << b) - s.below(3), ty)
    if SIZE[ty] >= 4 and s.chance(30):
        return tie_value(s, ty)
    return wrap(s.below(1 << 32) | (s.below(1 << 32) << 32), ty)


FLOAT_VALUES = [0.0, 1.0, 2.0, 0.5, 3.0, 0.1, 1e10, 1.5, 100.25, 16777216.0, 16777217.0, 123456.789, 1e-3, 3.14159,
                1e20, 1e-20, 4294967296.0, 2147483648.0, 9007199254740993.0, 0.3, 7.75, 1e30, 1e-30, 255.0, 65535.5]


def float_text(v):
    """a C literal (possibly negated) for the double v, exactly; in the syntax accepted:
    digits with a point, optional exponent"""
    t = repr(abs(v))
    if "inf" in t or "nan" in t:
        raise Undefined()
    if "e" in t:
        m, e = t.split("e")
        if "." not in m:
            m += ".0"
        t = m + "e" + str(int(e))
    return t


def rand_float(s, ty):
    k = s.below(10)
    if k < 3:
        v = float(s.int(0, 20)) * (0.25 if s.chance(30) else 1.0)
    elif k < 7:
        v = s.pick(FLOAT_VALUES)
    else:
        v = (s.below(1 << 30) + 1) * 2.0 ** (s.int(0, 60) - 40)
    if s.chance(30):
        v = -v
    return f32(v) if ty == "float" else v


def literal(s, v, base=None):
    """E for a non-negative integer constant"""
    k = s.below(10) if base is None else base
    if k < 6 or lit_type(v, True) is None and k < 6:
        ty = lit_type(v, True)
        if ty is not None:
            return E(str(v), PRIM, ty, v, True)
        k = 8
    ty = lit_type(v, False)
    if k < 8:
        t = "0x%x" % v
        if s.chance(40):
            t = t.upper() if s.chance(50) else "0x" + t[2:].upper()
        return E(t, PRIM, ty, v, True)
    if k < 9:
        return E("0%o" % v, PRIM, ty, v, True)
    return E("0b" + bin(v)[2:], PRIM, ty, v, True)


def const_of(s, v, base=None):
    """an expression (not necessarily a single token) denoting integer v; type is what C says"""
    if v >= 0:
        return literal(s, v, base)
    if v == -(1 << 63):
        a = const_of(s, v + 1, 0)
        return E(a.at(12) + " - 1", 12, "long", v, True)
    e = literal(s, -v, base)
    if not signed(e.ty):
        e = literal(s, -v, 0)
    ty = promote(e.ty)
    return E("-" + e.text, UN, ty, wrap(-e.val, ty), True)


def const_in(s, v, ty):
    """a constant expression whose conversion to ty gives v"""
    if isf(ty):
        t = float_text(v)
        return ("-" + t) if math.copysign(1, v) < 0 else t
    return const_of(s, v).text


class Gen:
    """expressions over a set of variables with known values"""

    def __init__(self, s, vars, floats=False, ops=None, casts=True, ternary=True, comma=True, sizeof=True, lits=True):
        self.s = s
        self.vars = vars                  # list of (text, ty, value)
        self.floats = floats
        self.casts = casts
        self.ternary = ternary
        self.comma = comma
        self.sizeof = sizeof
        self.feats = set()
        self.nops = 0

    def leaf(self):
        s = self.s
        k = s.below(10)
        if k < 7 and self.vars:
            t, ty, v = s.pick(self.vars)
            return E(t, POST if not t.isidentifier() else PRIM, ty, v)
        if self.floats and k == 7:
            v = abs(rand_float(s, "double"))
            return E(float_text(v), PRIM, "double", v, True)
        if k == 9 and self.sizeof:
            ty = s.pick(INTS)
            return E("(int)sizeof(%s)" % SPELL[ty][0], UN, "int", SIZE[ty], True)
        if k == 9 and s.chance(50):
            c = s.pick("azAZ09 +%")
            return E("'%s'" % c, PRIM, "int", ord(c), True)
        v = rand_value(s, s.pick(["int", "uint", "char", "long", "ulong"]))
        return literal(s, abs(v) if abs(v) < (1 << 63) else v & ((1 << 63) - 1))

    def bin(self, op, a, b):
        ty, v = binop(op, a.ty, a.val, b.ty, b.val)
        p = PREC[op]
        self.feats.add("op" + op)
        if p < 12:
            self.feats.add("ty:" + common(a.ty, b.ty))
        return E(a.at(p) + " " + op + " " + b.at(p + 1), p, ty, v, a.const and b.const)

    def un(self, op, a):
        self.feats.add("un" + op)
        if op == "!":
            ty, v = "int", int(not a.val)
        else:
            ty = promote(a.ty)
            x = conv(a.val, a.ty, ty)
            if op == "-":
                v = -x if isf(ty) else wrap(-x, ty)
            elif op == "+":
                v = x
            else:
                if isf(ty):
                    raise Undefined()
                v = wrap(~x, ty)
        t = a.at(UN)
        if t[0] == op:
            t = " " + t
        return E(op + t, UN, ty, v, a.const)

    def cast(self, ty, a):
        self.feats.add("cast:" + ty)
        v = conv(a.val, a.ty, ty)
        return E("(%s)%s" % (cname(self.s, ty), a.at(UN)), UN, ty, v, a.const)

    def expr(self, depth):
        s = self.s
        if depth <= 0 or s.chance(12):
            return self.leaf()
        self.nops += 1
        try:
            k = s.below(20)
            if k < 12:
                op = s.weighted([(3, "+"), (3, "-"), (3, "*"), (4, "/"), (4, "%"), (2, "&"), (2, "|"), (2, "^"),
                                 (3, "<<"), (4, ">>"), (2, "<"), (2, ">"), (2, "<="), (2, ">="), (2, "=="), (2, "!="),
                                 (2, "&&"), (2, "||")])
                a = self.expr(depth - 1)
                if op in ("<<", ">>"):
                    if isf(a.ty):
                        a = self.cast_safe(s.pick(INTS), a)
                    n = s.below(8 * SIZE[promote(a.ty)])
                    b = self.expr(depth - 2)
                    if isf(b.ty) or not (0 <= b.val < 8 * SIZE[promote(a.ty)]):
                        if s.chance(50) and not isf(b.ty):
                            m = literal(s, 8 * SIZE[promote(a.ty)] - 1, 0)
                            b = self.bin("&", b, m)
                            if b.val < 0:
                                b = literal(s, n, 0)
                        else:
                            cands = [x for x in self.vars if not isf(x[1]) and 0 <= x[2] < 8 * SIZE[promote(a.ty)]]
                            if cands:
                                t, ty, v = s.pick(cands)
                                b = E(t, POST, ty, v)
                            else:
                                b = literal(s, n, 0)
                else:
                    b = self.expr(depth - 1)
                    if op in ("%", "&", "|", "^"):
                        if isf(a.ty):
                            a = self.cast_safe(s.pick(INTS), a)
                        if isf(b.ty):
                            b = self.cast_safe(s.pick(INTS), b)
                try:
                    return self.bin(op, a, b)
                except Undefined:
                    return self.bin("-" if op == "/" else "^", a, b)
            if k < 16:
                op = s.pick(["-", "~", "!", "+"])
                a = self.expr(depth - 1)
                if op == "~" and isf(a.ty):
                    op = "-"
                return self.un(op, a)
            if k < 18 and self.casts:
                a = self.expr(depth - 1)
                return self.cast_safe(s.pick(ALL if self.floats else INTS), a)
            if self.ternary and (k == 18 or not self.comma):
                c = self.expr(depth - 1)
                a, b = self.expr(depth - 1), self.expr(depth - 1)
                self.feats.add("?:")
                ty = common(a.ty, b.ty)
                v = conv(a.val, a.ty, ty) if c.val else conv(b.val, b.ty, ty)
                return E(c.at(4) + " ? " + a.at(1) + " : " + b.at(3), 3, ty, v, a.const and b.const and c.const)
            if self.comma:
                a, b = self.expr(depth - 1), self.expr(depth - 1)
                self.feats.add("comma")
                return E("(" + a.at(1) + ", " + b.at(2) + ")", PRIM, b.ty, b.val)
            return self.expr(depth - 1)
        except Undefined:
            return self.leaf()

    def cast_safe(self, ty, a):
        try:
            return self.cast(ty, a)
        except Undefined:
            # a float out of the integer's range: compare it instead
            self.feats.add("un!")
            return self.un("!", a)
