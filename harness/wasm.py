"""A decoder for the WebAssembly MVP binary format (what the compiler emits)."""
import struct


class Bad(Exception):
    pass


class R:
    def __init__(self, b, i=0, end=None):
        self.b, self.i, self.end = b, i, len(b) if end is None else end

    def byte(self):
        if self.i >= self.end:
            raise Bad("unexpected end at %d" % self.i)
        v = self.b[self.i]
        self.i += 1
        return v

    def take(self, n):
        if self.i + n > self.end:
            raise Bad("unexpected end at %d" % self.i)
        v = self.b[self.i:self.i + n]
        self.i += n
        return v

    def u(self, bits=32):
        r = sh = 0
        while True:
            x = self.byte()
            r |= (x & 0x7f) << sh
            sh += 7
            if not x & 0x80:
                break
            if sh > bits + 6:
                raise Bad("LEB128 too long at %d" % self.i)
        if r >> bits:
            raise Bad("LEB128 value does not fit %d bits at %d" % (bits, self.i))
        return r

    def s(self, bits):
        r = sh = 0
        while True:
            x = self.byte()
            r |= (x & 0x7f) << sh
            sh += 7
            if not x & 0x80:
                break
            if sh > bits + 6:
                raise Bad("LEB128 too long at %d" % self.i)
        if x & 0x40:
            r -= 1 << sh
        if not -(1 << bits - 1) <= r < 1 << bits - 1:
            raise Bad("signed LEB128 value does not fit %d bits at %d" % (bits, self.i))
        return r

    def name(self):
        return self.take(self.u()).decode("utf-8")


class Module:
    def __init__(self, data):
        r = R(data)
        if r.take(8) != b"\0asm\1\0\0\0":
            raise Bad("bad header")
        self.types, self.imports, self.funcs, self.exports, self.bodies, self.data = [], [], [], [], [], []
        self.start = None
        self.nfimports = 0
        last = 0
        order = [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 10, 11]
        self.memories = 0
        while r.i < len(data):
            sid = r.byte()
            size = r.u()
            end = r.i + size
            if end > len(data):
                raise Bad("section %d exceeds the file" % sid)
            if sid:
                if sid not in order:
                    raise Bad("unknown section %d" % sid)
                if order.index(sid) + 1 <= last:
                    raise Bad("section %d out of order" % sid)
                last = order.index(sid) + 1
            q = R(data, r.i, end)
            if sid:
                getattr(self, "sec%d" % sid)(q)
                if q.i != end:
                    raise Bad("section %d: %d bytes left over" % (sid, end - q.i))
            r.i = end
        if len(self.funcs) != len(self.bodies):
            raise Bad("%d functions, %d bodies" % (len(self.funcs), len(self.bodies)))

    def sec1(self, q):
        for _ in range(q.u()):
            if q.byte() != 0x60:
                raise Bad("bad function type")
            self.types.append((bytes(q.take(q.u())), bytes(q.take(q.u()))))

    def limits(self, q):
        f = q.byte()
        return (q.u(), q.u() if f & 1 else None)

    def sec2(self, q):
        for _ in range(q.u()):
            m, n, k = q.name(), q.name(), q.byte()
            if k == 0:
                d = self.types[q.u()]
                self.nfimports += 1
            elif k == 1:
                q.byte()
                d = self.limits(q)
            elif k == 2:
                d = self.limits(q)
                self.memories += 1
            elif k == 3:
                d = (q.byte(), q.byte())
            else:
                raise Bad("import kind %d" % k)
            self.imports.append((m, n, k, d))

    def sec3(self, q):
        for _ in range(q.u()):
            t = q.u()
            if t >= len(self.types):
                raise Bad("type index %d" % t)
            self.funcs.append(t)

    def sec4(self, q):
        for _ in range(q.u()):
            q.byte()
            self.limits(q)

    def sec5(self, q):
        for _ in range(q.u()):
            self.limits(q)
            self.memories += 1

    def sec6(self, q):
        for _ in range(q.u()):
            q.byte(), q.byte()
            code(q, {})

    def sec7(self, q):
        for _ in range(q.u()):
            n, k, i = q.name(), q.byte(), q.u()
            self.exports.append((n, k, i))

    def sec8(self, q):
        self.start = q.u()

    def sec9(self, q):
        for _ in range(q.u()):
            if q.u() != 0:
                raise Bad("element segment kind")
            code(q, {})
            for _ in range(q.u()):
                q.u()

    def sec12(self, q):
        q.u()

    def sec10(self, q):
        for _ in range(q.u()):
            size = q.u()
            end = q.i + size
            if end > q.end:
                raise Bad("body exceeds the section")
            b = R(q.b, q.i, end)
            loc = []
            for _ in range(b.u()):
                n = b.u()
                loc.append((n, b.byte()))
            info = {"locals": loc, "calls": [], "i32": [], "i64": [], "f": [], "ops": {}, "size": size, "max_depth": 0}
            code(b, info)
            if b.i != end:
                raise Bad("body: %d bytes left over" % (end - b.i))
            self.bodies.append(info)
            q.i = end

    def sec11(self, q):
        for _ in range(q.u()):
            k = q.u()
            off = None
            if k in (0, 2):
                if k == 2:
                    q.u()
                info = {"i32": []}
                code(q, info)
                off = info["i32"][0]
            elif k != 1:
                raise Bad("data segment kind %d" % k)
            self.data.append((off, bytes(q.take(q.u()))))

    def memory_image(self, size=65536):
        m = bytearray(size)
        for off, d in self.data:
            if off is not None:
                if off < 0 or off + len(d) > size:
                    raise Bad("data segment at %d of %d bytes exceeds memory" % (off, len(d)))
                m[off:off + len(d)] = d
        return bytes(m)


MEM = set(range(0x28, 0x3f))


def code(q, info):
    depth = 1
    ops = info.setdefault("ops", {})
    for k in ("calls", "i32", "i64", "f"):
        info.setdefault(k, [])
    while True:
        o = q.byte()
        ops[o] = ops.get(o, 0) + 1
        if o in (2, 3, 4):
            t = q.s(33)
            depth += 1
            info["max_depth"] = max(info.get("max_depth", 0), depth)
        elif o == 0x0b:
            depth -= 1
            if depth == 0:
                return
        elif o in (0x0c, 0x0d):
            l = q.u()
            if l >= depth:
                raise Bad("branch to label %d at depth %d" % (l, depth))
        elif o == 0x0e:
            for _ in range(q.u() + 1):
                l = q.u()
                if l >= depth:
                    raise Bad("br_table label %d at depth %d" % (l, depth))
        elif o in (0x10, 0x12):
            info["calls"].append(q.u())
        elif o in (0x11, 0x13):
            q.u(), q.u()
        elif 0x20 <= o <= 0x26:
            q.u()
        elif o in MEM:
            q.u(), q.u()
        elif o in (0x3f, 0x40):
            q.u()
        elif o == 0x41:
            info["i32"].append(q.s(32))
        elif o == 0x42:
            info["i64"].append(q.s(64))
        elif o == 0x43:
            info["f"].append(struct.unpack("<f", q.take(4))[0])
        elif o == 0x44:
            info["f"].append(struct.unpack("<d", q.take(8))[0])
        elif o == 0xfc:
            s = q.u()
            if s >= 8:
                q.u()
                if s in (8, 10, 12, 14):
                    q.u()
        elif o in (0, 1, 5, 0x0f, 0x1a, 0x1b) or 0x45 <= o <= 0xc4:
            pass
        else:
            raise Bad("unknown opcode 0x%02x at %d" % (o, q.i - 1))
