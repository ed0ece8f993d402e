import re
from ..engine import Prop, Case, GenError, run_one, reference, load_prop
from .common import *

# C's tokens (of the preprocessed language): longest match, pp-numbers included
TOK = re.compile(r'''(?P<ws>[ \t\n\v\f\r]+)|(?P<lc>//[^\n]*)|(?P<bc>/\*.*?\*/)|(?P<num>\.?[0-9](?:[eEpP][+-]|[0-9A-Za-z_.])*)|(?P<id>[A-Za-z_]\w*)'''
                 r'''|(?P<str>"(?:\\.|[^"\\\n])*")|(?P<chr>'(?:\\.|[^'\\\n])*')'''
                 r'''|(?P<op>\.\.\.|<<=|>>=|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|%:%:|%:|<%|%>|<:|:>|##|[-+*/%&|^!~=<>?:;,.(){}\[\]#])''', re.S)
COMMENTS = ["/**/", "/* */", "/***/", "/* a // b */", "/* \" */", "/* ' */", "/* it's */", "/*/ */", "/* * / */", "// x\n", "//\n",
            "// /* \n", "// \"\n", "/* int x = 1; */", "/*\n*/", "/* \n * multi\n */", "// it's */ \n", "/*\\*/", "/* } */", "/*;*/"]


def tokenize(text):
    toks, i = [], 0
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            return None
        i = m.end()
        if m.lastgroup not in ("ws", "lc", "bc"):
            toks.append(m.group())
    return toks


def split_program(text):
    """-> list of ('pp', line) and ('tok', token)"""
    items, buf = [], []

    def flush():
        if buf:
            ts = tokenize("\n".join(buf))
            if ts is None:
                raise GenError("cannot tokenise")
            items.extend(("tok", t) for t in ts)
            buf.clear()
    for line in text.split("\n"):
        if re.match(r"\s*#", line):
            flush()
            items.append(("pp", line))
        else:
            buf.append(line)
    flush()
    return items


def fuses(a, b):
    """would a and b, written next to each other, be read differently?"""
    # a comment could begin as well
    if a[-1] == "/" and b[0] in "/*":
        return True
    # digraphs are left out: they're not part of the language accepted
    if a[-1] + b[0] in ("<:", "<%", "%:", "%>", ":>"):
        return True
    return tokenize(a + b) != [a, b]


def splice(s, t):
    """a line splice inside a token"""
    if len(t) < 2:
        return t
    i = s.int(1, len(t) - 1)
    return t[:i] + "\\\n" + t[i:]


def layout(s, items, mode):
    out = []
    prev = None
    for kind, t in items:
        if kind == "pp":
            if out and not out[-1].endswith("\n"):
                out.append("\n")
            if mode == 2 and s.chance(40):
                m = re.match(r"\s*#\s*(\w+)\s*(.*)", t)
                t = s.pick(["", " ", "\t"]) + "#" + s.pick(["", " ", "\t "]) + m.group(1) + (
                    s.pick([" ", "  ", "\t"] + ([""] if m.group(1) == "include" else [])) + m.group(2) if m.group(2) else "")
                if s.chance(30):
                    t += s.pick([" ", "\t", " // c", " /* c */"])
            out.append(t + "\n")
            prev = None
            continue
        need = prev is not None and fuses(prev, t)
        if mode == 0:
            sep = " " if need else ""
        elif mode == 1:
            sep = "\n" if prev is not None else ""
        else:
            k = s.below(20)
            if k < 9:
                sep = ""
            elif k < 12:
                sep = " "
            elif k < 14:
                sep = s.pick(["\n", "\t", "  ", "\n\n", "\v", "\f", " \n ", "\r\n", "\\\n ", " \\\n"])
            elif k < 19:
                sep = s.pick(COMMENTS)
            else:
                sep = "".join(s.pick(COMMENTS + [" ", "\n"]) for _ in range(s.int(1, 4)))
            if prev is not None and prev[-1] == "/" and sep[:1] in ("/",):
                sep = " " + sep
            if need and sep == "":
                sep = s.pick([" ", "\n", "/**/"])
                if sep == "/**/" and prev[-1] == "/":
                    sep = " "
            if s.chance(4) and not t.startswith(('"', "'")):
                t2 = splice(s, t)
            elif s.chance(3) and t.startswith('"') and len(t) > 2:
                t2 = splice(s, t)
            else:
                t2 = t
            out.append(sep)
            out.append(t2)
            prev = t
            continue
        out.append(sep)
        out.append(t)
        prev = t
    text = "".join(out)
    # a # may not become the first thing of a line, and an include-like line must not appear
    if not text.endswith("\n"):
        text += "\n"
    return text


ESC = {"\\n": 10, "\\t": 9, "\\r": 13, "\\a": 7, "\\b": 8, "\\f": 12, "\\v": 11, "\\\\": 92, "\\'": 39, '\\"': 34, "\\?": 63}


def char_spelling(s, v, quote, nxt=None):
    """a spelling of byte v (0..255) in a literal; nxt: next character in it"""
    opts = []
    c = chr(v)
    if 32 <= v < 127 and c not in "\\" + quote + "?":
        opts += [c] * 3
    for k, w in ESC.items():
        if w == v:
            opts += [k] * 2
    if nxt is None or nxt not in "01234567":
        opts.append("\\%o" % v)
    opts.append("\\%03o" % v)
    if nxt is None or nxt not in "0123456789abcdefABCDEF":
        opts.append("\\x%x" % v)
        opts.append("\\x%02X" % v)
        if s.chance(20):
            opts.append("\\x%05x" % v)
    return s.pick(opts)


def rand_bytes(s, n):
    out = []
    for _ in range(n):
        k = s.below(10)
        if k < 5:
            out.append(s.int(97, 122))
        elif k < 7:
            out.append(s.int(32, 126))
        elif k < 8:
            out.append(s.int(48, 57))
        elif k < 9:
            out.append(s.pick(list(ESC.values())))
        else:
            out.append(s.int(0, 255))
    return out


def string_text(s, bs):
    """(possibly several adjacent) string literals with the bytes bs"""
    parts, cur = [], []
    for i in range(len(bs) - 1, -1, -1):
        nxt = cur[0][0] if cur else None
        if cur and s.chance(8):
            parts.insert(0, cur)
            cur, nxt = [], None
        cur.insert(0, char_spelling(s, bs[i], '"', nxt))
    parts.insert(0, cur)
    if s.chance(10):
        parts.insert(s.below(len(parts) + 1), [])
    return s.pick([" ", "", "\n", " /* + */ "]).join('"' + "".join(p) + '"' for p in parts)


def int_spelling(s, v):
    k = s.below(8)
    if k < 3 and lit_type(v, True):
        return str(v)
    if k < 5:
        h = "%x" % v
        h = "".join(c.upper() if s.chance(40) else c for c in h)
        return s.pick(["0x", "0X"]) + "0" * s.pick([0, 0, 1, 3, 12]) + h
    if k < 7:
        return "0" + "0" * s.pick([0, 0, 1, 5]) + ("%o" % v if v or s.chance(50) else "")
    return s.pick(["0b", "0B"]) + "0" * s.pick([0, 0, 1, 7]) + bin(v)[2:]


def float_spelling(s):
    """a random decimal floating constant"""
    k = s.below(8)
    ip = "".join(s.pick("0123456789") for _ in range(s.pick([1, 1, 2, 3, 6, 20])))
    fp = "".join(s.pick("0123456789") for _ in range(s.pick([1, 1, 2, 3, 6, 20])))
    ex = s.pick(["e", "E"]) + s.pick(["", "+", "-"]) + str(s.pick([0, 1, 2, 5, 10, 15, 20, 30])).rjust(s.pick([1, 2, 3]), "0")
    if k < 2:
        return ip + "." + fp
    if k == 2:
        return ip + "."
    if k == 3:
        return "." + fp
    if k == 4:
        return ip + ex
    if k == 5:
        return ip + "." + fp + ex
    if k == 6:
        return ip + "." + ex
    return "." + fp + ex


MUNCH = ["a+++b", "a---b", "a- -b", "a+ +b", "a-- -b", "a++ +b", "a- --b", "a+ ++b", "a<-b", "a>-b", "a&&!b", "a&~b", "a|| !b", "-a- -b", "a*-b",
         "a-~b", "!-a", "~-a", "- -a", "-+-a", "+-+a", "!!a", "~~a", "a?b:c", "a?-b:+c", "a<<b%3", "a>>(b&3)", "a<=b", "a>=b", "a==-b", "a!=!b",
         "a^-b", "a|-b", "a%-3", "a/-3", "a<b==c", "a- - -b", "a- -(-b)", "a-b--", "a+b++", "p[0]--- -a", "*p-*p", "*p**p", "a**p", "a/ *p", "a&*p", "a&&*p",
         "-*p", "~*p", "!*p", "(a)-b", "(a)+(b)", "(a)*b", "(int)-a", "(int)+a", "(char)~a", "(int)*p", "sizeof a+1", "sizeof(int)-a", "sizeof a*b",
         "a>>=1", "a<<=1", "a-=-b", "a+=+b", "a*=*p", "a/=3", "a%=3", "a&=b", "a|=b", "a^=b", "a=-b", "a=+b", "a=*p", "a=!b", "a=~b", "a=b=c",
         "a^=b^c", "a=b==c", "a=b!=c", "s.x-s.y", "s.x- -s.y", "q->x-q->y", "q->x--", "--q->x", "++s.x", "s.x++", "s.x+++s.y", "q->x---q->y", "-q->x",
         "a-q->x", "a>q->x", "a-- >0", "a-->0", "0<a--", "a>-1", "a<-1", "a>>-b*-1%4+3", "p[a-a]", "p[-a+a]", "a,b", "(a,b)", "a?b?1:2:3", "a?1:b?2:3",
         "a&b&&c", "a|b||c", "a&&b||c", "a||b&&c", "a&b|c^a", "a==b&c", "a<b<c", "a-b-c", "a/b/3", "a-(b-c)", "a<<1+1", "a+1<<1", "a&b==c", "!a==b", "~a&b",
         "-a%3", "a*b%c", "a%b*c", "a=b,c", "*p++", "*++p-*--p", "++*p", "(*p)++", "-- *p", "a=b?c:a", "a?a=1:(b=2)", "a+=b-=c", ".5*a>1", "a*.5<1", "a-.5>0",
         "1.+a>2", "a-1.>2", "a+1.e1>0", "0x1f+a", "0xe +a", "1-1", "a-1", "a+1", "0-a", "00+a", "01-a", "0b1+a", "'a'-'b'", "'a'+a", "a-'a'"]


class C13(Prop):
    id = "C13"
    quick = 500
    thorough = 20000
    rule = ("either up to 30 literal probes (integers in every base with leading zeros and both cases, floating constants of every form, characters "
            "and strings of arbitrary bytes with every escape, adjacent literals) and operator sequences relying on maximal munch, or a program of "
            "another property's generator; the token sequence is laid out as written, with as little white space as C allows, one token per line, and "
            "with random white space, comments and line splices; non-trivial: every case")
    assumptions = ["gcc -O0 gives the C behaviour; gcc's output is the expected one for every layout, and gcc is required to confirm it for each"]
    BASES = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12"]

    def literals(self, s):
        feats = set()
        L = ["#include <stdio.h>", FLOAT_HELPERS,
             'void dump(char *p, int n) { for (int i = 0; i < n; i++) printf("%d ", p[i]); printf("\\n"); }', "struct S { int x; int y; };"]
        glob, body = [], []
        for i in range(s.int(1, 30)):
            k = s.below(10)
            if k < 3:
                v = abs(rand_value(s, s.pick(INTS)))
                t = int_spelling(s, v)
                ty = lit_type(v, t[0] != "0") if v or t != "0" else "int"
                feats.add("int:" + ty)
                body.append(show(ty, t))
                if s.chance(20):
                    body.append('printf("%%d\\n", (int)sizeof(%s));' % t)
            elif k < 5:
                t = float_spelling(s)
                feats.add("float")
                if s.chance(20):
                    glob.append("double g%d = %s;" % (i, t))
                    t = "g%d" % i
                body.append("pd(%s);" % t)
                if s.chance(20):
                    body.append("pf(%s);" % t)
            elif k < 6:
                v = rand_bytes(s, 1)[0]
                t = "'" + char_spelling(s, v, "'") + "'"
                feats.add("char")
                body.append('printf("%%d %%d\\n", %s, (int)sizeof(%s));' % (t, t))
                if s.chance(20):
                    body.append("switch (%d) { case %s: printf(\"y\\n\"); }" % (v - 256 if v > 127 else v, t))
            elif k < 8:
                n = s.pick([0, 1, 2, 3, 5, 8, 20, 60])
                bs = rand_bytes(s, n)
                t = string_text(s, bs)
                feats.add("string")
                m = s.below(5)
                if m == 0:
                    body.append("dump(%s, %d);" % (t, n + 1))
                elif m == 1:
                    body.append("{ char a[] = %s; dump(a, (int)sizeof(a)); }" % t)
                elif m == 2:
                    glob.append("char s%d[] = %s;" % (i, t))
                    body.append("dump(s%d, (int)sizeof(s%d));" % (i, i))
                elif m == 3:
                    glob.append("char *s%d = %s;" % (i, t))
                    body.append("dump(s%d, %d);" % (i, n + 1))
                else:
                    bs = [b for b in bs if b < 128]
                    body.append('printf("%%s|\\n", %s);' % string_text(s, bs))
            else:
                m = s.pick(MUNCH)
                feats.add("munch")
                body.append("{ int a = %d, b = %d, c = %d, d[3] = {%d, %d, %d}, *p = d + 1; struct S s = {%d, %d}, *q = &s; int r = (%s); "
                            "printf(\"%%d %%d %%d %%d %%d %%d %%d %%d %%d\\n\", r, a, b, c, d[0], d[1], d[2], s.x, s.y); }"
                            % tuple([s.int(1, 30) for _ in range(8)] + [m]))
        return "\n".join(L + glob + ["int main(void) {"] + body + ["return 0;", "}"]) + "\n", feats

    def gen(self, s):
        if s.chance(45):
            b = s.pick(self.BASES)
            c = load_prop(b).gen(s)
            text, feats = c.src, {"base:" + b}
            if c.files:
                text, feats = self.literals(s)
        else:
            text, feats = self.literals(s)
        items = split_program(text)
        lay = [layout(s, items, m) for m in ((0, 1, 2, 2) if s.chance(30) else (2, 0))]
        return Case(text, feats, layouts=lay)

    def check(self, case, t):
        exp, rc = reference(case, t)
        f, _ = run_one(case, t, exp, rc)
        if f:
            return "[as written] " + f
        for text in case.kw["layouts"]:
            c = Case(text)
            exp2, rc2 = reference(c, t)
            if (exp2, rc2) != (exp, rc):
                raise GenError("layout changed the program:\n" + text)
            f, _ = run_one(c, t, exp, rc)
            if f:
                return "[other layout] %s\n%s" % (f, text[:1500])
        reference(case, t)
        return None


PROP = C13
