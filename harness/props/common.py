from ..cgen import *

FLOAT_HELPERS = """union ub { double d; unsigned long u; };
union uf { float f; unsigned int u; };
void pd(double d) { union ub x; if (d != d) { printf("nan\\n"); return; } x.d = d; printf("%lu\\n", x.u); }
void pf(float f) { union uf x; if (f != f) { printf("nanf\\n"); return; } x.f = f; printf("%u\\n", x.u); }
"""


def show(ty, text):
    """a statement printing an expression of type ty exactly"""
    if ty == "double":
        return "pd(%s);" % text
    if ty == "float":
        return "pf(%s);" % text
    return 'printf("%s\\n", %s);' % (FMT[ty], text)


def rand_any(s, ty):
    return rand_float(s, ty) if isf(ty) else rand_value(s, ty)


def to_text(s, v, ty):
    """initialiser text giving a variable of type ty the value v"""
    return const_in(s, v, ty)
