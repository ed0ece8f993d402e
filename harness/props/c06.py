from ..engine import Prop, Case
from ..world import World


class C06(Prop):
    id = "C06"
    quick = 1200
    thorough = 30000
    rule = ("programs over 1-8 global/static/local scalars, arrays (up to 3 dimensions) and pointers (also to pointers and in arrays) "
            "whose targets the generator tracks; up to 45 statements (stores through every alias spelling, pointer "
            "arithmetic, *p++ forms, byte stores, loops, conditional stores, calls with pointer arguments, nested scopes), "
            "then all objects are printed; non-trivial: at least one store or read goes through a pointer variable")
    assumptions = ["gcc -O0 gives the C behaviour of these well-defined programs"]

    def gen(self, s):
        w = World(s, structs=False, unions=False)
        text = w.program()
        return Case(text, w.feats, nontrivial=w.used_ptr > 0)


PROP = C06
