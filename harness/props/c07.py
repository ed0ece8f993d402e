from ..engine import Prop, Case
from ..world import World


class C07(Prop):
    id = "C07"
    quick = 800
    thorough = 30000
    rule = ("as C06 with struct and union types (nested, arrays of structs, array and pointer members, self-assignment, "
            "whole-struct copies, typedef'd and tagged spellings) and enumerators; every member of every object is printed "
            "at the end, union members overlap; non-trivial: a struct or union object is stored to")
    assumptions = ["gcc -O0 gives the C behaviour", "members of unions start at the same address, little-endian"]

    def gen(self, s):
        w = World(s, enums=s.chance(30), typedefs=True)
        text = w.program()
        return Case(text, w.feats, nontrivial=bool(w.feats & {"struct", "union"}))


PROP = C07
