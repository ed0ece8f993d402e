import itertools, os
from ..engine import Prop, Case, reference, run_one, load_prop
from ..toolchain import FLAGS
from .. import live

COMBOS = [list(c) for n in range(4) for c in itertools.combinations(FLAGS, n)]


class C14(Prop):
    id = "C14"
    quick = 300
    thorough = 16000
    rule = ("programs of a dedicated generator (functions with 3-16 variables of all sizes, block-local ones, arrays, addresses taken, dead stores, random "
            "control flow with gotos, calls, tail calls and self tail calls) and of the other properties' generators, each compiled with all eight "
            "combinations of the optimisation switches, with --prof-stack (with a random combination), and again with the default switches; "
            "every module's output and exit status are compared with gcc's; non-trivial: at least one optimisation changes the emitted module")
    assumptions = ["gcc -O0 gives the C behaviour"]
    BASES = ["C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11"]

    def gen(self, s):
        if s.chance(30):
            b = s.pick(self.BASES)
            c = load_prop(b).gen(s)
            text, feats = c.src, {"base:" + b}
            if c.files or c.args:
                text, feats = live.program(s)
        else:
            text, feats = live.program(s)
        return Case(text, feats, prof=s.pick(COMBOS))

    def check(self, case, t):
        exp, rc = reference(case, t)
        size = {}
        for flags in COMBOS + [["--prof-stack"] + case.kw["prof"], [], []]:
            f, r = run_one(case, t, exp, rc, flags=flags)
            if f:
                return f
            size.setdefault(" ".join(flags), os.path.getsize(t.path("main.wasm")))
        d = size[""]
        k = 0
        for i, fl in enumerate(FLAGS):
            if size[fl] != d:
                t.bump("effective" + fl[2:])
                k = 1
        if not k:
            t.bump("no_optimisation_effective")
        return None


PROP = C14
