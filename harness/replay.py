"""python3 -m harness.replay FILE: regenerate a replay file's case and check it again."""
import json, sys
from . import engine, toolchain
from .choice import Src

if __name__ == "__main__":
    r = json.load(open(sys.argv[1]))
    err = toolchain.build()
    if err:
        print(err)
        sys.exit(2)
    prop = engine.load_prop(r["property"])
    t = toolchain.Tools()
    try:
        case = prop.gen(Src(prefix=r["choices"]))
        print(case.src)
        f = engine.judge(prop, case, t)
        print("args:", case.args, "flags:", case.flags)
        print("FAILS: " + f if f else "passes")
        sys.exit(1 if f else 0)
    finally:
        t.close()
