import os, sys
from . import engine

if __name__ == "__main__":
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    count = int(sys.argv[3]) if len(sys.argv) > 3 else None
    seed = os.environ.get("VERIF_SEED", "1")
    sys.exit(engine.main(pid, tier, seed, count))
