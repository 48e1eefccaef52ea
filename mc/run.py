import sys, os, argparse
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core
p = argparse.ArgumentParser()
p.add_argument("id")
p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
p.add_argument("--replay")
p.add_argument("--jobs", type=int)
p.add_argument("--only")
a = p.parse_args()
seed = int(os.environ.get("VERIF_SEED", "1") or 1)
rc = core.main("checks." + a.id.lower(), a.tier, seed, a.replay, a.jobs, a.only)
sys.stdout.flush()
sys.exit(rc)
