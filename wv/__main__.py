import argparse, os, sys
from . import base


def main():
    p = argparse.ArgumentParser()
    p.add_argument("property")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = p.parse_args()
    from . import checks
    chk = base.Check(a.property, a.tier, a.seed)
    try:
        getattr(checks, a.property)(chk)
    except base.ToolError as e:
        print(e)
        sys.exit(2)
    sys.exit(chk.finish())


main()
