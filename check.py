#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough

Exit 0: the property held on everything explored.  Exit 1, with a VIOLATION
line: it did not.  Exit 2: the check could not be carried out."""
import os, sys, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core, props


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    rep = core.Report(prop, tier, seed)
    try:
        props.CHECKS[prop](rep)
        return rep.finish()
    except core.ToolError as e:
        print("ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
