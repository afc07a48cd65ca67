#!/usr/bin/env python3
"""check.py ID [quick|thorough]     decide one property against /repo's tree
check.py --replay DIR             run a reported disagreement again

Exit status: 0 held on everything explored, 1 violation, 2 the check itself failed."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import checks, core  # noqa: E402


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return checks.replay(sys.argv[2])
    if len(sys.argv) not in (2, 3):
        print(__doc__)
        return 2
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) == 3 else os.environ.get("VERIF_TIER", "quick")
    try:
        return checks.check(pid, tier, int(os.environ.get("VERIF_SEED", "1")))
    except core.ToolError as e:
        print("ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
