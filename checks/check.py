#!/usr/bin/env python3
"""check.py ID quick|thorough: decide one property.  Exit 0 held, 1 violated, 2 the machinery failed."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]


def main():
    from bv.checks import wire, text, emulated, together, options
    checks = dict(wire.CHECKS)
    checks.update(text.CHECKS)
    checks.update(emulated.CHECKS)
    checks.update(together.CHECKS)
    checks.update(options.CHECKS)
    pid = sys.argv[1]
    try:
        return checks[pid]()
    except Exception:
        traceback.print_exc()
        print("check %s could not judge (harness error)" % pid, file=sys.stderr)
        return 2


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
