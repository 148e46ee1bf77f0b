"""check.py ID [quick|thorough] | check.py ID --replay FILE"""
import os
import sys
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import core


def main():
    pid = sys.argv[1]
    from registry import load
    prop = load(pid)
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        sys.exit(core.replay(prop, sys.argv[3]))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        code = core.check(prop, tier, seed)
    except core.CheckError as e:
        sys.stderr.write("check failed: %s\n" % e)
        code = 2
    sys.stdout.flush()
    sys.exit(code)


if __name__ == "__main__":
    main()
