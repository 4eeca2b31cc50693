#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] [--replay FILE] : decide one property on /repo's working tree."""
import sys, os, json, traceback
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import core, props


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    prop = args[0]
    tier = args[1] if len(args) > 1 and args[1] in ("quick", "thorough") else os.environ.get("VERIF_TIER", "quick")
    chk = core.Check(prop, tier, int(os.environ.get("VERIF_SEED", "1") or 1))
    if "--replay" in sys.argv:
        chk.replay_in = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
    try:
        props.CHECKS[prop](chk)
        rc = chk.finish()
    except Exception:
        traceback.print_exc()
        import shutil
        shutil.rmtree(chk.tmp, ignore_errors=True)
        sys.exit(2)
    sys.exit(rc)


main()
