#!/usr/bin/env python3
"""check.py <property>: decides one property (VERIF_TIER, VERIF_SEED from the environment)."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from common import Check, ToolError

def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    if "--thorough" in sys.argv:
        os.environ["VERIF_TIER"] = "thorough"
    prop = args[0]
    import checks_lang
    table = dict(checks_lang.CHECKS)
    for mod in ("checks_http", "checks_run", "checks_more"):
        if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), mod + ".py")):
            table.update(__import__(mod).CHECKS)
    check = Check(prop)
    try:
        table[prop](check)
        check.finish()
    except ToolError as e:
        print("ERROR: %s" % e, flush=True)
        sys.exit(2 if not check.violations else 1)
    except Exception:
        traceback.print_exc()
        sys.exit(2 if not check.violations else 1)

main()
