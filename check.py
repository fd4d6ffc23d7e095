"""python3-vt /verif/check.py <property> [--thorough]   (VERIF_SEED, VERIF_TIER)"""
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True

import registry  # noqa: E402
from context import Check  # noqa: E402
from core import ToolError  # noqa: E402


def main():
    prop = sys.argv[1]
    level, rule, parts = registry.CHECKS[prop]
    cx = Check(prop, level, rule)
    try:
        for part in parts:
            part(cx)
        return cx.finish()
    except ToolError as e:
        print("TOOL ERROR in the check of %s:\n%s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        cx.clean()


sys.exit(main())
