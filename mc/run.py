"""Entry point: python -m mc.run C01 [--tier quick|thorough]"""
import importlib
import os
import sys
import traceback


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    mod = importlib.import_module("mc." + prop.lower())
    try:
        rc = mod.main(tier)
    except (OSError, MemoryError):
        traceback.print_exc()
        rc = 2
    except Exception as e:
        # does not happen on the unchanged tree: the library did something
        # that the preparation of the check cannot interpret
        from . import base
        traceback.print_exc()
        msg = f"{type(e).__name__}: {e}"
        path = base.write_replay(prop, "preparation of the check", msg, "# " + traceback.format_exc().replace("\n", "\n# "))
        print(f"preparing the check: {msg}"[:600])
        print(f"VIOLATION property={prop} replay={path}")
        rc = 1
    sys.exit(rc)


main()
