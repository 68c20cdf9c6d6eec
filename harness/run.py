"""Entry point: run.py <PROPERTY> — runs the registered check of a property."""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.environ.get("PYCBA_REPO", "/repo"), "src"))

import core  # noqa: E402
from registry import CHECKS  # noqa: E402


def main():
    prop = sys.argv[1]
    modname, fname = CHECKS[prop][:2]
    rep = core.Report(prop)
    try:
        fn = getattr(importlib.import_module(modname), fname)
        fn(rep)
    except core.MachineryError as e:
        print(f"machinery error: {e}")
        return 3
    except Exception:
        traceback.print_exc()
        return 3
    return rep.finish()


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
