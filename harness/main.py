"""./check ID: decides one property on /repo's current working tree."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from core import Ctx            # noqa: E402
import registry                 # noqa: E402


def main():
    pid = sys.argv[1]
    if pid == "--setup":
        import build
        print(build.build())
        return 0
    mod, fn, level = registry.CHECKS[pid][:3]
    try:
        ctx = Ctx(pid)
        try:
            getattr(importlib.import_module(mod), fn)(ctx)
        except (TypeError, KeyError, IndexError, ValueError, ArithmeticError) as e:
            # the package answered something no comparison is prepared for
            traceback.print_exc()
            ctx.violation(f"an answer that cannot be interpreted: {type(e).__name__}: {e}", trace=traceback.format_exc()[-1500:])
        return ctx.finish(level)
    except Exception:                   # noqa: BLE001
        traceback.print_exc()
        print(f"ERROR: the check of {pid} could not be carried out", file=sys.stderr)
        return 2


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
