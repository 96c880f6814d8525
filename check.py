#!/opt/venv/bin/python
"""Usage: check.py <property id>    (VERIF_TIER, VERIF_SEED from the environment)"""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PARCE_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED") or 1)
    from vlib import core, known
    ctx = core.Ctx(pid, tier, seed)
    keep = os.environ.get("VERIF_KEEP")
    try:
        try:
            mod = importlib.import_module("checks." + pid.lower())
        except core.MachineryError:
            raise
        try:
            mod.run(ctx)
        except Exception as e:
            if not ctx.violations:
                raise
            print("stopped after a violation:", str(e)[:300])
        rc = ctx.finish(mod.LEVEL, mod.RULE, known.for_property(pid))
    except core.MachineryError as e:
        print("MACHINERY ERROR:", e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        if not keep:
            ctx.cleanup()
    return rc


if __name__ == "__main__":
    sys.exit(main())
