"""check.py <property> [--replay FILE]: runs the check of one property; see DESIGN.md."""
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault("MPLBACKEND", "Agg")

import core
import tlc


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = core.Ctx(prop, tier if tier in ("quick", "thorough") else "quick", seed)
    os.environ["MPLCONFIGDIR"] = ctx.sub("mpl")
    os.chdir(ctx.sub("cwd"))
    import registry
    try:
        fn, level = registry.CHECKS[prop]
        fn(ctx)
    except tlc.Machinery as e:
        print(f"check error: {e}", file=sys.stderr)
        core.shutil.rmtree(ctx.scratch, ignore_errors=True)
        return 3
    except registry.Broken as e:      # the code under test raised where it must not
        ctx.fail(str(e), detail=traceback.format_exc())
    return ctx.finish(level)


if __name__ == "__main__":
    sys.exit(main())
