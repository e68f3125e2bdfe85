"""One task of one check, in its own process."""
import importlib
import json
import os
import sys
import traceback

sys.setrecursionlimit(20000)


def main():
    pid, task, out, mode, tier, seed, tmax = sys.argv[1:8]
    spec = json.load(open(sys.argv[8])) if len(sys.argv) > 8 else None
    os.environ["VF_TIER"] = tier
    from vf import check, smt
    smt.reset_log()
    smt.CROSS = tier == "thorough"
    mod = importlib.import_module(f"checks.{pid.lower()}")
    ctx = check.Ctx(pid, task, tier, int(seed), mode, spec, tmax=float(tmax))
    err = None
    try:
        mod.TASKS[task](ctx)
    except check.CodeError as e:
        err = f"code raises outside an obligation: {e}"
    except Exception as e:
        err = traceback.format_exc()
    r = ctx.result()
    r["error"] = err
    with open(out + ".tmp", "w") as fh:
        json.dump(r, fh)
    os.replace(out + ".tmp", out)


if __name__ == "__main__":
    main()
