"""Entry point of all checks: run.py <property id> [--tier T] [--replay FILE]."""

import argparse
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = "/opt/venv/bin/python"


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    parser.add_argument("--replay")
    parser.add_argument("--shard")
    parser.add_argument("--outdir")
    args = parser.parse_args()

    if os.environ.get("VERIF_REEXEC") != "1":
        env = dict(os.environ)
        env.update(
            VERIF_REEXEC="1",
            PYTHONDONTWRITEBYTECODE="1",
            PYTHONHASHSEED="0",
            VERIF_TIER=args.tier,
            OMP_NUM_THREADS="1",
            OPENBLAS_NUM_THREADS="1",
        )
        os.execve(PYTHON, [PYTHON, os.path.abspath(__file__)] + sys.argv[1:], env)

    sys.path.insert(0, HERE)
    from vlib import core

    core.setup_paths()
    check = importlib.import_module("checks." + args.property.lower())

    if args.replay:
        return core.replay(check, args.replay)

    seed = int(args.seed)
    if args.shard:
        name, shard = args.shard.rsplit(":", 1)
        layer = {layer.name: layer for layer in check.LAYERS}[name]
        core.run_shard(check, layer, int(shard), args.tier, seed, args.outdir)
        os._exit(0)
    return core.run_check(check, args.tier, seed)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    sys.exit(rc)
