#!/opt/pypyvenv/bin/python
"""check.py PROPERTY [--runs N] [--workers N]   seed from VERIF_SEED, tier from VERIF_TIER
check.py --replay FILE
check.py --digests PROPERTY N          (determinism test: prints one line per run)
"""
import os
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
# never trust bytecode lying around in the tree under test
sys.pycache_prefix = "/nonexistent-dst-pycache"
REPO = os.environ.get("DST_REPO", "/repo")
sys.path[:0] = [HERE, REPO]

import importlib
import json


def pinned():
    """one environment for every process, so that one seed is one execution"""
    seed = os.environ.get("VERIF_SEED", "1")
    if "--replay" in sys.argv[:-1]:
        with open(sys.argv[sys.argv.index("--replay") + 1]) as f:
            seed = str(json.load(f).get("seed", seed))
    hashseed = os.environ.get("DST_HASHSEED") or str(int(seed) % 4294967296 if seed.lstrip("-").isdigit() else 0)
    env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LC_", "LANG"))}
    env.update(LC_ALL="C.UTF-8", PYTHONHASHSEED=hashseed, PYTHONIOENCODING="utf-8:backslashreplace", TZ="UTC",
               PYTHONUNBUFFERED="1", DST_PINNED="1")
    sys.stdout.flush()
    os.execve(sys.executable, [sys.executable, "-B", os.path.abspath(__file__)] + sys.argv[1:], env)


def mods(pid):
    return importlib.import_module("dst.props.%s" % pid.lower())


def main(argv):
    from dst import core
    import logging
    logging.disable(logging.CRITICAL)
    seed = os.environ.get("VERIF_SEED", "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if argv[0] == "--replay":
        return core.replay(argv[1], mods)
    if argv[0] == "--selfcheck":
        # nothing to build: the checks import the code from the working tree; make sure that this works
        from dst import ref
        ref.normal_cost(ref.counts(range(0, 56, 4)))
        print("ready", sys.version.split()[0])
        return 0
    if argv[0] == "--digests":
        mod = mods(argv[1])
        if hasattr(mod, "warmup"):
            mod.warmup()
        for k, row in sorted(core.digest_table(mod, tier, seed, int(argv[2]), 1).items()):
            print(k, *row)
        return 0
    runs = int(argv[argv.index("--runs") + 1]) if "--runs" in argv else None
    workers = int(argv[argv.index("--workers") + 1]) if "--workers" in argv else None
    return core.check(mods(argv[0]), tier, seed, runs=runs, workers=workers)


if __name__ == "__main__":
    if os.environ.pop("DST_PINNED", None) is None:
        pinned()
    import mahjong
    if not os.path.abspath(mahjong.__file__).startswith(os.path.abspath(REPO) + os.sep):
        print("HARNESS-ERROR mahjong imported from", mahjong.__file__)
        sys.exit(2)
    try:
        code = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
