import argparse
import importlib
import json
import os
import sys
import tempfile
import shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [REPO, VERIF]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--selftest", action="store_true", help="only check that appletree can be imported")
    ap.add_argument("--replay")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    replay = None
    if a.replay:
        with open(a.replay) as f:
            replay = json.load(f)
        seed, tier = replay["seed"], replay["tier"]

    scratch = tempfile.mkdtemp(prefix="verif_")
    os.environ["VERIF_SCRATCH"] = scratch
    cwd = os.getcwd()
    try:
        os.chdir(scratch)
        from lib import vh

        with vh.quiet():
            import appletree

        where = os.path.dirname(os.path.dirname(os.path.realpath(appletree.__file__)))
        if where != os.path.realpath(REPO):
            print(f"appletree comes from {where}, not from {REPO}", file=sys.stderr)
            return 2
        if a.selftest or not a.property:
            print(f"appletree {appletree.__version__} from {where}")
            return 0
        module = importlib.import_module("checks." + a.property.lower())
        return vh.run(a.property, module, seed, tier, replay)
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
