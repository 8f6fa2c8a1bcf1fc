import json
import os
import sys

from gemmc import engine


def main():
    import gym_electric_motor

    assert os.path.realpath(gym_electric_motor.__file__).startswith(os.path.realpath(engine.REPO) + os.sep), \
        gym_electric_motor.__file__
    if sys.argv[1] == "setup":
        # nothing to build: import everything once so that a broken installation shows here
        for p in sorted((engine.VERIF / "checks").glob("c*.py")):
            engine.load(p.stem.split("_")[0])
        print("setup ok")
        return
    if sys.argv[1] == "replay":
        d = json.load(open(sys.argv[2]))
        sys.exit(engine.run_check(d["property"], d.get("tier", "quick"), only_case=d["case"]))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(engine.run_check(sys.argv[1].upper(), tier))


if __name__ == "__main__":
    main()
