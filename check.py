#!/usr/bin/env python3
"""check.py ID | check.py --replay FILE | check.py --setup"""

import importlib
import json
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from harness import core  # noqa: E402


def main():
    if sys.argv[1] == "--setup":
        run = core.Run("setup")
        run.java()
        for configuration in core.CONFIGURATIONS:
            run.driver(configuration)
        core.shutil.rmtree(run.scratch)
        return 0
    if sys.argv[1] == "--replay":
        with open(sys.argv[2]) as file:
            one = json.load(file)
        if one["session"].get("rerun"):
            # the violation takes the whole run: other sessions, other processes
            os.environ.update(VERIF_SEED=str(one["seed"]), VERIF_TIER=one["tier"])
            return decide(one["property"])
        run = core.Run(one["property"])
        sessions = [one["session"]]
        configuration = (one["session"].get("configuration") or "default")
        run.validate(one["module"], run.execute(sessions, configuration), sessions)
        return run.finish()
    return decide(sys.argv[1])


def decide(prop):
    run = core.Run(prop)
    properties = importlib.import_module("harness.properties")
    try:
        try:
            getattr(properties, prop)(run)
        except core.Trouble as trouble:
            # what has been rejected is rejected, whatever prevents the rest from being judged
            if not run.violations:
                raise
            run.log("stopped: %s" % trouble)
        return run.finish()
    finally:
        core.shutil.rmtree(run.scratch, ignore_errors=True)


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.exit(code)
