"""python3-vt -m vf.replay <replay file>

Runs a recorded case again, without the search.  Exit 1 and a VIOLATION line
if the property still fails on it, 0 if it holds.
"""
import json
import sys

from . import boot, core
from .run import load_prop


def main(path):
    with open(path) as file:
        replay = json.load(file)
    boot.load()
    core.guard_init()
    prop = load_prop(replay["property"])
    setup = getattr(prop, "setup", None)
    if setup:
        setup("quick")
    for case in replay.get("prefix", []):
        try:
            prop.check(case, core.Recorder())
        except core.Violation:
            pass
    try:
        prop.check(replay["case"], core.Recorder())
    except core.Violation as exc:
        print("%s: %s" % (replay["property"], exc))
        print("VIOLATION property=%s replay=%s" % (replay["property"], path))
        return 1
    print("%s holds on %s" % (replay["property"], path))
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
