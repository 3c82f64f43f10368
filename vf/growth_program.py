"""Program of C26: renders to viewers, or opens and closes them, and measures itself.

Run by the project's interpreter with the repository and a case as arguments.
"""
import gc
import json
import os
import random
import sys
import threading

sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
import clubs  # noqa: E402
from clubs.render import GraphicViewer  # noqa: E402


def state(players, num):
    return {
        "action": num % players, "active": [True] * players, "all_in": [False] * players,
        "community_cards": [clubs.Card("Kd")], "button": num % players, "done": False,
        "hole_cards": [[clubs.Card("Ah")] for _ in range(players)], "pot": num,
        "payouts": [0] * players, "prev_action": None, "street_commits": [0] * players,
        "stacks": [100] * players,
    }


def measure(server):
    for _ in range(3):
        gc.collect()
    return {
        "objects": len(gc.get_objects()),
        "open files": len(os.listdir("/proc/self/fd")),
        "threads": threading.active_count(),
        "open files of the server":
            len(os.listdir("/proc/%d/fd" % server)) if server else 0,
        "processes": sum(parent(pid) == os.getpid() for pid in numbers()),
    }


def numbers():
    return [int(name) for name in os.listdir("/proc") if name.isdigit()]


def parent(pid):
    try:
        with open("/proc/%d/stat" % pid) as file:
            return int(file.read().rsplit(")", 1)[1].split()[1])
    except OSError:
        return None


def main():
    case = json.loads(sys.argv[2])
    players = case["players"]
    random.seed(1)
    dealer = clubs.Dealer(**dict(
        clubs.configs.NO_LIMIT_HOLDEM_SIX_PLAYER, num_players=players, antes=0,
        blinds=[1] * players,
    ))
    dealer.reset()
    server = None
    if case["live"] == "states":
        viewer = GraphicViewer(players, 1, 1)
        server = [pid for pid in numbers() if parent(pid) == os.getpid()][0]
    elif case["live"] == "tables":
        dealer.render()
        server = [pid for pid in numbers() if parent(pid) == os.getpid()][0]
    num, out = 0, []
    for moment in case["moments"]:
        while num < moment:
            num += 1
            if case["live"] == "states":
                viewer.render(state(players, num))
            elif case["live"] == "tables":
                dealer.reset(reset_stacks=True)
                dealer.render()
            elif case["live"] == "viewers":
                viewer = GraphicViewer(players, 1, 1)
                viewer.render(state(players, num))
                viewer.close()
                viewer = None
            else:
                viewer = GraphicViewer(players, 1, 1)
                viewer = None
                for _ in range(3):
                    gc.collect()
        out.append([num, measure(server)])
    sys.__stdout__.write("\n@" + json.dumps({"seen": out}) + "\n")
    sys.__stdout__.flush()
    sys.stdin.readline()


main()
