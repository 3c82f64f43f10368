"""Program of C25: renders tables in the browser and ends as it is told.

Run by the project's interpreter with the repository and a JSON description as
arguments; says its ports, what it has done, and waits for a line after each phase.
"""
import json
import os
import random
import signal
import socket
import sys
import time

REPO, SPEC = sys.argv[1], json.loads(sys.argv[2])
sys.path.insert(0, REPO)
import clubs  # noqa: E402
from clubs.render import GraphicViewer  # noqa: E402

KEEP = []


def free_port():
    """A port below the ephemeral ones which is free with its successor"""
    while True:
        port = 12000 + 2 * random.randrange(9000)
        try:
            for num in (port, port + 1):
                sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
                sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                try:
                    sock.bind(("0.0.0.0", num))
                finally:
                    sock.close()
            return port
        except OSError:
            pass


def say(thing):
    sys.__stdout__.write("\n@" + json.dumps(thing) + "\n")
    sys.__stdout__.flush()


def state(num):
    return {
        "action": 0, "active": [True, True], "all_in": [False, False],
        "community_cards": [], "button": num % 2, "done": False,
        "hole_cards": [[clubs.Card("Ah")], [clubs.Card("Ac")]], "pot": num,
        "payouts": [0, 0], "prev_action": None, "street_commits": [0, 0],
        "stacks": [100, 100],
    }


class Show:
    """A table or a viewer with what was done to it"""

    def __init__(self, kind):
        self.dealer = None
        if kind == "table":
            self.dealer = clubs.Dealer(**clubs.configs.LEDUC_TWO_PLAYER)
            self.dealer.reset()
            self.dealer.render(port=free_port())
            self.viewer = self.dealer.viewer
        else:
            self.viewer = GraphicViewer(2, 1, 1, port=free_port())

    def render(self, num):
        if self.dealer:
            self.dealer.render()
        else:
            self.viewer.render(state(num))


def main():
    shows = []
    for kind in SPEC["viewers"]:
        shows.append(Show(kind))
    say({"ports": [[show.viewer.host, show.viewer.port] for show in shows]})
    sys.stdin.readline()
    for num, (act, idx) in enumerate(SPEC["acts"]):
        show = shows[idx % len(shows)]
        if act == "render" and idx % len(shows) not in SPEC["closed"]:
            show.render(num)
        elif act == "wait":
            time.sleep(0.02)
    say({"acted": True})
    for times in range(SPEC["times"]):
        for idx in SPEC["closed"]:
            shows[idx].viewer.close()
    say({"closed": True})
    sys.stdin.readline()
    end = SPEC["end"]
    if end == "kept":
        KEEP.extend(shows)
    elif end == "error":
        KEEP.extend(shows)
        raise RuntimeError("an error of the program")
    elif end == "exit":
        KEEP.extend(shows)
        sys.exit(3)
    elif end == "kill":
        os.kill(os.getpid(), signal.SIGKILL)
    elif end == "term":
        os.kill(os.getpid(), signal.SIGTERM)
    elif end == "interrupt":
        KEEP.extend(shows)
        os.kill(os.getpid(), signal.SIGINT)
        time.sleep(5)


main()
