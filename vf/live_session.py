"""Runs render sessions against real viewers, in the project's own interpreter.

Reads one session per line from stdin (JSON, see props/c20.py) and writes one
report per line.  Judges nothing: the report says what was rendered, what every
browser received and what was left after closing.
"""
import copy
import json
import multiprocessing
import os
import random
import socket
import sys
import time
import traceback
import urllib.error
import urllib.request

REPO = sys.argv[1]
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
OUT = os.fdopen(os.dup(1), "w", encoding="utf-8")
os.dup2(2, 1)
sys.stdout = sys.stderr

import clubs  # noqa: E402
from clubs.render import graphic  # noqa: E402

from browser import Browser, Late, WAIT  # noqa: E402


def plain(value):
    if isinstance(value, clubs.Card):
        return str(value)
    if isinstance(value, dict):
        return {key: plain(val) for key, val in value.items()}
    if isinstance(value, (list, tuple)):
        return [plain(val) for val in value]
    return value


def exact(value):
    """A copy in which cards, strings, lists and tuples stay different"""
    if isinstance(value, dict):
        return {key: exact(val) for key, val in value.items()}
    if isinstance(value, (list, tuple)):
        return [type(value).__name__] + [exact(val) for val in value]
    return [type(value).__name__, str(value)]


RENDERS = []
OTHERS = {}  # what further viewers render
_render = graphic.GraphicViewer.render


def spy(self, config, *args, **kwargs):
    before = exact(config)
    entry = {"config": plain(config), "changed": None}
    OTHERS.get(id(self), RENDERS).append(entry)
    try:
        return _render(self, config, *args, **kwargs)
    finally:
        after = exact(config)
        if after != before:
            entry["changed"] = [before, after]


graphic.GraphicViewer.render = spy


def free_port(start):
    """An even port below the ephemeral ones which is free with its successor"""
    port = start
    while True:
        try:
            for num in (port, port + 1):
                sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
                sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                try:
                    sock.bind(("0.0.0.0", num))
                finally:
                    sock.close()
            return port
        except OSError:
            port = 12000 + (port - 12000 + 2) % 18000


PORT = 12000 + 2 * ((os.getpid() * 37) % 9000)


def next_port():
    global PORT
    PORT = free_port(12000 + (PORT - 12000 + 2) % 18000)
    return PORT


def refused(host, port):
    sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
    sock.settimeout(2)
    try:
        sock.connect((host, port))
        return False
    except ConnectionRefusedError:
        return True
    except OSError:
        return False
    finally:
        sock.close()


def card(text):
    return clubs.Card(text[0] + "SHDC"["\u2660\u2665\u2666\u2663".index(text[1])])


def state_of(raw):
    state = copy.deepcopy(raw)
    state["hole_cards"] = [[card(t) for t in cards] for cards in raw["hole_cards"]]
    state["community_cards"] = [card(t) for t in raw["community_cards"]]
    if raw["prev_action"] is not None:
        state["prev_action"] = tuple(raw["prev_action"])
    return state


class Session:
    def __init__(self, spec):
        self.spec = spec
        self.host = spec.get("host") or "127.0.0.1"
        self.dealer = None
        self.viewer = None
        self.obs = None
        self.browsers = []
        self.report = {"states": [], "browsers": [], "late": None, "obs": []}

    def open(self, make):
        """Viewers choose any port: another process may sit on the one after it."""
        for attempt in range(4):
            try:
                kwargs = {"host": self.spec["host"]} if self.spec.get("host") else {}
                if self.spec["port"] == "fixed" or attempt:
                    kwargs["port"] = next_port()
                return make(kwargs)
            except clubs.error.RenderInitializationError:
                del RENDERS[:]
                kill_children()
                if attempt == 3:
                    raise

    def start(self):
        cfg = self.spec["config"]
        if self.spec["make"] == "viewer":
            self.viewer = self.open(
                lambda kwargs: clubs.render.GraphicViewer(*self.spec["size"], **kwargs)
            )
        if cfg is not None:
            self.dealer = clubs.Dealer(**copy.deepcopy(cfg))
            for idx, chips in enumerate(self.spec["stacks"] or []):
                self.dealer.stacks[idx] = chips
            random.seed(self.spec["seed"])
            self.reset(False, False)
            if self.spec["make"] == "viewer":
                self.dealer.viewer = self.viewer
            else:
                self.open(lambda kwargs: self.dealer.render("human", **kwargs))
                self.note()
                self.viewer = self.dealer.viewer

    def reset(self, button, stacks):
        try:
            self.obs = self.dealer.reset(reset_button=button, reset_stacks=stacks)
        except clubs.error.TooFewActivePlayersError:
            self.obs = self.dealer.reset(reset_button=button, reset_stacks=True)

    def step(self, kind, par):
        obs = self.obs
        if obs["action"] == -1:
            return self.reset(False, False)
        bet = {
            "call": obs["call"],
            "fold": -1,
            "min": obs["min_raise"] or obs["call"],
            "max": obs["max_raise"] or obs["call"],
            "allin": obs["stacks"][obs["action"]],
            "any": par,
        }[kind]
        self.obs = self.dealer.step(bet)[0]

    def note(self):
        """What the table showed when it was rendered"""
        keys = "action active button community_cards pot stacks street_commits".split()
        self.report["obs"].append(
            [len(RENDERS) - 1, plain({key: self.obs[key] for key in keys})]
        )

    def connect(self):
        browser = Browser(self.host, self.viewer.port)
        at = len(RENDERS)
        browser.connect()
        entry = {"at": at, "known": self.known, "messages": browser.messages}
        self.report["browsers"].append(entry)
        self.browsers.append(browser)

    held = None  # the state rendered last, if the caller made it

    def raw(self, state):
        self.held = state_of(state)
        self.viewer.render(self.held)

    def near(self, key, seat, other, same):
        """The state rendered last with one entry of another one, either the
        very objects which were rendered or copies"""
        if not (same and self.held):
            self.held = state_of(RENDERS[-1]["config"])
        new = state_of(other)[key]
        old = self.held[key]
        if isinstance(old, list) and isinstance(new, list) and seat < len(old) == len(new):
            old[seat] = new[seat]
        else:
            self.held[key] = new
        self.viewer.render(self.held)

    known = 0  # number of states which the server certainly knows

    def mark(self, viewer=None, size=None, num=None):
        """A state which no other one equals"""
        players, holes, comms = size or self.spec["size"]
        num = len(RENDERS) if num is None else num
        (viewer or self.viewer).render(
            {
                "action": num % players,
                "active": [True] * players,
                "all_in": [False] * players,
                "community_cards": [card("A\u2660")] * comms,
                "button": 0,
                "done": False,
                "hole_cards": [[card("T\u2665")] * holes for _ in range(players)],
                "pot": 10 ** 9 + num,
                "payouts": [0] * players,
                "prev_action": None,
                "street_commits": [1] * players,
                "stacks": list(range(players)),
            }
        )

    def settle(self):
        """Waits until every browser has received a state rendered just now"""
        if not self.browsers:
            return
        self.held = None
        self.mark()
        hit = shows(RENDERS[-1])
        for idx, browser in enumerate(self.browsers):
            try:
                browser.wait_for(hit)
            except Late:
                self.report["late"] = idx
                raise
        self.known = len(RENDERS)

    twin = None

    def open_twin(self):
        """A second viewer of another size, which is open at the same time"""
        players, holes, comms = self.spec["size"]
        size = [players + 1, holes, comms + 1]
        kwargs = {"host": self.spec["host"]} if self.spec.get("host") else {}
        viewer = clubs.render.GraphicViewer(*size, port=next_port(), **kwargs)
        OTHERS[id(viewer)] = []
        self.twin = (viewer, size, OTHERS[id(viewer)])
        self.report["twin"] = {"states": self.twin[2], "browsers": [], "late": None}
        self.mark_twin()
        browser = Browser(self.host, viewer.port)
        browser.connect()
        self.report["twin"]["browsers"].append(
            {"at": 1, "known": 0, "messages": browser.messages}
        )
        self.twin_browser = browser

    def mark_twin(self):
        if self.twin is not None:
            viewer, size, states = self.twin
            self.mark(viewer, size, 10 ** 9 + len(states))

    def close_twin(self):
        """The other table goes on without it"""
        if self.twin is None:
            return
        self.mark_twin()
        viewer, _, states = self.twin
        try:
            self.twin_browser.wait_for(shows(states[-1]))
        except Late:
            self.report["twin"]["late"] = 0
        viewer.close()
        self.twin = None
        self.report["twin"]["open"] = self.still_open((viewer.port, viewer.port + 1))

    def still_open(self, ports):
        end = time.time() + WAIT
        while time.time() < end and not all(refused(self.host, num) for num in ports):
            time.sleep(0.01)
        return [num for num in ports if not refused(self.host, num)]

    def run(self):
        try:
            self.start()
            if self.spec.get("twin"):
                self.open_twin()
            for oper in self.spec["ops"]:
                self.mark_twin()
                name, args = oper[0], oper[1:]
                if name == "connect":
                    self.connect()
                elif name == "settle":
                    self.settle()
                elif name == "raw":
                    self.raw(*args)
                elif name == "near":
                    if RENDERS:
                        self.near(*args)
                    else:
                        self.raw(args[2])
                elif name == "reset":
                    self.reset(*args)
                elif name == "step":
                    self.step(*args)
                elif name == "render":
                    self.held = None
                    if args[0]:
                        self.dealer.render("human", args[0])
                    else:
                        self.dealer.render("human")
                    self.note()
            self.close_twin()
            if not self.browsers:
                self.connect()
            self.settle()
            if self.spec["page"]:
                base = "http://%s:%d/" % (self.host, self.viewer.port)
                self.report["page"] = fetch(base)
                self.report["script"] = fetch(base + "static/parse_config.js")
        except Late:
            pass
        finally:
            self.report["states"] = list(RENDERS)
            if self.twin is not None:
                self.twin[0].close()
            if self.viewer is not None:
                # every process which the viewer has started must be gone
                port = self.viewer.port
                self.viewer.close()
                end = time.time() + WAIT
                while multiprocessing.active_children() and time.time() < end:
                    time.sleep(0.01)
                left = multiprocessing.active_children()
                self.report["alive"] = bool(left)
                self.report["open"] = self.still_open((port, port + 1))


def shows(entry):
    """Whether a message holds that state"""
    want = json.dumps(entry["config"], sort_keys=True)

    def hit(message):
        try:
            return json.dumps(json.loads(message)[1], sort_keys=True) == want
        except (ValueError, IndexError):
            return False

    return hit


def kill_children():
    for process in multiprocessing.active_children():
        process.kill()
        process.join()


def fetch(url):
    with urllib.request.urlopen(url, timeout=WAIT) as response:
        return response.read().decode("utf-8")


def main():
    for line in sys.stdin:
        spec = json.loads(line)
        del RENDERS[:]
        OTHERS.clear()
        session = Session(spec)
        try:
            session.run()
        except Exception:
            session.report["error"] = traceback.format_exc()
        kill_children()
        OUT.write(json.dumps(session.report) + "\n")
        OUT.flush()
    os._exit(0)


main()
