import http.client
import json
import os
import random
import socket
import subprocess
import time

from .. import boot, browser, core, drawing, live
from . import c25

ID = "C28"
RULE = (
    "a case is a program which holds ports in different ways and opens up to 4 viewers and "
    "tables at ports which are free, held, used by another viewer or next to such, or at no "
    "given port, renders and closes some; the sweep takes each way alone and lets most "
    "ports of the machine be taken; non-trivial if a port is given that is not free"
)
EXAMPLES = {"quick": 24, "thorough": 400}
SLOTS = 6  # ports next to each other
HOSTS = ["127.0.0.1", "127.0.0.2", "127.0.0.1"]  # the last is not given
LIMIT = 60  # seconds for anything
REFUSAL = 25  # seconds for refusing a port


def strategy(tier):
    from hypothesis import strategies as st

    slot = st.integers(0, SLOTS - 2)
    hold = st.tuples(
        st.just("hold"), st.sampled_from(["listen", "http", "bound"]),
        st.sampled_from([0, 0, 1, None]), slot,
    ).map(list)
    opened = st.tuples(
        st.just("open"), st.one_of(slot, slot, slot, st.none()), st.integers(2, 6),
        st.booleans(), st.sampled_from([0, 0, 1, None]),
    ).map(list)
    other = st.one_of(
        st.tuples(st.just("render"), st.integers(0, 3)).map(list),
        st.tuples(st.just("close"), st.integers(0, 3)).map(list),
        st.tuples(st.just("reopen"), st.integers(0, 3), st.integers(2, 6)).map(list),
    )
    return st.fixed_dictionaries({
        "ops": st.lists(st.one_of(hold, opened, opened, other), min_size=2, max_size=7),
        "seed": st.integers(0, 2 ** 16),
    })


def sweep(tier):
    for num, kind in enumerate(["listen", "http", "bound"]):
        for off in (0, 1):
            yield {"ops": [["hold", kind, 0 if off else None, 1 + off],
                           ["open", 1, 3, bool(num % 2), 0]], "seed": num}
    for slot in (2, 1, 3):
        yield {"ops": [["open", 2, 2, False, 0], ["render", 0],
                       ["open", slot, 4, slot == 1, None], ["render", 0], ["close", 0],
                       ["open", 2, 5, False, 0]], "seed": 10 + slot}
    yield {"ops": [["open", 2, 2, False, 0], ["open", 2, 3, False, 1], ["open", 3, 4, True, 1],
                   ["reopen", 0, 5], ["reopen", 1, 6]], "seed": 20}
    yield {"ops": [["beyond", 65535], ["beyond", 70000], ["open", None, 2, True, None]],
           "seed": 1}
    for num in range(1 if tier == "quick" else 4):
        yield {"ops": [["crowd", 0.85, num]]
               + [["open", None, 2 + k, k == 1, k if k else None] for k in range(3)],
               "seed": num}


def free_ports(rng):
    """First of some ports next to each other which nobody uses"""
    while True:
        base = 11000 + SLOTS * rng.randrange(3000)
        try:
            for port in range(base, base + SLOTS):
                with socket.socket(socket.AF_INET, socket.SOCK_STREAM) as sock:
                    sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                    sock.bind(("0.0.0.0", port))
            return base
        except OSError:
            pass


class Program(c25.Program):
    def __init__(self):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        env.pop("PYTHONPATH", None)
        self.proc = subprocess.Popen(
            [live.PYTHON, os.path.join(boot.VERIF, "vf", "ports_program.py"), boot.REPO],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
            start_new_session=True, cwd="/", env=env,
        )
        self.data = b""

    def ask(self, *command):
        self.proc.stdin.write(json.dumps(command).encode() + b"\n")
        self.proc.stdin.flush()
        out = self.hear()
        core.ensure(out is not None, "%s does not return", list(command))
        return out


def page(host, port):
    conn = http.client.HTTPConnection(host, port, timeout=LIMIT)
    try:
        conn.request("GET", "/")
        answer = conn.getresponse()
        return answer.status, answer.read().decode("utf-8", "replace")
    finally:
        conn.close()


def check(case, rec):
    """Ports and processors are shared with whatever else runs: two out of three"""
    failed = 0
    for attempt in range(3):
        program = Program()
        try:
            core.ensure(program.hear() is not None, "the program does not start")
            Story(case, program, rec if not attempt else core.Recorder()).run()
        except core.Violation:
            failed += 1
            if failed == 2:
                raise
            rec.event("programs repeated")
        else:
            if not failed or attempt == 2:
                return
        finally:
            program.end()


class Story:
    def __init__(self, case, program, rec):
        self.case, self.program, self.rec = case, program, rec
        self.base = free_ports(random.Random(os.getpid() * 1000003 + time.time_ns()))
        self.shows = {}  # number: host, port, players, pot
        self.held = set()
        self.num = 0
        self.log = []

    def run(self):
        for oper in self.case["ops"]:
            self.log.append(oper)
            getattr(self, "do_" + oper[0])(*oper[1:])
        for idx in list(self.shows):
            self.works(idx)
        self.servers()

    def what(self):
        return "viewers after %s" % self.log

    def do_hold(self, kind, host, slot):
        port = self.base + slot
        hosts = HOSTS[:2] if host is None else [HOSTS[host]]
        if any((name, port - off) in self.held or self.used(name, port - off)
               for name in hosts for off in (0, 1)):
            return
        if any((name, port) in self.held for name in hosts):
            return
        self.program.ask("hold", kind, "0.0.0.0" if host is None else hosts[0], port)
        self.held.update((name, port) for name in hosts)

    def used(self, host, port):
        return any(show[:2] == [host, port] for show in self.shows.values())

    def do_crowd(self, share, seed):
        num = self.program.ask("crowd", share, seed)["held"]
        self.rec.mark(num)
        self.rec.event("ports taken", num)

    def do_open(self, slot, players, table, host):
        port = None if slot is None else self.base + slot
        if slot is not None and host is None:
            host = 2
        name = None if host in (None, 2) else HOSTS[host]
        got = self.program.ask("open", self.num, name, port, players, table)
        self.opened(got, HOSTS[host or 0], port, players, table)

    def do_reopen(self, idx, players):
        if idx in self.shows:
            host, port, _, _, table = self.shows.pop(idx)
            got = self.program.ask("reopen", self.num, host, port, players, not table, idx)
            self.opened(got, host, port, players, not table)

    def opened(self, got, host, port, players, table):
        idx = self.num
        self.num += 1
        where = "port %s of %s (ports are from %d on)" % (port, host, self.base)
        core.ensure("failed" not in got, "%s: opening a viewer at %s: %s", self.what(), where,
                    got.get("failed"))
        taken = port is not None and ((host, port) in self.held or self.used(host, port))
        # the port after it is needed for sending states, at present
        beside = port is not None and (
            (host, port + 1) in self.held
            or self.used(host, port + 1) or self.used(host, port - 1)
        )
        if taken or beside:
            self.rec.mark()
            self.rec.event("ports that are not free")
        if "refused" in got:
            core.ensure(taken or beside, "%s: a viewer at %s is refused: %s", self.what(),
                        where, got["refused"])
            core.ensure(got["took"] < REFUSAL, "%s: refusing %s took %d s", self.what(),
                        where, got["took"])
            self.rec.event("ports refused")
            self.servers()
        else:
            core.ensure(not taken, "%s: a viewer at %s, which is in use, is not refused",
                        self.what(), where)
            if port is not None:
                core.same([got["host"], got["port"]], [host, port], "%s: place of the viewer",
                          self.what())
            self.shows[idx] = [got["host"], got["port"], players, 0, table]
            self.do_render(idx)
            self.rec.event("viewers opened")
        for idx in list(self.shows):
            self.works(idx)

    def do_beyond(self, port):
        got = self.program.ask("open", self.num, None, port, 2, False)
        self.num += 1
        if "port" in got:  # the last port may do
            core.same(got["port"], port, "%s: port of the viewer", self.what())
            core.ensure(port < 65536, "%s: a viewer at port %d", self.what(), port)
            self.shows[self.num - 1] = [got["host"], got["port"], 2, 0, False]
            self.do_render(self.num - 1)
            self.works(self.num - 1)
            return
        core.ensure("refused" in got, "%s: opening a viewer at port %d: %s", self.what(), port,
                    got.get("failed"))
        self.servers()

    def do_render(self, idx):
        if idx in self.shows:
            self.shows[idx][3] += 1 + 100 * (idx + 1)
            self.program.ask("render", idx, self.shows[idx][3])

    def do_close(self, idx):
        if idx in self.shows:
            host, port = self.shows.pop(idx)[:2]
            self.program.ask("close", idx)
            core.ensure(c25.soon(lambda: not c25.listening(host, port)),
                        "%s: the server is there after its viewer was closed", self.what())

    def works(self, idx):
        """The page is that of its own table, with the last state rendered"""
        host, port, players, pot, _ = self.shows[idx]
        what = "%s: viewer %d at port %d" % (self.what(), idx, port)
        try:
            status, text = page(host, port)
        except (OSError, http.client.HTTPException) as exc:
            raise core.Violation("%s: no page: %s" % (what, exc)) from None
        core.same(status, 200, "%s: status of the page", what)
        svg = text[text.find("<svg"):text.rfind("</svg>") + 6]
        core.ensure("<svg" in text, "%s: another page: %s", what, text[:200])
        root = drawing.et.fromstring(svg)
        seats = len(drawing.by_class(root, "player"))
        core.same(seats, players, "%s: seats on its page", what)

        def latest(message):
            data = json.loads(message)
            return isinstance(data[1], dict) and data[1].get("pot") == pot

        end = time.time() + browser.WAIT
        while True:  # the state may still be on its way to the server
            client = browser.Browser(host, port)
            try:
                client.connect()
                if not client.messages:
                    client.poll(2)
            except (OSError, RuntimeError, http.client.HTTPException) as exc:
                if time.time() > end:
                    raise core.Violation("%s: no states: %s" % (what, exc)) from None
            if any(latest(message) for message in client.messages):
                return
            core.ensure(
                time.time() < end, "%s: the state with pot %d never reaches the page, which "
                "got %s", what, pot, client.messages[-1:],
            )
            time.sleep(0.05)

    def servers(self):
        seen = []

        def settled():
            seen[:] = [self.program.ask("servers")["servers"]]
            return seen[0] == len(self.shows)

        core.ensure(c25.soon(settled), "%s: %s server processes for %d open viewers",
                    self.what(), seen, len(self.shows))
