import http.client
import json
import os
import select
import signal
import socket
import subprocess
import time

from .. import boot, core, live

ID = "C25"
RULE = (
    "a case is a program of its own with 1-3 tables or viewers shown in the browser, up "
    "to 6 renders, some viewers closed (once or twice) and one of seven ways to end "
    "(returning, with the viewers in global variables, an uncaught error, sys.exit, "
    "SIGINT, SIGTERM, SIGKILL), with up to 2 pages requested before; non-trivial if a "
    "viewer is open at the end"
)
EXAMPLES = {"quick": 24, "thorough": 400}
ENDS = ["return", "kept", "error", "exit", "interrupt", "term", "kill"]
LIMIT = 40  # seconds for what takes about one
CALM = 20  # seconds within which servers have to be gone


def strategy(tier):
    from hypothesis import strategies as st

    @st.composite
    def cases(draw):
        viewers = draw(
            st.lists(st.sampled_from(["table", "viewer"]), min_size=1,
                     max_size=draw(st.sampled_from([1, 2, 1, 3])))
        )
        return {
            "viewers": viewers,
            "acts": draw(st.lists(
                st.tuples(st.sampled_from(["render", "render", "wait"]),
                          st.integers(0, len(viewers) - 1)).map(list),
                max_size=6,
            )),
            "closed": draw(st.lists(st.integers(0, len(viewers) - 1), unique=True,
                                    max_size=len(viewers))),
            "times": draw(st.integers(1, 2)), "end": draw(st.sampled_from(ENDS)),
            "pages": draw(st.integers(0, 2)),
        }

    return cases()


def sweep(tier):
    for num, end in enumerate(ENDS):
        for viewers, closed in ((["table"], []), (["table", "viewer"], [num % 2])):
            yield {"viewers": viewers, "acts": [["render", 0], ["render", 1]],
                   "closed": closed, "times": 1 + num % 2, "end": end, "pages": num % 2}


def listening(host, port):
    try:
        with socket.create_connection((host, port), timeout=2):
            return True
    except OSError:
        return False


def serves(host, port):
    try:
        conn = http.client.HTTPConnection(host, port, timeout=10)
        conn.request("GET", "/")
        answer = conn.getresponse()
        text = answer.read()
        conn.close()
        return answer.status == 200 and b"<svg" in text
    except (OSError, http.client.HTTPException):
        return False


def members(group):
    """Processes of the session of the program, the program's included"""
    out = []
    for name in os.listdir("/proc"):
        if name.isdigit():
            try:
                with open("/proc/%s/stat" % name) as file:
                    parts = file.read().rsplit(")", 1)[1].split()
            except OSError:
                continue
            if int(parts[3]) == group and parts[0] not in "ZX":
                out.append(int(name))
    return out


class Program:
    def __init__(self, case, name="lifetime_program.py"):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        env.pop("PYTHONPATH", None)
        self.proc = subprocess.Popen(
            [live.PYTHON, os.path.join(boot.VERIF, "vf", name), boot.REPO,
             json.dumps(case)],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
            start_new_session=True, cwd="/", env=env,
        )
        self.data = b""

    def hear(self):
        """The next message; None if there is none"""
        end = time.time() + LIMIT
        while True:
            lines = self.data.split(b"\n")
            for num, line in enumerate(lines[:-1]):
                if line.startswith(b"@"):
                    self.data = b"\n".join(lines[num + 1:])
                    return json.loads(line[1:])
            left = end - time.time()
            if left <= 0 or not select.select([self.proc.stdout], [], [], left)[0]:
                return None
            chunk = os.read(self.proc.stdout.fileno(), 1 << 16)
            if not chunk:
                return None
            self.data += chunk

    def go_on(self):
        try:
            self.proc.stdin.write(b"\n")
            self.proc.stdin.flush()
        except OSError:  # it is gone, which shows elsewhere
            pass

    def end(self):
        for pid in members(self.proc.pid):
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        self.proc.wait()


def soon(test, limit=CALM):
    end = time.time() + limit
    while time.time() < end:
        if test():
            return True
        time.sleep(0.02)
    return test()


def check(case, rec):
    """Ports and processors are shared with whatever else runs: two out of three"""
    failed = 0
    for attempt in range(3):
        try:
            judge(case, rec if not attempt else core.Recorder())
        except core.Violation:
            failed += 1
            if failed == 2:
                raise
            rec.event("programs repeated")
        else:
            if not failed or attempt == 2:
                return


def judge(case, rec):
    program = Program(case)
    try:
        follow(case, program, rec)
    finally:
        program.end()


def follow(case, program, rec):
    what = "program with %s, closed %s, end: %s" % (
        case["viewers"], case["closed"], case["end"],
    )
    first = program.hear()
    core.ensure(first is not None, "%s: the viewers cannot be opened", what)
    ports = first["ports"]
    for _ in range(case["pages"]):
        for host, port in ports:
            core.ensure(serves(host, port), "%s: no page at port %d", what, port)
    program.go_on()
    core.ensure(program.hear() is not None, "%s: rendering fails", what)
    core.ensure(program.hear() is not None, "%s: closing the viewers fails", what)
    for idx, (host, port) in enumerate(ports):
        if idx in case["closed"]:
            core.ensure(soon(lambda: not listening(host, port)),
                        "%s: the server of viewer %d is there after it was closed", what, idx)
            rec.event("viewers closed")
        else:
            core.ensure(serves(host, port),
                        "%s: the page of viewer %d is gone before the end", what, idx)
            rec.event("viewers open at the end")
    program.go_on()
    try:
        code = program.proc.wait(LIMIT)
    except subprocess.TimeoutExpired:
        raise core.Violation("%s: the program does not end" % what) from None
    want = {"return": 0, "kept": 0, "error": 1, "exit": 3, "kill": -signal.SIGKILL,
            "term": -signal.SIGTERM}
    if case["end"] in want:
        core.same(code, want[case["end"]], "%s: exit status", what)
    core.ensure(soon(lambda: not members(program.proc.pid)),
                "%s: server processes are left after the program ended", what)
    for host, port in ports:
        core.ensure(soon(lambda: not listening(host, port)), "%s: port %d is open after the program ended",
                    what, port)
    rec.event("end: " + case["end"])
    rec.mark(len(set(case["closed"])) < len(case["viewers"]))
