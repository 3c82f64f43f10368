"""Client side of vf/live_session.py: one process of the project's interpreter."""
import atexit
import json
import os
import select
import signal
import subprocess
import time

from . import boot, core

PYTHON = os.environ.get("VERIF_PYTHON", "/opt/pypyvenv/bin/python")
LIMIT = 240  # seconds for one session
_PROC = []


def stop():
    for proc in _PROC:
        try:
            os.killpg(proc.pid, signal.SIGKILL)
        except OSError:
            pass
        proc.wait()
    del _PROC[:]


atexit.register(stop)


def process():
    if _PROC and _PROC[0].poll() is not None:
        stop()
    if not _PROC:
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        env.pop("PYTHONPATH", None)
        _PROC.append(
            subprocess.Popen(
                [PYTHON, os.path.join(boot.VERIF, "vf", "live_session.py"), boot.REPO],
                stdin=subprocess.PIPE,
                stdout=subprocess.PIPE,
                stderr=subprocess.DEVNULL,
                start_new_session=True,
                cwd="/",
                env=env,
            )
        )
    return _PROC[0]


def run(spec):
    """The report of a session; None if the process died or hangs."""
    proc = process()
    proc.stdin.write(json.dumps(spec).encode() + b"\n")
    proc.stdin.flush()
    data, end = b"", time.time() + LIMIT
    while not data.endswith(b"\n"):
        left = end - time.time()
        ready = left > 0 and select.select([proc.stdout], [], [], left)[0]
        chunk = os.read(proc.stdout.fileno(), 1 << 16) if ready else b""
        if not chunk:
            stop()
            return None
        data += chunk
    return json.loads(data)


def page(size):
    """The page which a viewer of that size serves"""
    for _ in range(2):
        report = run(
            {"config": None, "make": "viewer", "size": list(size), "port": "fixed",
             "ops": [], "page": True, "stacks": None, "seed": 0}
        )
        if report is not None and "error" not in report:
            break
        stop()
    else:
        raise core.Violation("no page for a table of %r: %s" % (size, report))
    return report["page"]


def svg_of(text):
    start, end = text.find("<svg"), text.rfind("</svg>")
    if start < 0 or end < 0:
        raise core.Violation("the page holds no drawing")
    return text[start:end + len("</svg>")]


def page_drawing(*size):
    return svg_of(page(size))
