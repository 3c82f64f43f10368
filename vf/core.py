"""Vocabulary shared by the checks: violations, guarded calls, recording."""
import contextlib
import hashlib
import json
import signal
import traceback

from . import boot


class Violation(Exception):
    """The property does not hold on this case."""


class Hang(BaseException):
    """A single call used far more CPU time than any legitimate one can."""


CPU_LIMIT = 20.0  # CPU seconds; calls guarded by it take milliseconds


def _on_alarm(_sig, _frame):
    raise Hang()


def guard_init():
    signal.signal(signal.SIGVTALRM, _on_alarm)


@contextlib.contextmanager
def cpu_limit(seconds=CPU_LIMIT):
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def _where(exc):
    frames = traceback.extract_tb(exc.__traceback__)
    repo = [f for f in frames if f.filename.startswith(boot.REPO)]
    frame = (repo or frames)[-1]
    return "%s:%s" % (frame.filename.rsplit("/", 1)[-1], frame.name)


def guarded(what, fn, *args, **kwargs):
    """Calls the code under test where the property says that it works: an
    exception out of it, or no return at all, is a violation."""
    try:
        with cpu_limit():
            return fn(*args, **kwargs)
    except Violation:
        raise
    except Hang:
        raise Violation("%s does not return" % what) from None
    except Exception as exc:  # noqa: B902
        raise Violation(
            "%s raises %s: %s (%s)" % (what, type(exc).__name__, exc, _where(exc))
        ) from None


def refused(what, kinds, fn, *args, **kwargs):
    """The call has to be refused with one of the given exceptions."""
    try:
        with cpu_limit():
            fn(*args, **kwargs)
    except kinds:
        return
    except Hang:
        raise Violation("%s does not return" % what) from None
    except Exception as exc:
        raise Violation(
            "%s raises %s: %s instead of %s (%s)"
            % (what, type(exc).__name__, exc, kinds, _where(exc))
        ) from None
    raise Violation("%s is accepted" % what)


def ensure(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def same(got, want, what, *args):
    if got != want:
        raise Violation(
            "%s: got %r, expected %r" % (what % args if args else what, got, want)
        )


class Recorder:
    """What one case exercised."""

    def __init__(self):
        self.events = {}
        self.nontrivial = False
        self.note = None
        self.known = {}

    def event(self, name, num=1):
        self.events[name] = self.events.get(name, 0) + num

    def mark(self, cond=True):
        if cond:
            self.nontrivial = True

    def known_finding(self, key, text):
        self.known.setdefault(key, text)


def digest(case):
    text = json.dumps(case, sort_keys=True, separators=(",", ":"))
    return hashlib.blake2b(text.encode(), digest_size=8).hexdigest()
