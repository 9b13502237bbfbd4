"""Helpers for the drivers, which run the real code (imported from /repo)."""
import contextlib
import io
import json
import os
import resource
import signal
import sys

CFG = json.loads(sys.argv[1]) if len(sys.argv) > 1 else {}
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
try:
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
except (ValueError, OSError):
    pass


hangs = 0


class CallTimeout(BaseException):
    pass


def _alarm(*_):
    raise CallTimeout()


signal.signal(signal.SIGALRM, _alarm)


def call(f, *a, seconds=30, **k):
    """Run one public call of the code under test: ('ok', value) or ('err', exception name).
    'hang' if it does not come back; after three of those the driver waits less and takes no
    further cases, so that what it recorded can still be judged in time."""
    global hangs
    signal.setitimer(signal.ITIMER_REAL, seconds if hangs < 3 else 2)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return "ok", f(*a, **k)
    except CallTimeout:
        hangs += 1
        return "hang", "CallTimeout"
    except Exception as e:  # noqa
        return "err", type(e).__name__
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


class TraceWriter:
    def __init__(self, path):
        self.f = open(path, "w")
        self.raw = open(path + ".cases", "w")

    def case(self, c):
        """To be called once per session: what would be needed to run it again."""
        self.raw.write(json.dumps(c, default=str) + "\n")

    def emit(self, e, **k):
        d = {"e": e}
        d.update(k)
        self.f.write(json.dumps(d) + "\n")

    def close(self):
        self.f.close()
        self.raw.close()


def cases():
    with open(CFG["cases"]) as f:
        for line in f:
            if hangs >= 3:
                return
            yield json.loads(line)
