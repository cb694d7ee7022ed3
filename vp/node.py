"""JavaScript side: bundles the frontend sources of /repo and talks to node."""
from . import env
import atexit
import json
import os
import select
import subprocess
import tempfile

JS = os.path.join(env.VERIF, "js")
_SCRATCH = None
_PROCS = {}


def scratch():
    global _SCRATCH
    if _SCRATCH is None:
        _SCRATCH = os.environ.get("VERIF_SCRATCH")
        if not _SCRATCH:
            t = tempfile.TemporaryDirectory(prefix="verif-js.")
            atexit.register(t.cleanup)
            _SCRATCH = t.name
    return _SCRATCH


def bundle(name):
    """Bundle js/<name>_entry.js against the working tree; returns the path."""
    out = os.path.join(scratch(), "%s-%d.js" % (name, os.getpid()))
    r = subprocess.run(["node", os.path.join(JS, "build.mjs"), env.REPO, out, os.path.join(JS, name + "_entry.js")],
                       capture_output=True, text=True)
    if r.returncode:
        from .core import BrokenCode
        raise BrokenCode("cannot bundle the frontend sources: " + r.stderr[-2000:])
    return out


class JsError(Exception):
    """The JavaScript code threw."""


class Node:
    def __init__(self, path, ops):
        self.args = ["node", os.path.join(JS, "driver.js"), path, os.path.join(JS, ops)]
        self.start()

    def start(self):
        self.p = subprocess.Popen(self.args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        self.buf = b""

    def call(self, op, timeout=30, **args):
        if self.p.poll() is not None:
            self.start()
        self.p.stdin.write((json.dumps(dict(op=op, args=args)) + "\n").encode())
        self.p.stdin.flush()
        while b"\n" not in self.buf:
            ready, _, _ = select.select([self.p.stdout], [], [], timeout)
            if not ready:
                self.p.kill()
                self.p.wait()
                raise JsError("no answer within %d s" % timeout)
            chunk = os.read(self.p.stdout.fileno(), 1 << 16)
            if not chunk:
                self.p.wait()
                raise JsError("node exited with %s" % self.p.returncode)
            self.buf += chunk
        line, self.buf = self.buf.split(b"\n", 1)
        out = json.loads(line)
        if "error" in out:
            raise JsError(out["error"])
        return out["value"]


def connect(path, ops):
    key = (os.getpid(), path, ops)
    if key not in _PROCS:
        _PROCS[key] = Node(path, ops)
    return _PROCS[key]
