"""Bridge to a real V8 (Node.js), used as an independent oracle."""

from __future__ import annotations

import atexit
import json
import os
import resource
import select
import subprocess
import time

from .core import HarnessError

_HERE = os.path.dirname(os.path.abspath(__file__))


def _no_memory_limit() -> None:
    # V8 reserves far more address space than it uses
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (hard, hard))


class NodeEnded(HarnessError):
    pass


class Bridge:
    def __init__(self) -> None:
        self.proc: subprocess.Popen[bytes] | None = None
        self.pid = -1
        self.info: dict = {}
        self.calls = 0

    def _start(self) -> None:
        self.proc = subprocess.Popen(
            ["node", os.path.join(_HERE, "v8server.js")],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL,
            preexec_fn=_no_memory_limit,
            env={"PATH": os.environ.get("PATH", ""), "TZ": "UTC", "HOME": "/tmp"},
        )
        self.pid = os.getpid()
        atexit.register(self.close)
        self.info = self._call({"op": "hello"})

    def close(self) -> None:
        if self.proc is not None and self.pid == os.getpid():
            p, self.proc = self.proc, None
            try:
                assert p.stdin
                p.stdin.close()
                p.wait(5)
            except Exception:
                p.kill()

    def restart(self) -> None:
        if self.proc is not None and self.pid == os.getpid():
            self.proc.kill()
            self.proc.wait()
        self.proc = None

    def _readline(self, timeout: float) -> bytes:
        assert self.proc and self.proc.stdout
        fd = self.proc.stdout.fileno()
        buf = self._buf if hasattr(self, "_buf") else b""
        end = time.monotonic() + timeout
        while b"\n" not in buf:
            left = end - time.monotonic()
            if left <= 0:
                raise HarnessError("node bridge did not answer in time")
            r, _, _ = select.select([fd], [], [], left)
            if not r:
                continue
            chunk = os.read(fd, 1 << 16)
            if not chunk:
                raise NodeEnded("node bridge ended unexpectedly")
            buf += chunk
        line, _, rest = buf.partition(b"\n")
        self._buf = rest
        return line

    def _call(self, req: dict) -> dict:
        assert self.proc and self.proc.stdin
        data = json.dumps(req, separators=(",", ":")).encode("ascii") + b"\n"
        try:
            self.proc.stdin.write(data)
            self.proc.stdin.flush()
        except OSError as e:
            raise NodeEnded(f"node bridge is gone: {e}") from e
        reply = json.loads(self._readline(120))
        if "bridge_error" in reply:
            raise HarnessError("node bridge: " + reply["bridge_error"])
        return reply

    def call(self, op: str, **kw) -> dict:
        if self.proc is None or self.pid != os.getpid():
            self.proc = None
            self._buf = b""
            self._start()
        self.calls += 1
        return self._call({"op": op, **kw})


bridge = Bridge()


def v8_deserialize(data: bytes) -> dict:
    """{'graph': ...} or {'error': message}.

    V8 ending while it reads the data counts as V8 not accepting it, if it does
    so repeatedly in a new process.
    """
    for _ in range(3):
        try:
            return bridge.call("de", data=bytes(data).hex())
        except NodeEnded:
            bridge.restart()
    return {"error": "V8 crashed"}


def v8_serialize(graph: dict, mode: str = "plain") -> dict:
    """{'data': hex, 'graph': description of the value V8 serialized}."""
    return bridge.call("ser", graph=graph, mode=mode)
