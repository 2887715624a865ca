"""Runs functions in processes in which the library hasn't been used yet.

A server process imports the library and forks a child for each call.
"""

from __future__ import annotations

import atexit
import os
import pickle
import struct
import subprocess
import sys
from typing import Any, BinaryIO


def _read(f: BinaryIO) -> Any:
    head = f.read(4)
    if len(head) < 4:
        raise EOFError
    (n,) = struct.unpack("<I", head)
    return pickle.loads(f.read(n))


def _write(f: BinaryIO, x: object) -> None:
    data = pickle.dumps(x)
    f.write(struct.pack("<I", len(data)) + data)
    f.flush()


class Server:
    def __init__(self, module: str) -> None:
        self.pid = os.getpid()
        self.p = subprocess.Popen(
            [sys.executable, "-m", "vk.pristine", module], stdin=subprocess.PIPE, stdout=subprocess.PIPE
        )
        atexit.register(self.p.kill)

    def call(self, function: str, *args: Any) -> Any:
        """The result of the function of the module, or the exception's repr."""
        _write(self.p.stdin, (function, args))  # type: ignore[arg-type]
        ok, out = _read(self.p.stdout)  # type: ignore[arg-type]
        if not ok:
            raise RuntimeError(f"in the pristine process: {out}")
        return out


_servers: dict[str, Server] = {}


def call(module: str, function: str, *args: Any) -> Any:
    s = _servers.get(module)
    if s is None or s.pid != os.getpid():
        s = _servers[module] = Server(module)
    return s.call(function, *args)


def main() -> None:
    import importlib

    from vk.core import _prepare_imports

    _prepare_imports()
    import v8serialize  # noqa: F401
    import v8serialize.encode  # noqa: F401
    import v8serialize.decode  # noqa: F401

    module = importlib.import_module(sys.argv[1])
    inp, out = sys.stdin.buffer, sys.stdout.buffer
    while True:
        try:
            function, args = _read(inp)
        except EOFError:
            return
        pid = os.fork()
        if pid == 0:
            try:
                try:
                    r = (True, getattr(module, function)(*args))
                except BaseException as e:
                    r = (False, repr(e))
                _write(out, r)
            finally:
                os._exit(0)
        os.waitpid(pid, 0)


if __name__ == "__main__":
    main()
