"""Language-neutral value graphs, and the comparison of two of them.

A graph is {"root": value, "nodes": [node, ...]} where a value is one of
  ["u"] ["n"] ["t"] ["f"]     undefined, null, true, false
  ["d", hex]                  number, as the hex digits of its big-endian double
  ["i", digits]               BigInt
  ["s", text]                 string
  ["h"]                       array hole
  ["r", index]                reference to a node
  ["*"]                       (expectations only) anything
and nodes are the objects (see `describe`).  The functions here only know the
JavaScript data model; none of them use the library's own comparison.
"""

from __future__ import annotations

import struct
from datetime import datetime, timedelta, timezone
from typing import Any

NAN = "7ff8000000000000"
SAFE = 2**53 - 1
EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
MAX_WALK = 200_000


def d(x: float | int) -> list:
    x = float(x)
    return ["d", NAN if x != x else struct.pack(">d", x).hex()]


def undouble(h: str) -> float:
    return struct.unpack(">d", bytes.fromhex(h))[0]


def utf16(s: str) -> str:
    """The string with its surrogate pairs joined, as a sequence of UTF-16 units."""
    if s.isascii():
        return s
    return s.encode("utf-16-le", "surrogatepass").decode("utf-16-le", "surrogatepass")


def digits(x: int) -> str:
    # Python limits the length of decimal conversions
    return str(x) if x.bit_length() < 12000 else hex(x)


def num(x: int | float) -> list:
    if isinstance(x, float):
        return d(x)
    return d(x) if -SAFE <= x <= SAFE else ["i", digits(x)]


def datetime_ms(v: datetime) -> float:
    if v.tzinfo is None:
        v = v.astimezone()
    us = (v - EPOCH) // timedelta(microseconds=1)
    return us / 1000


class Unexpected(Exception):
    """The decoded value contains something no mapping produces."""


def describe(root: object, raw: bool = False) -> dict[str, Any]:
    """Describe a value made of the library's JavaScript types as a graph.

    With raw, Python's bytes and bytearrays are described too.
    """
    from v8serialize.jstypes import (
        JSArray,
        JSArrayBuffer,
        JSArrayBufferTransfer,
        JSDataView,
        JSError,
        JSErrorData,
        JSHole,
        JSMap,
        JSObject,
        JSPrimitiveObject,
        JSRegExp,
        JSSet,
        JSSharedArrayBuffer,
        JSTypedArray,
        JSUndefined,
    )
    from v8serialize.constants import SerializationTag

    nodes: list[list] = []
    ids: dict[int, int] = {}
    keep: list[object] = []
    todo: list[tuple[list, object]] = []

    def val(v: object) -> list:
        if v is None:
            return ["n"]
        if v is True:
            return ["t"]
        if v is False:
            return ["f"]
        if v is JSUndefined:
            return ["u"]
        if v is JSHole:
            return ["h"]
        t = type(v)
        if t is str:
            return ["s", utf16(v)]
        if t is float or t is int:
            return num(v)
        if raw and isinstance(v, (bytes, bytearray)):
            return ["raw", type(v).__name__, bytes(v).hex()]
        if id(v) in ids:
            return ["r", ids[id(v)]]
        n = ids[id(v)] = len(nodes)
        keep.append(v)
        node: list = []
        nodes.append(node)
        todo.append((node, v))
        return ["r", n]

    def key(k: object) -> str:
        if type(k) is int or type(k) is str:
            return utf16(str(k))
        raise Unexpected(f"property key of type {type(k).__name__}")

    def fill(node: list, v: Any) -> None:
        if isinstance(v, JSArray):
            els = [[i, val(x)] for i, x in v.array.elements().items()]
            node += ["arr", len(v.array), els, [[key(k), val(x)] for k, x in v.properties.items()]]
        elif isinstance(v, JSObject):
            node += ["obj", [[key(k), val(x)] for k, x in v.items()]]
        elif isinstance(v, (JSMap, dict)):
            node += ["map", [[val(k), val(x)] for k, x in v.items()]]
        elif isinstance(v, (JSSet, set)):
            node += ["set", [val(x) for x in v]]
        elif isinstance(v, list):
            node += ["arr", len(v), [[i, val(x)] for i, x in enumerate(v) if x is not JSHole], []]
        elif isinstance(v, datetime):
            node += ["date", d(datetime_ms(v))[1]]
        elif isinstance(v, JSRegExp):
            node += ["re", utf16(v.source), "".join(sorted(str(v.flags)))]
        elif isinstance(v, (JSError, JSErrorData)):
            c = v.cause
            node += [
                "err",
                str(getattr(v.name, "value", v.name)),
                None if v.message is None else utf16(v.message),
                None if v.stack is None else utf16(v.stack),
                None if c is None else val(c),
            ]
        elif isinstance(v, JSArrayBuffer):
            node += ["ab", bytes(v.data).hex(), v.max_byte_length if v.resizable else None]
        elif isinstance(v, JSSharedArrayBuffer):
            node += ["sab", v.buffer_id]
        elif isinstance(v, JSArrayBufferTransfer):
            node += ["abt", v.transfer_id]
        elif isinstance(v, (JSTypedArray, JSDataView)):
            size = v.data_format.byte_length
            b = v.backing_buffer
            name = v.view_tag.name[1:]
            if isinstance(b, (JSSharedArrayBuffer, JSArrayBufferTransfer)):
                off = v.item_offset * size
                ln = None if v.item_length is None else v.item_length * size
                tracking = v.item_length is None
            else:
                off, ln, tracking = v.byte_offset, v.byte_length, v.is_length_tracking
            node += ["view", name, val(b), off, ln, tracking]
        elif isinstance(v, JSPrimitiveObject):
            if v.tag is SerializationTag.kBigIntObject:
                node += ["prim", ["i", digits(v.value)]]
            else:
                node += ["prim", val(v.value)]
        else:
            raise Unexpected(f"value of type {type(v).__name__}")

    r = val(root)
    while todo:
        fill(*todo.pop())
    return {"root": r, "nodes": nodes}


def js_to_py(graph: dict[str, Any]) -> dict[str, Any]:
    """What a JavaScript graph is when read by Python with the default options.

    Wrapper objects are unwrapped, BigInts in the safe range are ints (which
    can't be told from numbers), and absent and None error fields are the same.
    """
    nodes = graph["nodes"]

    def val(v: list) -> list:
        if v[0] == "i" and -SAFE <= int(v[1], 0) <= SAFE:
            return d(int(v[1], 0))
        if v[0] == "s":
            return ["s", utf16(v[1])]
        if v[0] == "r" and nodes[v[1]][0] == "prim":
            return val(nodes[v[1]][1])
        return v

    def opt(s: str | None) -> str | None:
        return None if s is None else utf16(s)

    out = []
    for n in nodes:
        t = n[0]
        if t == "obj":
            n = [t, [[utf16(k), val(v)] for k, v in n[1]]]
        elif t == "arr":
            n = [t, n[1], [[i, val(v)] for i, v in n[2]], [[utf16(k), val(v)] for k, v in n[3]]]
        elif t == "map":
            n = [t, [[val(k), val(v)] for k, v in n[1]]]
        elif t == "set":
            n = [t, [val(v) for v in n[1]]]
        elif t == "err":
            name = "UriError" if n[1] == "URIError" else n[1]
            cause = None if n[4] is None or n[4] in (["n"],) else val(n[4])
            if cause == ["n"]:
                cause = None
            n = [t, name, opt(n[2]) or "", opt(n[3]), cause]
        elif t == "re":
            n = [t, utf16(n[1]), n[2]]
        elif t == "view":
            n = [t, n[1], val(n[2]), *n[3:]]
        out.append(n)
    return {"root": val(graph["root"]), "nodes": out}


def _zero(v: list) -> list:
    return ["d", "0000000000000000"] if v == ["d", "8000000000000000"] else v


class Mismatch(Exception):
    pass


def compare(exp: dict, act: dict, *, noid: set[int] | frozenset[int] = frozenset()) -> str | None:
    """None if `act` has the contents and identity structure of `exp`, else why not.

    `noid` are the nodes of `exp` whose identity isn't significant: objects that
    are equal and immutable may be merged.  Object identity of all others must
    correspond one to one.
    """
    e_nodes, a_nodes = exp["nodes"], act["nodes"]
    e2a: dict[int, int] = {}
    a2e: dict[int, int] = {}
    seen: set[tuple[int, int]] = set()
    todo: list[tuple[str, list, list]] = [("$", exp["root"], act["root"])]
    steps = 0

    def fail(path: str, what: str) -> None:
        raise Mismatch(f"at {path}: {what}")

    def same(path: str, what: str, e: Any, a: Any) -> None:
        if e != a:
            fail(path, f"{what} should be {_short(e)} but is {_short(a)}")

    def node(path: str, ei: int, ai: int) -> None:
        if ei not in noid:
            if e2a.setdefault(ei, ai) != ai:
                fail(path, "should be the same object as at an earlier position")
            if a2e.setdefault(ai, ei) != ei:
                fail(path, "should not be the same object as at an earlier position")
        if (ei, ai) in seen:
            return
        seen.add((ei, ai))
        e, a = e_nodes[ei], a_nodes[ai]
        t = e[0]
        same(path, "kind of object", t, a[0])
        if t == "obj":
            props(path, e[1], a[1])
        elif t == "arr":
            same(path, "array length", e[1], a[1])
            same(path, "array indexes", [i for i, _ in e[2]], [i for i, _ in a[2]])
            for (i, ev), (_, av) in zip(e[2], a[2]):
                todo.append((f"{path}[{i}]", ev, av))
            props(path, e[3], a[3])
        elif t == "map":
            same(path, "number of Map entries", len(e[1]), len(a[1]))
            for i, ((ek, ev), (ak, av)) in enumerate(zip(e[1], a[1])):
                todo.append((f"{path}<value {i}>", ev, av))
                todo.append((f"{path}<key {i}>", _zero(ek), _zero(ak)))
        elif t == "set":
            same(path, "number of Set members", len(e[1]), len(a[1]))
            for i, (ev, av) in enumerate(zip(e[1], a[1])):
                todo.append((f"{path}<member {i}>", _zero(ev), _zero(av)))
        elif t == "err":
            same(path, "error name", e[1], a[1])
            if e[2] != "*":
                same(path, "error message", e[2], a[2])
            if e[3] != "*":
                same(path, "error stack", e[3], a[3])
            if (e[4] is None) != (a[4] is None):
                fail(path, f"error cause should be {_short(e[4])} but is {_short(a[4])}")
            if e[4] is not None:
                todo.append((f"{path}.cause", e[4], a[4]))
        elif t == "view":
            same(path, "view type", e[1], a[1])
            same(path, "view byte offset", e[3], a[3])
            if e[4] is not None:
                same(path, "view byte length", e[4], a[4])
            if e[5] is not None and a[5] is not None:
                same(path, "view length-tracking", e[5], a[5])
            todo.append((f"{path}.buffer", e[2], a[2]))
        elif t == "prim":
            todo.append((f"{path}.valueOf()", e[1], a[1]))
        else:
            same(path, t, e, a)

    def props(path: str, e: list, a: list) -> None:
        same(path, "property names", [k for k, _ in e], [k for k, _ in a])
        for (k, ev), (_, av) in zip(e, a):
            todo.append((f"{path}.{k}", ev, av))

    try:
        while todo:
            steps += 1
            if steps > MAX_WALK:
                raise Mismatch("graphs are too large to compare")
            path, e, a = todo.pop()
            if e[0] == "*":
                continue
            if e[0] == "r" and a[0] == "r":
                node(path, e[1], a[1])
            elif e[0] == "r" or a[0] == "r":
                er = e_nodes[e[1]] if e[0] == "r" else e
                ar = a_nodes[a[1]] if a[0] == "r" else a
                fail(path, f"should be {_short(er)} but is {_short(ar)}")
            elif e != a:
                fail(path, f"should be {_show(e)} but is {_show(a)}")
    except Mismatch as m:
        return str(m)
    return None


def _show(v: list) -> str:
    if v[0] == "d":
        return f"number {undouble(v[1])!r}"
    return _short({"u": "undefined", "n": "null", "t": "true", "f": "false", "h": "a hole"}.get(v[0], v))


def _short(x: Any) -> str:
    r = repr(x)
    return r if len(r) < 160 else r[:160] + "..."
