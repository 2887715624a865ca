"""C05: deserializing any bytes gives a value or the documented error."""

from __future__ import annotations

import gc
import math
import random
import struct
import time
import tracemalloc
from typing import Any

from vk import bytesgen, st
from vk.bytesgen import apply_edits, edits, grammar, make, raw, valid, varint
from vk.core import Case, Stats, check
from vk.graph import Unexpected, describe

RULE = (
    "Byte strings: valid streams (by the library's and an independent writer) with 1-4 "
    "edits or spliced, streams from a grammar of the format with mostly right counts and "
    "interesting operands, raw bytes, deeply nested or large-length streams, and "
    "streams of 1,000 and 20,000 items whose cost is compared. "
    "Non-trivial: a distinct byte string of more than 4 bytes with a supported header."
)

PER_BYTE = 6000
BASE = 400_000


def note(data: bytes, s: Stats) -> None:
    s.nontrivial(len(data) > 4 and data[0] == 0xFF and 13 <= data[1] <= 15)


def decode(data: bytes, s: Stats) -> None:
    note(data, s)
    decode_only(data, s)


def decode_only(data: bytes, s: Stats) -> None:
    from v8serialize import DecodeV8SerializeError, loads

    given = bytes(bytearray(data))
    try:
        out = loads(data)
    except DecodeV8SerializeError as e:
        s.label("error")
        check(type(e.position) is int and 0 <= e.position <= len(data), f"error position is {e.position!r}")
        check(e.data is data or bytes(e.data) == given, "the error's data is not the input")
        check(isinstance(e.message, str) and e.message, "the error has no message")
        str(e)
        repr(e)
    except RecursionError:
        raise
    else:
        s.label("value")
        try:
            describe(out)
        except Unexpected as e:
            check("V8SharedObjectReference" in str(e), f"the value contains something that no JavaScript value has: {e}")
    check(data == given, "the input was modified")


def run_mutated(case: tuple, s: Stats) -> None:
    decode(apply_edits(make(case[0]), case[1]), s)


def run_spliced(case: tuple, s: Stats) -> None:
    a, b, i, k = case
    a, b = make(a), make(b)
    decode(a[: 2 + i % max(1, len(a) - 2)] + b[2 + k % max(1, len(b) - 2) :], s)


def run_bytes(data: bytes, s: Stats) -> None:
    decode(data, s)


def run_mutable_input(case: tuple, s: Stats) -> None:
    """The input is left as it was, whatever kind of buffer it's in."""
    from v8serialize import DecodeV8SerializeError, loads

    data = apply_edits(make(case[0]), case[1]) if case[2] else make(case[0])
    s.nontrivial(len(data) > 4)
    for kind in (bytearray, lambda d: memoryview(bytearray(d))):
        buf: Any = kind(data)
        try:
            loads(buf)
        except DecodeV8SerializeError:
            pass
        check(bytes(buf) == data, "the input was modified")


NEST = [b"A\x01", b"A\x02_", b"o\"\x01a", b"a\x05I\x00", b";0", b";", b"'", b"'_", b"rc", b"rm\"\x00c", b"?\x00", b"\0", b"s", b"B\x00", b"\\"]


def run_nested(case: tuple, s: Stats) -> None:
    parts, n, tail = case
    decode(b"\xff\x0f" + b"".join(NEST[p] for p in parts) * n + tail, s)


def nested() -> Any:
    return st.tuples(
        st.lists(st.integers(0, len(NEST) - 1), min_size=1, max_size=3),
        st.sampled_from([50, 150, 400, 1000, 3000, 20000, 100000]),
        st.sampled_from([b"", b"_", b"0", b"T", b"}"]),
    )


def run_resources(case: tuple, s: Stats) -> None:
    """Memory in proportion to the input, whatever lengths it claims."""
    kind, x = case
    data = x if kind == "bytes" else apply_edits(make(x[0]), x[1])
    note(data, s)  # (not measured: it records the case)
    tracemalloc.start()
    try:
        decode_only(data, s)
        peak = tracemalloc.get_traced_memory()[1]
    finally:
        tracemalloc.stop()
    limit = BASE + PER_BYTE * len(data)
    check(peak < limit, f"used {peak} bytes of memory for {len(data)} bytes of data")


def claims() -> Any:
    """Streams that claim far more than they hold."""
    n = st.sampled_from([2**10, 2**16, 2**20, 2**24, 2**27, 2**28, 2**30, 2**31, 2**32 - 2, 2**32 - 1]).map(varint)
    pair = st.one_of(
        st.tuples(st.just(b"U"), n, st.just(b"_")).map(b"".join),
        st.tuples(st.just(b"I"), n, st.just(b"I\x02")).map(b"".join),
        st.just(b"\"\x01a_"),
    )
    pairs = st.lists(pair, max_size=3).map(b"".join)
    k = st.integers(0, 3).map(varint)
    return st.one_of(
        st.tuples(st.just(b"\xff\x0fa"), n, pairs, st.just(b"@"), k, n).map(b"".join),
        st.tuples(n, pairs, k).map(lambda x: b"\xff\x0fa" + x[0] + x[1] + b"@" + x[2] + x[0]),
        st.tuples(pairs, k).map(lambda x: b"\xff\x0fo" + x[0] + b"{" + x[1]),
        st.tuples(n, n).map(lambda x: b"\xff\x0f~\x00" + x[0]),
        st.tuples(n, n).map(lambda x: b"\xff\x0f~\x00" + x[0] + b"VB\x00" + x[1] + b"\x03"),
        st.tuples(st.sampled_from([b"A", b"B", b"Z", b"z", b'"', b"c", b"S", b"\\\x01", b"R\"", b"~", b"t", b"u", b"t\x00VB"]), n, st.binary(max_size=4)).map(
            lambda x: b"\xff\x0f" + x[0] + x[1] + x[2]
        ),
        st.tuples(pairs, n, k).map(lambda x: b"\xff\x0fA\x00" + x[0] + b"$" + x[2] + b"\x00"),
    )


# --- work in proportion to the input -------------------------------------------------


def one(text: bytes) -> bytes:
    return b'"' + varint(len(text)) + text


def two(text: str) -> bytes:
    raw16 = text.encode("utf-16-le")
    return b"c" + varint(len(raw16)) + raw16


# Self-contained values, by their index in the container.
ELEMENTS: dict[str, Any] = {
    "null": lambda i: b"0",
    "int": lambda i: b"I" + varint(2 * i),
    "uint": lambda i: b"U" + varint(i),
    "double": lambda i: b"N" + struct.pack("<d", i + 0.5),
    "bigint": lambda i: b"Z\x10" + struct.pack("<q", i + 1),
    "one-byte": lambda i: one(b"s%d" % i),
    "two-byte": lambda i: two(f"s{i}"),
    "padded": lambda i: b"\0\0" + two("s\U0001f600"),
    "utf8": lambda i: b"S\x04s\xc3\xa9s",
    "date": lambda i: b"D" + struct.pack("<d", i),
    "regexp": lambda i: b"R" + one(b"a%d" % (i % 7)) + b"\x01",
    "error": lambda i: b"rTm" + one(b"m%d" % i) + b"s" + one(b"Error: m\n    at x:1:1") + b".",
    "errors": lambda i: b"rTc" + b"rRm" + one(b"m") + b".." ,
    "buffer": lambda i: b"B\x04abcd",
    "resizable": lambda i: b"~\x04\x08abcd",
    "view": lambda i: b"B\x04abcdVB\x00\x04\x00",
    "data view": lambda i: b"B\x04abcdV?\x01\x02\x00",
    "reference": lambda i: b"^\x00",
    "primitive": lambda i: [b"y", b"x", b"n" + bytes(8), b"s" + one(b"x"), b"z\x10" + struct.pack("<q", 1)][i % 5],
    "object": lambda i: b"o" + one(b"k") + b"0{\x01",
    "indexed object": lambda i: b"oU\x05" + b"0{\x01",
    "array": lambda i: b"A\x01T$\x00\x01",
    "sparse": lambda i: b"a\x64U\x07T@\x01\x64",
    "map": lambda i: b";I\x020:\x02",
    "set": lambda i: b"'I\x02,\x01",
    "host": lambda i: b"\\\x01\x04abcd",
}

# The order of n keys (or items).
ORDERS: dict[str, Any] = {
    "ascending": lambda n, step: range(0, n * step, step),
    "descending": lambda n, step: range((n - 1) * step, -1, -step),
    "shuffled": lambda n, step: random.Random(n).sample(range(0, n * step, step), n),
    "halves": lambda n, step: [*range(0, n * step, 2 * step), *range(step, n * step, 2 * step)],
    "inwards": lambda n, step: [(i // 2 if i % 2 else n - 1 - i // 2) * step for i in range(n)],
}


def structure(container: str, order: str, step: int, elements: tuple[str, ...], n: int) -> bytes:
    el = [ELEMENTS[e] for e in elements]

    def item(i: int) -> bytes:
        return el[i % len(el)](i)  # type: ignore[no-any-return]

    if container == "array":
        return b"A" + varint(n) + b"".join(map(item, range(n))) + b"$\x00" + varint(n)
    keys = ORDERS[order](n, step)
    if container == "map":
        return b";" + b"".join(b"U" + varint(k) + item(i) for i, k in enumerate(keys)) + b":" + varint(2 * n)
    if container == "map keys":
        return b";" + b"".join(item(k) + b"0" for k in keys) + b":" + varint(2 * n)
    if container == "set":
        return b"'" + b"".join(item(k) for k in keys) + b"," + varint(n)
    if container == "named":
        return b"o" + b"".join(one(b"k%d" % k) + item(i) for i, k in enumerate(keys)) + b"{" + varint(n)
    props = b"".join(b"U" + varint(k) + item(i) for i, k in enumerate(keys))
    if container == "object":
        return b"o" + props + b"{" + varint(n)
    if container == "digits":
        return b"o" + b"".join(one(b"%d" % k) + item(i) for i, k in enumerate(keys)) + b"{" + varint(n)
    if container == "array props":
        return b"A\x00" + props + b"$" + varint(n) + b"\x00"
    assert container == "sparse", container
    return b"a" + varint(n * step) + props + b"@" + varint(n) + varint(n * step)


CONTAINERS = ["array", "map", "map keys", "set", "named", "object", "digits", "array props", "sparse"]
FEW, MANY = 1000, 20_000


def cpu(data: bytes, times: int) -> float:
    from v8serialize import loads

    best = math.inf
    enabled = gc.isenabled()
    gc.disable()
    try:
        for _ in range(times):
            started = time.process_time()
            loads(data)
            best = min(best, time.process_time() - started)
            gc.collect()
    finally:
        if enabled:
            gc.enable()
    return best


def run_scaling(case: tuple, s: Stats) -> None:
    """20 times the items cost about 20 times the work."""
    few, many = (b"\xff\x0f" + structure(*case, n) for n in (FEW, MANY))
    s.nontrivial(True)
    s.label(case[0])
    worst = []
    for _ in range(4):  # (so that one slow moment of the machine isn't a failure)
        a = cpu(few, 3) / FEW
        b = cpu(many, 1) / MANY
        if b < 6 * a + 4e-6:
            return
        worst.append((a, b))
    a, b = min(worst, key=lambda w: w[1] / w[0])
    check(False, f"reading takes {a * 1e6:.1f} us an item with {FEW} items, but {b * 1e6:.1f} us an item with {MANY}")


BALLAST = {
    "one-byte": lambda: one(b"x" * 6_000_000),
    "two-byte": lambda: two("x" * 3_000_000),
    "buffer": lambda: b"B" + varint(6_000_000) + b"x" * 6_000_000,
    "host": lambda: b"\\\x01" + varint(6_000_000) + b"x" * 6_000_000,
    "bigint": lambda: b"Z" + varint(2 * 6_000_000) + b"x" * 6_000_000,
}


def run_ballast(case: tuple, s: Stats) -> None:
    """A large value costs the same whatever it is next to."""
    kind, before, shape = case
    big = BALLAST[kind]()
    s.nontrivial(True)
    s.label(kind)

    def with_(other: bytes) -> bytes:
        pair = big + other if before else other + big
        return b"\xff\x0fA\x02" + pair + b"$\x00\x02"

    items = structure(*shape, 400)
    worst = math.inf
    for _ in range(4):
        apart = cpu(with_(b"0"), 2) + cpu(b"\xff\x0f" + items, 2)
        extra = cpu(with_(items), 2) - 2 * apart
        if extra < 0.04:
            return
        worst = min(worst, extra)
    check(False, f"reading 400 items next to a large value takes {worst:.3f} seconds longer than reading each")


def shapes() -> Any:
    return st.tuples(
        st.sampled_from(CONTAINERS),
        st.sampled_from(sorted(ORDERS)),
        st.sampled_from([1, 2, 3, 10, 100]),
        st.lists(st.sampled_from(sorted(ELEMENTS)), min_size=1, max_size=3).map(tuple),
    )


def every_shape() -> Any:
    for c in CONTAINERS:
        if c in ("array", "map keys", "set"):
            yield (c, "ascending", 1, ("int",))
        else:
            for order in sorted(ORDERS):
                yield (c, order, 1, ("null",))
                yield (c, order, 10, ("null",))
    for e in sorted(ELEMENTS):
        yield ("array", "ascending", 1, (e,))


CASES = [
    Case("mutated", run_mutated, lambda: st.tuples(valid, edits), quick=24000, thorough=800000),
    Case("spliced", run_spliced, lambda: st.tuples(valid, valid, st.integers(0, 300), st.integers(0, 300)), quick=6000, thorough=200000),
    Case("grammar", run_bytes, lambda: grammar, quick=60000, thorough=2500000),
    Case("raw", run_bytes, lambda: raw, quick=16000, thorough=500000),
    Case("nested", run_nested, nested, quick=200, thorough=3000),
    Case("claims", run_resources, lambda: claims().map(lambda d: ("bytes", d)), quick=3000, thorough=50000),
    Case("resources", run_resources, lambda: st.one_of(grammar.map(lambda d: ("bytes", d)), st.tuples(st.just("edited"), st.tuples(valid, edits))), quick=4000, thorough=100000),
    Case("mutable_input", run_mutable_input, lambda: st.tuples(valid, edits, st.booleans()), quick=2000, thorough=50000),
    Case("scaling", run_scaling, shapes, quick=24, thorough=3000, fixed=every_shape),
    Case(
        "ballast",
        run_ballast,
        lambda: st.tuples(st.sampled_from(sorted(BALLAST)), st.booleans(), shapes()),
        quick=48,
        thorough=2000,
        fixed=lambda: [(b, side, ("array", "ascending", 1, (e,))) for b in BALLAST for side in (False, True) for e in ("one-byte", "error", "view")],
    ),
]
