"""C06: truncated data is always rejected, and values end where they end."""

from __future__ import annotations

from typing import Any

from vk import gens, refcodec, st
from vk.bytesgen import choice_lists, make, valid
from vk.common import (
    all_features,
    check_same,
    concrete,
    describe_or_fail,
    graph_noid,
    js_graphs,
    no_float16,
    v8_has_f16,
)
from vk.core import Case, HarnessError, Stats, check
from vk.graph import compare
from vk.node import v8_serialize

RULE = (
    "Valid streams by the library's writer, an independent writer and V8; every strict "
    "prefix of each is deserialized (of streams over 600 bytes, a sample of prefixes), as "
    "is each with bytes appended, and sequences of values in one stream. Non-trivial: a "
    "distinct stream of more than 4 bytes."
)


def cut_view(data: bytes) -> set[int]:
    """Lengths at which a view at the root is cut after its complete buffer.

    What's left is exactly the serialization of the buffer.
    """
    r = refcodec.Reader(data)
    try:
        r.header()
        first = r._value()
        end = r.pos
        if first[0] == "r" and r.nodes[first[1]][0] in ("ab", "sab", "abt") and r.peek() == "V":
            return set(range(end, r.pos + 1))
    except refcodec.Malformed:
        pass
    return set()


def check_prefixes(data: bytes, s: Stats) -> None:
    from v8serialize import DecodeV8SerializeError, loads

    s.nontrivial(len(data) > 4)
    allowed = cut_view(data)
    n = len(data)
    ks = range(n) if n <= 600 else [*range(200), *range(200, n - 200, max(1, n // 100)), *range(n - 200, n)]
    for k in ks:
        prefix = data[:k]
        try:
            out = loads(prefix)
        except DecodeV8SerializeError as e:
            check(0 <= e.position <= k, f"error position {e.position} is outside the {k} bytes of data")
            continue
        if k in allowed:
            s.label("(view cut to its buffer)")
            continue
        check(False, f"the first {k} of {n} bytes of {data.hex()} deserialized to {out!r:.200}")


def run_prefixes(v: tuple, s: Stats) -> None:
    check_prefixes(make(v), s)


def run_v8_prefixes(case: tuple, s: Stats) -> None:
    spec, host = case
    if not v8_has_f16():
        spec = no_float16(spec)
    b = gens.Build(spec)
    reply = v8_serialize(concrete(b.expected("js")), "host" if host else "plain")
    if "error" in reply:
        raise HarnessError(str(reply))
    check_prefixes(bytes.fromhex(reply["data"]), s)


def run_trailing(case: tuple, s: Stats) -> None:
    from v8serialize import loads

    v, junk = case
    data = make(v)
    if junk.lstrip(b"\0")[:1] == b"V":
        junk = b"_" + junk
    s.nontrivial(len(data) > 4 and junk)
    one = describe_or_fail(loads(data))
    two = describe_or_fail(loads(data + junk))
    check_same(one, two, f"value followed by {junk!r}")


def run_sequence(case: tuple, s: Stats) -> None:
    """Values in one stream, written and read one after another."""
    from v8serialize.decode import DefaultDecodeContext, ReadableTagStream, default_decode_steps
    from v8serialize.encode import DefaultEncodeContext, WritableTagStream, default_encode_steps

    spec, roots = case
    b = gens.Build(spec)
    refs = [b.resolve(r, None) for r in roots]
    s.nontrivial(len(refs) > 1)
    w = DefaultEncodeContext(stream=WritableTagStream(features=all_features()), encode_steps=default_encode_steps)
    w.stream.write_header()
    ends = []
    for r in refs:
        w.encode_object(b.obj(r))
        ends.append(w.stream.pos)
    r_ctx = DefaultDecodeContext(stream=ReadableTagStream(bytes(w.stream.data)), decode_steps=default_decode_steps)
    r_ctx.stream.read_header()
    got = []
    for i, end in enumerate(ends):
        check(not r_ctx.stream.eof, "the stream is at its end before the last value")
        got.append(r_ctx.decode_object())
        check(r_ctx.stream.pos == end, f"value {i} was written up to {end} but read up to {r_ctx.stream.pos}")
    check(r_ctx.stream.eof, "the stream is not at its end after the last value")
    # Compared as one list, for what the values share
    exp = b.expected("py")
    nodes = exp["nodes"]
    values = []
    for r in refs:
        if r[0] == "r":
            n = b.nodes[r[1]]
            if n[0] == "prim":
                values.append(gens.prim_graph(n[1], "py"))
            elif n[0] == "bigprim":
                values.append(gens.num(n[1]))
            else:
                values.append(["r", r[1]])
        else:
            values.append(gens.prim_graph(r, "py"))
    nodes = [*nodes, ["arr", len(values), [[i, v] for i, v in enumerate(values)], []]]
    exp = {"root": ["r", len(nodes) - 1], "nodes": nodes}
    check_same(exp, describe_or_fail(list(got)), "the sequence of values", b.noid())


def sequences() -> Any:
    root = st.one_of(gens.refs, gens.refs, gens.prims)
    return st.tuples(gens.specs(max_nodes=8), st.lists(root, min_size=1, max_size=5).map(tuple))


junk = st.one_of(
    st.binary(min_size=1, max_size=8),
    st.sampled_from([b"\0", b"\0\0\0", b"{", b"o{\0", b"VB\0\0\0", b"^\0", b"\xff\x0f_", b".", b"-", b"\xff"]),
)

CASES = [
    Case("prefixes", run_prefixes, lambda: valid, quick=5000, thorough=150000),
    Case("v8_prefixes", run_v8_prefixes, lambda: st.tuples(js_graphs(), st.booleans()), quick=800, thorough=25000),
    Case("trailing", run_trailing, lambda: st.tuples(valid, junk), quick=8000, thorough=200000),
    Case("sequence", run_sequence, sequences, quick=10000, thorough=300000),
]
