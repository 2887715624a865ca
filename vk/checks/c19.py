"""C19: Node.js host-object buffers interoperate with Node.js."""

from __future__ import annotations

from typing import Any

from vk import gens, refcodec, st
from vk.bytesgen import choice_lists, chooser, varint
from vk.common import all_features, check_same, concrete, describe_or_fail, no_float16
from vk.core import Case, HarnessError, Stats, check, violated
from vk.graph import js_to_py
from vk.node import v8_deserialize, v8_serialize

RULE = (
    "Generated values with typed arrays, DataViews and Buffers of every type, offset, length and "
    "content among other objects, shared and cyclic, are serialized by Node.js's own serializer "
    "and by an independent writer of its format and decoded with each way to enable the "
    "extension; and are serialized by the library with the extension and read by Node.js, by an "
    "independent reader and by the library. Streams with damaged host objects must be refused as "
    "documented. Non-trivial: a view of at least one byte together with another object."
)
ASSUMPTIONS = [
    "A host object has the bytes of the view only: what else the buffer has, and that views share "
    "a buffer, isn't kept. (That is the format.)",
    "The extension's step comes after serialize_object_references, so that a view met again is a "
    "reference.",
    "Float16Array and views of shared or transferred buffers have no such encoding and are "
    "written as other serializers do.",
]

KINDS = ["view", "view", "view", "view", "ab", "obj", "arr", "map", "set", "err", "date", "re", "prim"]


def view_specs(**kw: Any) -> Any:
    kw.setdefault("sources", st.sampled_from(gens.JS_SAFE_SOURCES))
    kw.setdefault("min_nodes", 4)
    plain = gens.specs(kw.pop("kinds", KINDS), **kw)
    return st.one_of(plain, plain.map(whole), plain.map(fuller).map(whole))


def fuller(spec: tuple) -> tuple:
    """With views that have something in them."""
    out = []
    for n in spec[1]:
        if n[0] == "view":
            _, tag, k, data, off, ln, ro = n
            n = ("view", tag, k if off % 3 == 0 else None, data + bytes(range(130, 162)), off % 3, None if ln is None else ln % 3 + 1, ro)
        elif n[0] == "ab":
            n = ("ab", n[1] + bytes(range(200, 232)), *n[2:])
        out.append(n)
    return (spec[0], tuple(out))


def whole(spec: tuple) -> tuple:
    """With another object that refers to all the objects, twice."""
    _, nodes = spec
    refs = tuple(("r", i) for i in range(len(nodes)))
    return (("r", len(nodes)), (*nodes, ("arr", refs + refs[::-1], 0, ())))


def portions(g: dict) -> dict:
    """The graph with a buffer of its own, with just its bytes, for every view."""
    nodes = [list(n) for n in g["nodes"]]
    for n in list(nodes):
        if n[0] != "view" or n[1] == "Float16Array":
            continue
        if n[2][0] == "host":
            data = n[2][1]
        else:
            b = nodes[n[2][1]]
            if b[0] != "ab":
                continue
            data = b[1][2 * n[3] : 2 * (n[3] + n[4])]
        n[1] = "Uint8Array" if n[1] == "Buffer" else n[1]
        n[2:] = [["r", len(nodes)], 0, len(data) // 2, False]
        nodes.append(["ab", data, None])
    return {"root": g["root"], "nodes": nodes}


def rich(g: dict) -> bool:
    return len(g["nodes"]) > 1 and any(n[0] == "view" and n[4] for n in g["nodes"])


def label_views(g: dict, s: Stats) -> None:
    s.label(*{n[1] for n in g["nodes"] if n[0] == "view"})


def decoders() -> list:
    from v8serialize import Decoder, TagReader, loads
    from v8serialize.decode import ReadableTagStream
    from v8serialize.extensions import NodeJsArrayBufferViewHostObjectHandler as Handler

    def by_stream(data: bytes) -> Any:
        # As the class is used by an application's own step
        handler = Handler()
        return loads(data, host_object_deserializer=lambda *, stream: handler.deserialize_host_object(stream=stream))

    assert ReadableTagStream
    return [
        loads,
        lambda d: loads(d, nodejs=True),
        lambda d: loads(d, host_object_deserializer=Handler()),
        lambda d: loads(d, decode_steps=[TagReader(host_object_deserializer=Handler())]),
        lambda d: Decoder(decode_steps=[TagReader(host_object_deserializer=Handler())]).decodes(d),
        by_stream,
        lambda d: loads(bytearray(d)),
        lambda d: loads(memoryview(d)),
    ]


def decode_all(data: bytes, which: int) -> Any:
    ds = decoders()
    return ds[which % len(ds)](data)


def run_from_node(case: tuple, s: Stats) -> None:
    spec, kinds, which = case
    b = gens.Build(no_float16(spec))
    g = concrete(b.expected("js"))
    k = 0
    for n in g["nodes"]:
        if n[0] == "view" and n[1] == "Uint8Array" and not n[5]:
            if kinds[k % len(kinds)]:
                n[1] = "Buffer"
                s.label("Buffer")
            k += 1
    reply = v8_serialize(g, "host")
    if "error" in reply:
        raise HarnessError(f"Node.js can't make the value: {reply} {g}")
    saw = portions(reply["graph"])
    s.nontrivial(rich(saw))
    label_views(saw, s)
    data = bytes.fromhex(reply["data"])
    check_same(js_to_py(saw), describe_or_fail(decode_all(data, which)), "the decoded value")


def run_written(case: tuple, s: Stats) -> None:
    """By an independent writer of what Node.js writes."""
    spec, choices, version, which = case
    b = gens.Build(spec)
    g = concrete(b.expected("js"))
    if version == 13 and any(n[0] == "ab" and n[2] is not None for n in g["nodes"]):
        version = 14  # Older ones have no resizable buffers
    w = refcodec.Writer(g, chooser(choices), version, host=True)
    data = bytes(w.write())
    saw = portions(g)
    s.nontrivial(rich(saw))
    s.label(*(f for f in w.features if "Node" in f))
    check_same(js_to_py(saw), describe_or_fail(decode_all(data, which)), "the decoded value")


def write(value: object) -> bytes:
    from v8serialize import dumps
    from v8serialize.encode import TagWriter, serialize_object_references
    from v8serialize.extensions import serialize_js_array_buffer_views_as_nodejs_host_object as step

    return dumps(value, encode_steps=[serialize_object_references, step, TagWriter()], features=all_features())


def run_to_node(case: tuple, s: Stats) -> None:
    spec, which = case
    b = gens.Build(no_float16(spec))
    data = write(b.value)
    exp = portions(b.expected("js"))
    s.nontrivial(rich(exp))
    label_views(exp, s)
    noid = b.noid()
    graph, reader = refcodec.parse(data, host=True)
    check_same(exp, portions(graph), "what an independent reader finds", noid=noid)
    hosts = sum(n[0] == "view" for n in graph["nodes"])
    kept = sum(n[0] == "view" and n[2][0] == "host" for n in graph["nodes"])
    check(hosts == kept, lambda: f"of {hosts} views {kept} are host objects")
    reply = v8_deserialize(data)
    check("error" not in reply, lambda: f"Node.js can't read it: {reply}")
    check_same(exp, portions(reply["graph"]), "what Node.js sees", noid=noid)
    py = portions(b.expected("py"))
    check_same(py, describe_or_fail(decode_all(data, which)), "the decoded value", noid=noid)


def run_others(case: tuple, s: Stats) -> None:
    """With views for which there is no such encoding."""
    from v8serialize import dumps

    spec, which = case
    b = gens.Build(spec)
    data = write(b.value)
    s.nontrivial(any(b.nodes[i][0] == "view" and (b.nodes[i][1] == "Float16Array" or b.nodes[b.nodes[i][2]][0] in gens.INACCESSIBLE) for i in b.reachable()))
    py = portions(b.expected("py"))
    noid = b.noid()
    check_same(py, describe_or_fail(decode_all(data, which)), "the decoded value", noid=noid)
    # Without the views of the extension, nothing is different
    if not any(b.nodes[i][0] == "view" for i in b.reachable()):
        check(data == dumps(b.value, features=all_features()), "the extension changes what is written for other values")


def run_one(case: tuple, s: Stats) -> None:
    """Every type with every length, at each alignment."""
    name, items, off, extra, lead = case
    from v8serialize import jstypes

    size = gens.VIEW_SIZES[name]
    data = bytes((i * 37 + 11) % 256 for i in range(off * size + items * size + extra * size))
    buf = jstypes.JSArrayBuffer(data)
    view = getattr(jstypes, "JS" + name)(buf, off, items)
    s.nontrivial(items > 0)
    part = data[off * size : off * size + items * size]
    value = jstypes.JSArray(["x" * lead, view, view, buf])
    out = write(value)
    body = bytes([refcodec.NODE_VIEWS.index(name)]) + varint(len(part)) + part
    check(b"\\" + body in out, lambda: f"the host object isn't {body.hex()} in {out.hex()}")
    exp = {
        "root": ["r", 0],
        "nodes": [
            ["arr", 4, [[0, ["s", "x" * lead]], [1, ["r", 1]], [2, ["r", 1]], [3, ["r", 2]]], []],
            ["view", name, ["r", 3], 0, len(part), False],
            ["ab", data.hex(), None],
            ["ab", part.hex(), None],
        ],
    }
    js = v8_deserialize(out)
    check("graph" in js, lambda: f"Node.js can't read it: {js}")
    check_same(exp, portions(js["graph"]), "what Node.js sees")
    for i in range(len(decoders())):
        check_same(exp, describe_or_fail(decode_all(out, i)), "the decoded value")
    # The other way, without the library's writer
    g = {"root": ["r", 0], "nodes": [exp["nodes"][0], ["view", name, ["r", 2], off * size, len(part), False], exp["nodes"][2]]}
    reply = v8_serialize(g, "host")
    check_same(exp, describe_or_fail(decode_all(bytes.fromhex(reply["data"]), lead)), "the value decoded from Node.js")


def run_bad(case: tuple, s: Stats) -> None:
    """Codes and lengths that aren't valid are refused, with the error for that."""
    from v8serialize import DecodeV8SerializeError, jstypes
    from v8serialize.extensions import NodeJsArrayBufferViewHostObjectHandlerDecodeError as Bad

    lead, kind, code, length, body, which = case
    head = b"\xff\x0f" + b"\0" * lead
    if kind == "code":
        code = 13 + code
        data = head + b"\\" + varint(code) + varint(len(body)) + body
    elif kind == "length":
        code %= 13
        data = head + b"\\" + varint(code) + varint(len(body) + 1 + length) + body
    else:
        code %= 13
        whole = head + b"\\" + varint(code) + varint(len(body)) + body
        data = whole[: len(head) + 1 + length % max(1, len(whole) - len(head) - 1)]
    s.nontrivial(True)
    s.label(kind)
    try:
        out = decode_all(data, which)
    except Bad as e:
        check(isinstance(e, DecodeV8SerializeError), "the error isn't a DecodeV8SerializeError")
        check(bytes(e.data) == data and len(head) < e.position <= len(data), lambda: f"the error is at {e.position} of {bytes(e.data).hex()}")
        return
    except DecodeV8SerializeError:
        check(kind == "cut", "the error isn't the one for invalid host objects")
        return
    assert jstypes
    violated(f"a damaged host object is read as {out!r}")


views = st.sampled_from([n for n in gens.VIEW_SIZES if n != "Float16Array"])
small = st.integers(0, 9)
which = st.integers(0, 7)

CASES = [
    Case("from-node", run_from_node, lambda: st.tuples(view_specs(), st.lists(st.booleans(), min_size=1, max_size=4).map(tuple), which), quick=9000, thorough=120000),
    Case("independent", run_written, lambda: st.tuples(view_specs(), choice_lists, st.sampled_from([13, 14, 15]), which), quick=9000, thorough=120000),
    Case("to-node", run_to_node, lambda: st.tuples(view_specs(kinds=[*KINDS, "bytes", "list", "dict"]), which), quick=8000, thorough=100000),
    Case("others", run_others, lambda: st.tuples(view_specs(kinds=["view", "view", "sab", "abt", "ab", "obj", "arr"]), which), quick=3000, thorough=60000),
    Case(
        "one",
        run_one,
        lambda: st.tuples(views, st.one_of(small, st.sampled_from([15, 16, 31, 127, 128, 200, 2100])), st.integers(0, 5), st.integers(0, 3), st.integers(0, 9)),
        fixed=lambda: [(n, k, o, 1, lead) for n in gens.VIEW_SIZES if n != "Float16Array" for k in (0, 1, 2) for o in (0, 1) for lead in range(8)],
        quick=800,
        thorough=12000,
    ),
    Case(
        "damaged",
        run_bad,
        lambda: st.tuples(st.integers(0, 3), st.sampled_from(["code", "length", "cut"]), st.one_of(small, st.sampled_from([100, 242, 243, 2**14, 2**31, 2**32 - 14])), st.one_of(small, st.sampled_from([127, 128, 2**16, 2**31])), st.binary(max_size=12), which),
        quick=3000,
        thorough=60000,
    ),
]
