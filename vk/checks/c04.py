"""C04: everything a real V8 engine serializes is decoded to its equivalent."""

from __future__ import annotations

from typing import Any

from vk import gens, refcodec, st
from vk.common import (
    bridge,
    check_same,
    concrete,
    describe_or_fail,
    js_graphs,
    no_float16,
    v8_has_f16,
)
from vk.core import Case, HarnessError, Stats, check
from vk.graph import SAFE, compare, js_to_py, undouble
from vk.node import v8_serialize

RULE = (
    "Generated JavaScript value graphs (and arrays and objects made by sequences of "
    "changes) are built and serialized by Node.js's V8, with its own serializer and with "
    "Node.js's extension; the decoded value is compared with V8's own description of what "
    "it serialized (data as V8 wrote it up to 12.0, with errors' stacks last, comes from an "
    "independent writer); also long strings, BigInts, buffers and collections, and graphs of many "
    "objects. Non-trivial: at least two objects, or a primitive that isn't a small "
    "integer or ASCII string."
)
ASSUMPTIONS = [
    "The installed Node.js 22 (V8 12.4) stands for V8.",
    "Dates are within the years Python can represent (C21 covers the others).",
]


def vary(g: dict, choices: tuple) -> dict:
    """Make small numbers BigInts and strings two-byte in some places."""
    state = [0]

    def pick() -> int:
        state[0] += 1
        return choices[state[0] % len(choices)]

    def val(v: list) -> list:
        if v[0] == "d" and pick() == 1:
            x = undouble(v[1])
            if x == x and abs(x) < 2**60 and x == int(x):
                return ["i", str(int(x))]
        if v[0] == "s" and pick() in (2, 3):
            return ["s2", v[1]]
        return v

    out = []
    for n in g["nodes"]:
        t = n[0]
        if t == "obj":
            n = [t, [[k, val(v)] for k, v in n[1]]]
        elif t == "arr":
            n = [t, n[1], [[k, val(v)] for k, v in n[2]], [[k, val(v)] for k, v in n[3]]]
        elif t == "map":
            n = [t, [[val(k), val(v)] for k, v in n[1]]]
        elif t == "set":
            n = [t, [val(v) for v in n[1]]]
        elif t == "prim":
            n = [t, val(n[1])]
        out.append(n)
    return {"root": val(g["root"]), "nodes": out}


def mixes_bigint_keys(g: dict) -> bool:
    """A Map or Set has a number and a BigInt of the same value as keys."""
    for n in g["nodes"]:
        if n[0] in ("map", "set"):
            keys = [e[0] if n[0] == "map" else e for e in n[1]]
            nums = {undouble(k[1]) for k in keys if k[0] == "d"}
            if any(k[0] == "i" and int(k[1], 0) in nums for k in keys):
                return True
    return False


def decode_and_compare(reply: dict, s: Stats, what: str) -> None:
    from v8serialize import loads

    data, g = bytes.fromhex(reply["data"]), reply["graph"]
    got = describe_or_fail(loads(data))
    if mixes_bigint_keys(g) and s.is_known("bigint-keys"):
        return
    check_same(js_to_py(g), got, what)


def run_graph(case: tuple, s: Stats, mode: str = "plain") -> None:
    spec, choices = case
    if not v8_has_f16():
        spec = no_float16(spec)
    b = gens.Build(spec)
    g = vary(concrete(b.expected("js")), choices)
    reply = v8_serialize(g, mode)
    if "error" in reply:
        raise HarnessError(f"V8 can't make the value: {reply} {g}")
    s.nontrivial(len(b.reachable()) > 1 or (b.root[0] in "fs" or (b.root[0] == "i" and abs(b.root[1]) > 99)))
    s.label(*b.kinds())
    decode_and_compare(reply, s, "the decoded value")


def run_host(case: tuple, s: Stats) -> None:
    """Node.js's serializer: views are host objects, the rest is the same."""
    spec, choices = case
    spec = (spec[0], tuple(n for n in spec[1] if n[0] != "view"))
    if spec[0][0] == "r" and not spec[1]:
        return
    run_graph((spec, choices), s, "host")


def run_history(case: tuple, s: Stats) -> None:
    array, ops = case
    sent = []
    for op, key, v in ops:
        k = str(key) if op in ("set", "del") else key
        sent.append([op, k, gens.prim_graph(v, "js")])
    reply = bridge.call("hist", array=array, ops=sent)
    s.nontrivial(len(ops) > 2)
    decode_and_compare(reply, s, "the decoded value")


def history() -> Any:
    small = st.integers(0, 8)
    idx = st.one_of(small, small, small, st.sampled_from([30, 1025, 5000, 70000, 2**32 - 2]))
    key = st.one_of(idx, idx, st.sampled_from(["a", "b", "01", "-1"]))
    okey = st.one_of(idx, st.sampled_from(["a", "b", "c", "d", "01", "-1", "1.5", "4294967295"]))
    v = gens.prims
    array_op = st.one_of(
        st.tuples(st.just("set"), key, v),
        st.tuples(st.just("set"), small, v),
        st.tuples(st.just("push"), st.just(0), v),
        st.tuples(st.just("push"), st.just(0), v),
        st.tuples(st.just("del"), key, st.just(("n",))),
        st.tuples(st.just("del"), small, st.just(("n",))),
        st.tuples(st.just("len"), st.one_of(small, st.sampled_from([20, 2000, 2**31])), st.just(("n",))),
        st.tuples(st.sampled_from(["pop", "reverse", "unshift", "fill"]), st.just(0), v),
    )
    object_op = st.one_of(
        st.tuples(st.just("set"), okey, v),
        st.tuples(st.just("set"), okey, v),
        st.tuples(st.just("del"), okey, st.just(("n",))),
    )
    return st.one_of(
        st.tuples(st.just(True), st.lists(array_op, max_size=14).map(tuple)),
        st.tuples(st.just(True), st.lists(array_op, max_size=14).map(tuple)),
        st.tuples(st.just(False), st.lists(object_op, max_size=10).map(tuple)),
    )


choices = st.lists(st.integers(0, 9), min_size=1, max_size=11).map(tuple)


def probe_bigint_keys() -> bool:
    from v8serialize import loads

    # Map { 1 => 'a', 1n => 'b' } as V8 writes it
    data = bytes.fromhex("ff0f3b490222016" + "15a10010000000000000022" + "01623a04")
    return len(loads(data)) == 1


KNOWN_PROBES = {"bigint-keys": probe_bigint_keys}

def run_big(case: tuple, s: Stats) -> None:
    """Graphs of hundreds of objects."""
    run_graph((gens.expand_big(case[0]), case[1]), s)


def run_long(case: tuple, s: Stats) -> None:
    """Long strings, integers, buffers and containers."""
    run_graph((gens.long_spec(case), (case[2], 0)), s)


def run_older(case: tuple, s: Stats) -> None:
    """As V8 up to 12.0 wrote it: format 13 to 15, errors with the stack last."""
    from v8serialize import loads

    spec, version = case
    b = gens.Build(spec)
    g = concrete(b.expected("js"))
    if version == 13 and any(n[0] == "ab" and n[2] is not None for n in g["nodes"]):
        version = 14  # Older ones have no resizable buffers
    w = OlderWriter(g, lambda n: 0, version)
    data = bytes(w.write())
    graph, _ = refcodec.parse(data)
    if compare(g, graph):
        raise HarnessError(f"the independent reader and writer disagree: {data.hex()}")
    errors = [n for n in g["nodes"] if n[0] == "err"]
    s.nontrivial(any(n[3] is not None and n[4] is not None for n in errors))
    s.label(f"version {version}", *w.features)
    for n in errors:
        s.label("".join(f for f, x in zip("msc", n[2:]) if x is not None) or "bare")
    check_same(js_to_py(g), describe_or_fail(loads(data)), "the decoded value")


class OlderWriter(refcodec.Writer):
    def error_order(self) -> int:
        return 1


HUGE = [("arr", 16500, (("obj", (("a", ("r", 0)),)), ("arr", (("r", 3),), 0, ())), 3, 97), ("map", 9000, (("ab", b"ab", None, False),), 2, 89)]
JS_MUTABLE = [k for k in gens.JS_KINDS if k not in gens.NOID_KINDS]

CASES = [
    Case("long", run_long, gens.long_cases, quick=160, thorough=6000, fixed=gens.long_fixed),
    Case(
        "big",
        run_big,
        lambda: st.tuples(gens.big(JS_MUTABLE), choices),
        quick=400,
        thorough=10000,
        fixed=lambda: [(r, (0,)) for r in HUGE],
    ),
    Case("graph", run_graph, lambda: st.tuples(js_graphs(), choices), quick=14000, thorough=300000),
    Case("wide", run_graph, lambda: st.tuples(js_graphs(max_nodes=14, fan=7), choices), quick=4000, thorough=150000),
    Case("prims", run_graph, lambda: st.tuples(st.tuples(gens.prims, st.just(())), choices), quick=3000, thorough=100000),
    Case("host", run_host, lambda: st.tuples(js_graphs(), choices), quick=3000, thorough=100000),
    Case("history", run_history, history, quick=8000, thorough=200000),
    Case(
        "older",
        run_older,
        lambda: st.tuples(
            st.one_of(js_graphs(max_nodes=5), gens.specs(kinds=[*["err"] * 9, "obj", "arr", "map", "date"], max_nodes=6, fan=3, min_nodes=1)),
            st.sampled_from([13, 14, 15, 15]),
        ),
        quick=4000,
        thorough=100000,
    ),
]
