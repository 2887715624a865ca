"""C02: shared and cyclic references keep their identity structure."""

from __future__ import annotations

from typing import Any

from vk import gens, refcodec, st
from vk.bytesgen import choice_lists, chooser
from vk.common import (
    GATED,
    all_features,
    check_same,
    concrete,
    describe_or_fail,
    dump_all,
    feature_set,
    js_graphs,
    needs,
)
from vk.core import Case, Stats, check
from vk.graph import js_to_py

RULE = (
    "Generated graphs in which references are frequent, over every kind of object whose "
    "identity can be observed, and interleaved sequences of fresh objects and references "
    "back to earlier ones, with all optional features and with only those needed; also graphs of hundreds to tens of thousands of objects with "
    "references to objects at the boundaries of the varint's length. Non-trivial: an object is reachable by two paths or by a cycle."
)

MUTABLE = ["obj", "arr", "sarr", "map", "set", "dict", "pyset", "list", "err", "exc", "bytearray", "ab", "view"]


def interesting(b: gens.Build) -> bool:
    return b.shared() > 0 or b.has_cycle()


def run_roundtrip(spec: tuple, s: Stats) -> None:
    from v8serialize import dumps, loads

    b = gens.Build(spec)
    s.nontrivial(interesting(b))
    s.label(*b.kinds())
    out = loads(dump_all(b.value))
    check_same(b.expected("py"), describe_or_fail(out), "deserialized graph", b.noid())
    # Errors and buffers are written in other ways without the optional features
    out = loads(dumps(b.value, features=feature_set(needs(b) & GATED)))
    check_same(b.expected("py", resizable=False), describe_or_fail(out), "graph written with only the features it needs", b.noid())


def run_written(spec: tuple, s: Stats) -> None:
    """The references in the bytes, as an independent reader understands them."""
    b = gens.Build(spec)
    s.nontrivial(interesting(b))
    data = dump_all(b.value)
    try:
        got, _ = refcodec.parse(data)
    except refcodec.Malformed as e:
        check(False, f"malformed output: {e}")
    check_same(b.expected("js"), got, "written graph", b.noid())


def run_read(case: tuple, s: Stats) -> None:
    """References written by an independent writer."""
    from v8serialize import loads

    spec, choices = case
    b = gens.Build(spec)
    s.nontrivial(interesting(b))
    g = concrete(b.expected("js"))
    version = 15 - choices[0] % 2
    data = refcodec.Writer(g, chooser(choices), version).write()
    out = loads(data)
    check_same(js_to_py(g), describe_or_fail(out), "deserialized graph")


def run_sandwich(spec: tuple, s: Stats) -> None:
    """[fresh, ref, fresh, ref, ...]: references after each kind of object."""
    from v8serialize import loads

    box, items = spec
    nodes: list[tuple] = []
    entries: list[tuple] = []
    for kind_node, back in items:
        nodes.append(kind_node)
        entries.append(("r", len(nodes)))
        if back is not None:
            entries.append(("r", 1 + back % len(nodes)))
    if box == "obj":
        root: tuple = ("obj", tuple((f"k{i}", v) for i, v in enumerate(entries)))
    elif box == "map":
        root = ("map", tuple((("i", i), v) for i, v in enumerate(entries)))
    else:
        root = (box, tuple(entries), 0, ()) if box == "arr" else (box, 0, tuple(entries))
    run_roundtrip((("r", 0), (root, *nodes)), s)
    run_written((("r", 0), (root, *nodes)), s)


def sandwich() -> Any:
    table = gens.node_strategies(2)
    node = st.one_of([table[k] for k in gens.ALL_KINDS])
    return st.tuples(
        st.sampled_from(["arr", "obj", "map", "list"]),
        st.lists(
            st.tuples(node, st.one_of(st.none(), st.integers(0, 8), st.integers(0, 8))),
            min_size=2,
            max_size=8,
        ).map(tuple),
    )


def run_big(recipe: tuple, s: Stats) -> None:
    """So many objects that references need several bytes."""
    spec = gens.expand_big(recipe)
    run_roundtrip(spec, s)
    run_written(spec, s)


def run_big_read(case: tuple, s: Stats) -> None:
    run_read((gens.expand_big(case[0]), case[1]), s)


# (not more in a Set: its members are compared by value where they're equal)
HUGE = [
    (box, n, (node, ("arr", (("r", 3),), 0, ())), 3, 97)
    for box, n, node in [
        ("arr", 16500, ("obj", (("a", ("r", 0)),))),
        ("map", 9000, ("map", ((("r", 0), ("r", 1)),))),
        ("obj", 17000, ("ab", b"ab", None, False)),
        ("list", 9000, ("err", "E", "TypeError", "m", None, ("r", 2))),
        ("set", 8500, ("set", (("r", 5),))),
        ("arr", 66000, ("obj", ())),
    ]
]


CASES = [
    Case("big", run_big, lambda: gens.big(MUTABLE), quick=240, thorough=15000, fixed=lambda: HUGE),
    Case("big_read", run_big_read, lambda: st.tuples(gens.big(MUTABLE), choice_lists), quick=160, thorough=10000, fixed=lambda: [(r, (0,)) for r in HUGE]),
    Case("roundtrip", run_roundtrip, lambda: gens.specs(MUTABLE, max_nodes=9, fan=5, min_nodes=3), quick=16000, thorough=500000),
    Case("sandwich", run_sandwich, sandwich, quick=10000, thorough=300000),
    Case("written", run_written, lambda: gens.specs(max_nodes=10), quick=10000, thorough=300000),
    Case(
        "read",
        run_read,
        lambda: st.tuples(js_graphs(max_nodes=10, min_nodes=3), choice_lists),
        quick=16000,
        thorough=400000,
    ),
]
