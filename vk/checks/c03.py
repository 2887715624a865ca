"""C03: a real V8 engine reads every output, as the value the docs promise."""

from __future__ import annotations

from typing import Any

from vk import gens, refcodec, st
from vk.common import (
    all_features,
    GATED,
    check_same,
    needs,
    no_float16,
    v8_deserialize,
    v8_has_f16,
)
from vk.core import Case, Stats, check

RULE = (
    "Generated value graphs of the kinds V8 can receive; each output is deserialized by "
    "Node.js's V8 and the value it builds is compared with the promised one; also long "
    "strings, BigInts, buffers and collections, and graphs of many objects. "
    "Non-trivial: at least two objects are reachable, or the value is a primitive that "
    "is not a small integer or ASCII string."
)
ASSUMPTIONS = [
    "The installed Node.js 22 (V8 12.4) stands for V8; constructs newer than it "
    "(Float16Array) are checked against the independent reader instead.",
    "RegExp sources and flags are ones JavaScript accepts; holes occur in arrays only.",
]


def simple(b: gens.Build) -> bool:
    if b.root[0] == "r":
        return len(b.reachable()) < 2
    x = b.root[-1]
    return not (isinstance(x, float) or (isinstance(x, int) and abs(x) > 99) or (isinstance(x, str) and not x.isascii()))


def run_v8(spec: tuple, s: Stats, features: Any = None) -> None:
    from v8serialize import dumps

    if not v8_has_f16():
        spec = no_float16(spec)
    b = gens.Build(spec)
    s.nontrivial(not simple(b))
    s.label(*b.kinds())
    if b.has_cycle():
        s.label("(cyclic)")
    if features is None:
        data = dumps(b.value, features=all_features())
        exp = b.expected("js")
    else:
        if needs(b) & GATED:
            s.label("(needs features)")
            return
        data = dumps(b.value)
        exp = b.expected("js", resizable=False)
    reply = v8_deserialize(data)
    check("graph" in reply, lambda: f"V8 can't read the output {data.hex()}: {reply.get('error')}")
    check_same(exp, reply["graph"], "the value V8 reads", b.noid())


def run_baseline(spec: tuple, s: Stats) -> None:
    run_v8(spec, s, ())


def run_prims(v: tuple, s: Stats) -> None:
    run_v8((("r", 0), (("arr", (v, ("h",), v), 0, (("k", v),)), ("map", ((v, v),)))), s)
    run_v8((v, ()), s)


def run_reader(spec: tuple, s: Stats) -> None:
    """Every construct, as the independent reader understands it."""
    from v8serialize import dumps

    b = gens.Build(spec)
    s.nontrivial(not simple(b))
    data = dumps(b.value, features=all_features())
    try:
        got, _ = refcodec.parse(data)
    except refcodec.Malformed as e:
        check(False, f"malformed output {data.hex()}: {e}")
    check_same(b.expected("js"), got, "the written value", b.noid())


JS_MUTABLE = [k for k in gens.JS_KINDS if k not in gens.NOID_KINDS]


def js_specs(**kw: Any) -> Any:
    return gens.specs(gens.JS_KINDS, sources=st.sampled_from(gens.JS_SAFE_SOURCES), **kw)


def run_big(recipe: tuple, s: Stats) -> None:
    """Graphs of hundreds of objects."""
    run_v8(gens.expand_big(recipe), s)


def run_long(case: tuple, s: Stats) -> None:
    """Long strings, integers, buffers and containers."""
    spec = gens.long_spec(case)
    run_v8(spec, s)
    run_reader(spec, s)


HUGE = [("arr", 16500, (("obj", (("a", ("r", 0)),)), ("arr", (("r", 3),), 0, ())), 3, 97), ("map", 9000, (("ab", b"ab", None, False),), 2, 89)]

CASES = [
    Case("long", run_long, gens.long_cases, quick=160, thorough=6000, fixed=gens.long_fixed),
    Case("big", run_big, lambda: gens.big(JS_MUTABLE, sources=st.sampled_from(gens.JS_SAFE_SOURCES)), quick=400, thorough=10000, fixed=lambda: HUGE),
    Case("v8", run_v8, lambda: js_specs(), quick=16000, thorough=300000),
    Case("v8_wide", run_v8, lambda: js_specs(max_nodes=14, fan=7), quick=4000, thorough=150000),
    Case("v8_baseline", run_baseline, lambda: js_specs(), quick=4000, thorough=100000),
    Case(
        "v8_prims",
        run_prims,
        lambda: gens.prims,
        fixed=lambda: [("i", i) for i in gens.INT_EDGES]
        + [("f", f) for f in gens.FLOAT_EDGES]
        + [("s", x) for x in gens.STR_EDGES],
        quick=4000,
        thorough=100000,
    ),
    Case("reader", run_reader, lambda: gens.specs(), quick=10000, thorough=200000),
]
