"""Helpers shared by the checks."""

from __future__ import annotations

import enum
from functools import reduce
from typing import Any, Callable, Iterable

from vk import gens, st
from vk.core import Stats, check, violated
from vk.graph import SAFE, Unexpected, compare, describe, js_to_py, undouble
from vk.node import bridge, v8_deserialize

FEATURES = ["RegExpUnicodeSets", "ResizableArrayBuffers", "CircularErrorCause", "Float16Array"]
# Without these, a value that needs them is refused.  (Resizable buffers are
# written as fixed-length ones.)
GATED = {"RegExpUnicodeSets", "CircularErrorCause", "Float16Array"}


def feature_set(names: Iterable[str]) -> Any:
    from v8serialize import SerializationFeature as F

    return reduce(lambda a, b: a | F[b], names, F.MaxCompatibility)


def all_features() -> Any:
    return feature_set(FEATURES)


def dump_all(value: object) -> bytes:
    from v8serialize import dumps

    return dumps(value, features=all_features())


def v8_has_f16() -> bool:
    if bridge.proc is None:
        bridge.call("hello")
    return bool(bridge.info.get("f16"))


def needs(b: gens.Build) -> set[str]:
    """The optional features that the value of a built spec uses."""
    out = set()
    for i in b.reachable():
        n = b.nodes[i]
        if n[0] == "ab" and n[2] is not None:
            out.add("ResizableArrayBuffers")
        elif n[0] == "view" and n[1] == "Float16Array":
            out.add("Float16Array")
        elif n[0] == "re" and "v" in n[2]:
            out.add("RegExpUnicodeSets")
        elif n[0] == "pat" and "v" in b.expected("js")["nodes"][i][2]:
            out.add("RegExpUnicodeSets")
    if b.has_cyclic_cause():
        out.add("CircularErrorCause")
    return out


def without_kind(spec: tuple, drop: Callable[[tuple], bool], instead: tuple) -> tuple:
    """The spec with the nodes that `drop` selects replaced."""
    root, nodes = spec
    return root, tuple(instead if drop(n) else n for n in nodes)


def no_float16(spec: tuple) -> tuple:
    return (
        spec[0],
        tuple(
            ("view", "Uint16Array", *n[2:]) if n[0] == "view" and n[1] == "Float16Array" else n
            for n in spec[1]
        ),
    )


def concrete(graph: dict[str, Any]) -> dict[str, Any]:
    """An expected graph without its wildcards, as something to be written."""
    out = []
    for n in graph["nodes"]:
        if n[0] == "err":
            n = ["err", *(None if x == "*" else x for x in n[1:4]), n[4]]
        out.append(n)
    return {"root": graph["root"], "nodes": out}


def describe_or_fail(value: object) -> dict[str, Any]:
    try:
        return describe(value)
    except Unexpected as e:
        violated(f"the result contains an unexpected {e}")
        raise


def check_same(exp: dict, act: dict, what: str, noid: Any = frozenset()) -> None:
    why = compare(exp, act, noid=noid)
    check(why is None, lambda: f"{what} differs: {why}")


def has_equal_immutable_keys(graph: dict[str, Any]) -> bool:
    """Whether a Map or Set has two keys that are equal but distinct immutables."""
    nodes = graph["nodes"]
    for n in nodes:
        if n[0] not in ("map", "set"):
            continue
        keys = [e[0] if n[0] == "map" else e for e in n[1]]
        seen = []
        for k in keys:
            if k[0] == "r" and nodes[k[1]][0] in ("date", "re", "sab", "abt"):
                c = nodes[k[1]]
                if c in seen:
                    return True
                seen.append(c)
    return False


def graph_noid(graph: dict[str, Any]) -> set[int]:
    """Nodes of a Python-side description whose identity isn't significant."""
    return {i for i, n in enumerate(graph["nodes"]) if n[0] in ("date", "re", "sab", "abt", "prim")}


# Graphs as specs for tests that write the format themselves ------------------


def js_graphs(**kw: Any) -> Any:
    """Specs with only the kinds of node that JavaScript itself has."""
    kinds = ["obj", "arr", "sarr", "map", "set", "date", "re", "err", "prim", "bigprim", "ab", "view"]
    kw.setdefault("sources", st.sampled_from(gens.JS_SAFE_SOURCES))
    return gens.specs(kw.pop("kinds", kinds), **kw)


class StrSub(str):
    pass


class IntSub(int):
    pass


class FloatSub(float):
    pass


class BytesSub(bytes):
    pass


class BytearraySub(bytearray):
    pass


def dressed(value: Any, form: int) -> Any:
    """An equal value of a subclass: a plain one, or an Enum."""
    t = type(value)
    if t not in (str, int, float) or form % 3 == 0:
        return {bytes: BytesSub, bytearray: BytearraySub}[t](value) if t in (bytes, bytearray) and form % 3 else value
    if form % 3 == 1:
        return {str: StrSub, int: IntSub, float: FloatSub}[t](value)
    return enum.Enum("Dress", {"MEMBER": value}, type=t).MEMBER
