"""C01: serialize then deserialize returns an equal value."""

from __future__ import annotations

import math
from enum import Enum
from typing import Any

from vk import gens, st
from vk.common import (
    check_same,
    describe_or_fail,
    dressed,
    dump_all,
    graph_noid,
    GATED,
    has_equal_immutable_keys,
    needs,
    all_features,
)
from vk.core import Case, Stats, check

RULE = (
    "Cases are generated value graphs: a root and up to 8 (wide: 14) nodes of 27 kinds, "
    "whose values are edge-case or random primitives and references to any node, plus "
    "single primitives and large containers. A case is non-trivial if at least two "
    "objects are reachable from its root, or (case `prims`) if the primitive is not a "
    "small integer or ASCII string, or (case `large`) always."
)
ASSUMPTIONS = [
    "Identity of equal immutable objects (datetimes, regular expressions, bytes, "
    "tuples, wrapper objects) is not part of the value.",
    "The platform's local timezone database is used by both sides for naive datetimes.",
]


def roundtrip(value: object, exp: dict, noid: set[int], s: Stats, **options: Any) -> None:
    from v8serialize import dumps, loads

    out = loads(dumps(value, **options))
    got = describe_or_fail(out)
    check_same(exp, got, "deserialized value", noid)
    # The result is a value like any other
    again = describe_or_fail(loads(dumps(out, **options)))
    if has_equal_immutable_keys(got) and s.is_known("map-equal-immutable-keys"):
        return
    check_same(got, again, "value deserialized the second time", graph_noid(got))


def run_roundtrip(spec: tuple, s: Stats) -> None:
    b = gens.Build(spec)
    s.nontrivial(len(b.reachable()) > 1)
    s.label(*b.kinds())
    if b.has_cycle():
        s.label("(cyclic)")
    roundtrip(b.value, b.expected("py"), b.noid(), s, features=all_features())


def run_baseline(spec: tuple, s: Stats) -> None:
    b = gens.Build(spec)
    used = needs(b)
    if used & GATED:
        s.label("(needs features)")
        return
    s.nontrivial(len(b.reachable()) > 1)
    roundtrip(b.value, b.expected("py", resizable=False), b.noid(), s)


def run_prims(v: tuple, s: Stats) -> None:
    x = v[1] if len(v) > 1 else None
    s.nontrivial(
        (isinstance(x, int) and abs(x) > 99)
        or isinstance(x, float)
        or (isinstance(x, str) and not x.isascii())
    )
    s.label(v[0])
    run_roundtrip((v, ()), s)
    b = gens.Build((("r", 0), (("arr", (v, ("h",), v), 0, (("k", v),)), ("map", ((v, v),)))))
    roundtrip(b.value, b.expected("py"), set(), s)


MIXED: list = [
    ("i", 0), ("f", -0.5), ("i", 1), ("s", ""), ("s", "0"), ("n",), ("u",), ("b", True), ("b", False), ("f", float("nan")), ("f", float("inf")),
    ("i", -1), ("i", 2**31), ("i", 2**53), ("i", 2**64), ("i", -(2**70)), ("f", 1.5), ("f", 5e-324), ("s", "é"), ("s", "☃"), ("s", "a" * 130),
    ("s", "☃" * 130), ("s", "1"), ("s", "NaN"), ("r", 1), ("r", 2), ("r", 3), ("r", 4),
]  # fmt: skip


def run_large(spec: tuple, s: Stats) -> None:
    """Sizes around the points where lengths need more bytes."""
    kind, n, fill, char = spec
    s.nontrivial()
    s.label(kind)
    if kind == "str":
        g = (("s", char * n), ())
    elif kind == "bytes":
        g = (("r", 0), (("bytes", bytes([fill % 256]) * n),))
    elif kind == "resizable":
        g = (("r", 0), (("ab", bytes([fill % 256]) * n, n, False), ("view", "Uint8Array", 0, b"", n // 2, None, None)))
    elif kind == "int":
        g = (("i", (1 << n) + fill), ())
    elif kind == "list":
        g = (("r", 0), (("arr", tuple(("i", i + fill) for i in range(n)), 0, ()),))
    elif kind == "obj":
        g = (("r", 0), (("obj", tuple((char + str(i), ("i", i)) for i in range(n))),))
    elif kind == "map":
        g = (("r", 0), (("map", tuple((("i", i * fill), ("r", 1)) for i in range(n)), ), ("obj", ())))
    elif kind in ("mixed", "mixed-sparse"):
        # One of each of many values, in any order
        pool = MIXED[:40] + [("i", i) for i in range(2, n)]
        step = fill * 2 + 1
        while math.gcd(step, len(pool)) > 1:
            step += 2
        vs = tuple(pool[(fill + i * step) % len(pool)] for i in range(len(pool)))
        if kind == "mixed":
            g = (("r", 0), (("arr", tuple(("r", i) for i in range(1, 5)), 0, ()), ("set", vs), ("map", tuple(zip(vs, vs[3:]))), ("arr", vs, 0, (("x", ("i", 1)),)), ("obj", tuple((char + str(i), v) for i, v in enumerate(vs)))))
        else:
            g = (("r", 0), (("arr", (*vs[:7], *[("h",)] * (n * 9), *vs[7:14]), 0, ((char, ("i", 1)), ("y", ("f", 2.5)))),))
    elif kind == "set":
        g = (("r", 0), (("set", tuple(("s", char + str(i)) for i in range(n))),))
    else:
        # many objects, so that references need several bytes
        g = (("r", 0), (("arr", tuple(("r", 1 + i) for i in range(n)) + (("r", n // 2), ("r", n)), 0, ()),)
             + tuple(("obj", (("i", ("i", i)),)) for i in range(n)))
    run_roundtrip(g, s)


def large() -> Any:
    sizes = st.one_of(
        st.sampled_from([126, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025]),
        st.integers(20, 400),
    )
    big = st.sampled_from([16383, 16384, 16385, 65535, 65536])
    return st.one_of(
        st.tuples(st.sampled_from(["str", "bytes", "int", "resizable"]), st.one_of(sizes, big), st.integers(0, 300), st.sampled_from("aéĀ😀")),
        st.tuples(st.sampled_from(["list", "obj", "map", "set", "refs", "mixed", "mixed", "mixed-sparse"]), sizes, st.integers(0, 300), st.sampled_from("aéĀ😀")),
    )


def run_equal_keys(spec: tuple, s: Stats) -> None:
    """Maps and Sets whose keys are equal immutable objects."""
    from v8serialize import loads
    from v8serialize.jstypes import JSMap, JSRegExp, JSSet
    from datetime import datetime, timezone

    kind, ms, keys = spec
    if kind == "date":
        ks: list = [datetime.fromtimestamp(ms + k // 2, timezone.utc) for k in keys]
    elif kind == "regexp":
        ks = [JSRegExp("a" * (k // 2 + ms % 3)) for k in keys]
    else:
        ks = [tuple([ms, k // 2]) for k in keys]
    m: Any = JSMap()
    for i, k in enumerate(ks):
        m[k] = i
    se: Any = JSSet(ks)
    merged = any(a is not b and a == b for a in ks for b in ks)
    s.nontrivial(len(keys) > 1)
    out, out_s = loads(dump_all(m)), loads(dump_all(se))
    ok = len(out) == len(ks) and list(out.values()) == list(range(len(ks))) and len(out_s) == len(ks)
    if merged and not ok and s.is_known("map-equal-immutable-keys"):
        return
    check(ok, f"a JSMap of {len(ks)} distinct keys became {out!r}")


def equal_keys() -> Any:
    return st.tuples(
        st.sampled_from(["date", "regexp", "tuple"]),
        st.integers(0, 10**9),
        st.lists(st.integers(0, 7), max_size=5, unique=True),
    )


def probe_equal_keys() -> bool:
    from datetime import datetime

    from v8serialize import dumps, loads
    from v8serialize.jstypes import JSMap

    m: Any = JSMap()
    m[datetime(2020, 1, 1)] = 1
    m[datetime(2020, 1, 1)] = 2
    return len(m) == 2 and len(loads(dumps(m))) == 1


KNOWN_PROBES = {"map-equal-immutable-keys": probe_equal_keys}

# ------------------------------------------------------------- subclasses

subleaf = st.tuples(
    st.just("leaf"),
    st.one_of(gens.ints, gens.strings, gens.floats, st.booleans(), st.none(), st.binary(max_size=6)),
    st.integers(0, 2),
)
SUB_KINDS = ["list", "tuple", "dict", "set", "frozenset", "JSObject", "JSArray", "JSMap", "JSSet", "JSErrorData", "ValueError", "datetime", "bytearray", "JSPrimitiveObject", "JSRegExp"]


def subclass(cls: type) -> type:
    """A subclass with nothing of its own."""
    if cls not in _subclasses:
        _subclasses[cls] = type(cls.__name__, (cls,), {"__module__": cls.__module__})
    return _subclasses[cls]


_subclasses: dict = {}


def build_sub(x: tuple, sub: bool, n: list) -> Any:
    """The value with, or without, subclasses of the types it's made of."""
    import datetime

    from v8serialize import jstypes

    kind, body, form = x
    if kind == "leaf":
        if isinstance(body, bytes):
            n[0] += 1
            body = body + n[0].to_bytes(2, "big")  # (equal ones can become one)
        return dressed(body, form) if sub else body
    name = SUB_KINDS[kind]
    cls: Any = getattr(jstypes, name, None) or {"datetime": datetime.datetime, "ValueError": ValueError}.get(name) or getattr(__import__("builtins"), name)
    if sub and form and name not in ("JSObject", "JSArray", "JSRegExp", "JSPrimitiveObject"):
        cls = subclass(cls)
    n[0] += 1
    uid = n[0]
    if name == "datetime":
        return cls(2000, 1, 1, microsecond=uid * 1000, tzinfo=datetime.timezone.utc)
    if name == "bytearray":
        return cls(uid.to_bytes(2, "big"))
    keys = [build_sub(b, sub, n) for b in body if b[0] == "leaf"]
    strs = [dressed(str(k.value if isinstance(k, Enum) else k), form if sub else 0) for k in keys] + [""]
    if name == "JSErrorData":
        return cls(message=strs[0], stack=strs[-1], cause=build_sub(body[-1], sub, n) if body else None)
    if name == "ValueError":
        return cls(str(uid))
    if name == "JSRegExp":
        return cls(dressed(f"x{uid}", form if sub else 0))
    if name == "JSPrimitiveObject":
        keys = [k for k in keys if k is not None and not isinstance(k, bytes)] or [uid]
        if keys[0] in n[1:]:  # (equal immutable ones can become one)
            keys = [f"another {uid}"]
        n.append(keys[0])
        return cls(keys[0])
    if name in ("dict", "JSMap"):
        return cls(zip(keys, [build_sub(b, sub, n) for b in body]))
    if name in ("set", "frozenset"):
        return cls([f"only {uid}"])  # (the order of more may differ)
    if name == "JSSet":
        return cls(keys)
    if name == "JSObject":
        return cls(zip(strs, [build_sub(b, sub, n) for b in body]))
    return cls([uid, *(build_sub(b, sub, n) for b in body)])


def sub_specs(depth: int) -> Any:
    if depth == 0:
        return subleaf
    below = st.one_of(subleaf, sub_specs(depth - 1))
    return st.tuples(st.integers(0, len(SUB_KINDS) - 1), st.lists(below, max_size=4).map(tuple), st.integers(0, 1))


sub_spec = sub_specs(3)


def run_subclasses(x: tuple, s: Stats) -> None:
    """Instances of subclasses of the supported types are written as those types are."""
    plain, sub = build_sub(x, False, [0]), build_sub(x, True, [0])
    s.nontrivial(True)
    s.label(SUB_KINDS[x[0]])
    a, b = dump_all(plain), dump_all(sub)
    if isinstance(plain, ValueError):
        return
    check(a == b, lambda: f"{sub!r} is written as {b.hex()}, but {plain!r} as {a.hex()}")


CASES = [
    Case("roundtrip", run_roundtrip, lambda: gens.specs(), quick=24000, thorough=600000),
    Case("wide", run_roundtrip, lambda: gens.specs(max_nodes=14, fan=7), quick=8000, thorough=300000),
    Case("baseline", run_baseline, lambda: gens.specs(), quick=8000, thorough=200000),
    Case(
        "prims",
        run_prims,
        lambda: gens.prims,
        fixed=lambda: [("i", i) for i in gens.INT_EDGES]
        + [("f", f) for f in gens.FLOAT_EDGES]
        + [("s", x) for x in gens.STR_EDGES],
        quick=10000,
        thorough=400000,
    ),
    Case("large", run_large, large, quick=300, thorough=9000),
    Case("subclasses", run_subclasses, lambda: sub_spec, quick=5000, thorough=100000),
    Case("equal_keys", run_equal_keys, equal_keys, quick=1000, thorough=20000),
]
