"""C07: serializing is deterministic, reads only, and fails only as documented."""

from __future__ import annotations

import array
import datetime as dt
import decimal
import fractions
import re
import types
from typing import Any

from vk import gens, refcodec, st
from vk.common import FEATURES, GATED, all_features, dump_all, feature_set, needs
from vk.core import Case, Stats, check
from vk.graph import utf16
from vk.snapshot import snapshot

RULE = (
    "Generated value graphs serialized repeatedly; the same with one fault (an "
    "unsupported object, an out-of-range element, or something that needs a disabled "
    "feature) planted in a container of the graph that the writer reaches; property keys "
    "of every type; values that a step changes while they are written; sequences of writable-stream calls with in- and out-of-range "
    "arguments. Non-trivial: at least two reachable objects, or the fault is below the "
    "root, or a call is refused."
)


def run_pure(spec: tuple, s: Stats) -> None:
    from v8serialize import Encoder, dumps

    b = gens.Build(spec)
    s.nontrivial(len(b.reachable()) > 1)
    # reading contents may itself create things (e.g. error stacks), so do it before too
    snapshot(b.value)
    before = snapshot(b.value)
    first = dump_all(b.value)
    check(type(first) is bytes, f"dumps() returned {type(first)}")
    after = snapshot(b.value)
    check(before == after, lambda: f"serializing changed the value: {_diff(before, after)}")
    check(dump_all(b.value) == first, "serializing the same value twice gives different bytes")
    enc = Encoder(features=all_features())
    e1, e2 = enc.encode(b.value), enc.encode(b.value)
    check(e1 == e2 == first, "an Encoder gives other bytes than dumps()")
    check(e1 is not e2, "an Encoder returned the same buffer twice")
    refcodec.parse(first)  # raises Malformed
    if not b.kinds() & {"pyset", "fset"}:
        check(dump_all(gens.Build(spec).value) == first, "an identically made value gives different bytes")
    if not needs(b) & GATED:
        plain = dumps(b.value)
        check(plain == dumps(b.value), "serializing the same value twice gives different bytes")
        refcodec.parse(plain)


def _diff(a: list, b: list) -> str:
    for x, y in zip(a, b):
        if x != y:
            return f"{x} became {y}"
    return f"{len(a)} objects became {len(b)}"


# Faults -----------------------------------------------------------------------


class Thing:
    pass


class Unhashable:
    __hash__ = None  # type: ignore[assignment]

    def __eq__(self, other: object) -> bool:
        return NotImplemented


UNSUPPORTED = {
    "object": object,
    "instance": Thing,
    "unhashable": Unhashable,
    "class": lambda: type("Klass", (), {}),
    "function": lambda: (lambda: None),
    "module": lambda: types.ModuleType("m"),
    "complex": lambda: complex(1.5, -2),
    "decimal": lambda: decimal.Decimal("0.1"),
    "fraction": lambda: fractions.Fraction(1, 3),
    "date": lambda: dt.date(2020, 1, 2),
    "time": lambda: dt.time(1, 2),
    "timedelta": lambda: dt.timedelta(1),
    "tzinfo": lambda: dt.timezone(dt.timedelta(hours=1)),
    "ellipsis": lambda: ...,
    "generator": lambda: (i for i in range(3)),
    "iterator": lambda: iter([1, 2]),
    "slice": lambda: slice(1, 2),
    "match": lambda: re.match("a", "a"),
    "namespace": lambda: types.SimpleNamespace(a=1),
}


def _feature_view() -> Any:
    from v8serialize.jstypes import JSArrayBuffer, JSFloat16Array

    return JSFloat16Array(JSArrayBuffer(b"\0" * 8))


def _cyclic_error(n: int, exc: bool) -> Any:
    from v8serialize.jstypes import JSError, JSErrorData

    es: list[Any] = [JSErrorData(f"e{i}") if (i + n) % 2 else JSError(f"e{i}") for i in range(1 + n % 3)]
    for i, e in enumerate(es):
        e.cause = es[(i + 1) % len(es)]
    if exc:
        es[0].cause = [es[-1].cause] if len(es) > 1 else {"k": es[0]}
        if len(es) > 1:
            es[0].cause = (es[1],)
    return es[0]


def _deep(n: int) -> Any:
    from v8serialize.jstypes import JSObject

    out: Any = []
    for i in range(20_000):
        out = [out] if (i + n) % 3 else JSObject(a=out) if n % 2 else {1: out}
    return out


def make_fault(kind: str, n: int) -> tuple[Any, str, Any]:
    """(object, the error expected, its value attribute if that's known)."""
    from v8serialize import jstypes as js
    from v8serialize.jstypes._v8 import V8SharedObjectReference, V8SharedValueId

    bad: Any = None
    if kind == "unsupported":
        names = list(UNSUPPORTED)
        bad = UNSUPPORTED[names[n % len(names)]]()
        return bad, "unhandled", bad
    if kind == "view":
        bad = [js.JSUint8Array, js.JSInt16Array, js.JSDataView][n % 3](array.array("B", [1, 2, 3, 4]))
        return bad, "unhandled", bad
    ids = [-1, -(2**40), 2**32, 2**40, 2**64]
    x: Any = ids[n % len(ids)]
    if kind == "sab":
        return js.JSSharedArrayBuffer(x), "encode", None
    if kind == "abt":
        return js.JSArrayBufferTransfer(x), "encode", None
    if kind == "shared":
        return V8SharedObjectReference(V8SharedValueId(x)), "encode", None
    if kind == "max":
        return js.JSArrayBuffer(b"ab", max_byte_length=2**32 + n), "encode", None
    if kind == "offset":
        buf = js.JSSharedArrayBuffer(1) if n % 2 else js.JSArrayBufferTransfer(1)
        return js.JSUint8Array(buf, 2**32 + n, 1), "encode", None
    if kind == "pattern":
        pats = [re.compile("a", re.X), re.compile("b", re.X | re.I), re.compile(b"\xff"), re.compile(b"\x80a", re.I)]
        return pats[n % len(pats)], "any", None
    if kind == "deep":
        return _deep(n), "encode", None
    if kind == "float16":
        bad = _feature_view()
        return bad, "unhandled", bad
    if kind == "unicode_sets":
        from v8serialize.constants import JSRegExpFlag as F

        flags = F.UnicodeSets | [F.NoFlag, F.Global, F.IgnoreCase | F.Sticky, F.HasIndices][n % 4]
        return js.JSRegExp("a" * (n % 3), flags), "feature", None
    if kind == "cyclic":
        return _cyclic_error(n, bool(n & 1)), "cyclic", None
    raise AssertionError(kind)


FAULTS = ["sab", "abt", "shared", "max", "offset", "pattern", "view"]
FAULTS += ["unsupported"] * len(FAULTS)


def plant(b: gens.Build, bad: Any, where: int, how: int) -> bool:
    """Put the object in one of the reachable mutable containers."""
    spots = [i for i in b.reachable() if b.nodes[i][0] in ("obj", "arr", "sarr", "map", "set", "dict", "pyset", "list", "err")]
    while spots:
        i = spots.pop(where % len(spots))
        n, o = b.nodes[i], b.objects[i]
        t = n[0]
        if t == "obj":
            o[["zz", *[k for k, _ in n[1]]][how % (1 + len(n[1]))]] = bad
        elif t in ("arr", "sarr"):
            if how % 3 == 0:
                o["zz"] = bad
            else:
                o[how % (len(o.array) + 1 if t == "arr" else n[1])] = bad
        elif t == "map":
            keys = list(o)
            if how % 3 == 0:
                o[bad] = 1
            else:
                o["zz" if how % 3 == 1 or not keys else keys[how % len(keys)]] = bad
        elif t == "set":
            o.add(bad)
        elif t == "dict":
            target = b.objects[i] if n[1] != 2 else b.info[i]
            if n[1] == 2:
                continue  # a read-only view; its dict isn't kept
            keys = list(target)
            if how % 3 == 0 and getattr(bad, "__hash__", None):
                try:
                    target[bad] = 1
                except TypeError:
                    continue
            else:
                target["zz" if how % 3 == 1 or not keys else keys[how % len(keys)]] = bad
        elif t == "pyset":
            try:
                o.add(bad)
            except TypeError:
                continue
        elif t == "list":
            o.insert(how % (len(o) + 1), bad)
        elif t == "err":
            o.cause = bad
        return True
    return False


def check_refused(value: Any, expected: str, culprit: Any, features: Any) -> None:
    from v8serialize import EncodeV8SerializeError, V8SerializeError, dumps
    from v8serialize.encode import (
        FeatureNotEnabledEncodeV8SerializeError,
        UnhandledValueEncodeV8SerializeError,
    )
    from v8serialize import IllegalCyclicReferenceV8SerializeError

    kinds: dict[str, type] = {
        "unhandled": UnhandledValueEncodeV8SerializeError,
        "encode": EncodeV8SerializeError,
        "cyclic": IllegalCyclicReferenceV8SerializeError,
        "any": V8SerializeError,
        "feature": FeatureNotEnabledEncodeV8SerializeError,
    }
    try:
        out = dumps(value, features=features)
    except kinds[expected] as e:
        check(isinstance(e, V8SerializeError), f"{type(e)} is not a V8SerializeError")
        check(isinstance(e.message, str) and e.message, "the error has no message")
        str(e)
        if culprit is not None:
            check(e.value is culprit, lambda: f"the error's value is {e.value!r:.200}, not the unsupported {culprit!r:.200}")
    else:
        check(False, f"serialized as {out[:200]!r}")


def run_planted(case: tuple, s: Stats) -> None:
    spec, kind, n, where, how = case
    b = gens.Build(spec)
    bad, expected, culprit = make_fault(kind, n)
    good = dump_all([1, "x"])
    if not plant(b, bad, where, how):
        s.label("(planted at the root)")
        value = bad
    else:
        value = b.value
        s.nontrivial()
    s.label(kind)
    features = all_features()
    if kind in ("float16", "cyclic", "unicode_sets"):
        if needs(b) & GATED:
            s.label("(has other faults)")
            return
        without = {"float16": "Float16Array", "cyclic": "CircularErrorCause", "unicode_sets": "RegExpUnicodeSets"}[kind]
        features = feature_set(f for f in FEATURES if f != without)
    if kind == "deep":
        check_refused(value, expected, culprit, features)
        return
    snapshot(value)
    before = snapshot(value)
    check_refused(value, expected, culprit, features)
    after = snapshot(value)
    check(before == after, lambda: f"failing to serialize changed the value: {_diff(before, after)}")
    check_refused(value, expected, culprit, features)
    check(dump_all([1, "x"]) == good, "a failure affects a later call")


def planted(kinds: list[str]) -> Any:
    return st.tuples(gens.specs(), st.sampled_from(kinds), st.integers(0, 200), st.integers(0, 40), st.integers(0, 40))


def run_encoder_after_failure(case: tuple, s: Stats) -> None:
    """An Encoder that failed gives what a new one gives."""
    from v8serialize import Encoder, V8SerializeError

    spec, kind, n, where, how = case
    b = gens.Build(spec)
    expected = dump_all(gens.Build(spec).value) if not b.kinds() & {"pyset", "fset"} else None
    bad, _, _ = make_fault(kind, n)
    enc = Encoder(features=all_features())
    faulty = gens.Build(spec)
    s.nontrivial(plant(faulty, bad, where, how))
    for value in (faulty.value, [faulty.value, bad]):
        try:
            enc.encode(value)
        except V8SerializeError:
            pass
    if expected is not None:
        check(bytes(enc.encode(b.value)) == expected, "an Encoder that failed gives other bytes afterwards")


# Values that change while they're written ------------------------------------------


def alter(b: gens.Build, where: int, what: int) -> str | None:
    """Change one of the mutable containers of the graph.

    (Not buffers: what is written of their views depends on their size by then.)
    """
    from v8serialize.jstypes import JSHole

    spots = [i for i in b.reachable() if b.nodes[i][0] in ("obj", "arr", "sarr", "map", "set", "dict", "pyset", "list", "err")]
    if not spots:
        return None
    i = spots[where % len(spots)]
    t, o = b.nodes[i][0], b.objects[i]
    if t == "dict" and b.nodes[i][1] == 2:
        o = b.info[i] if isinstance(b.info[i], dict) else None
        if o is None:
            return None
    more, k = what % 3, what // 3
    if t in ("arr", "sarr"):
        n = len(o.array)
        if more == 0:
            o[n + k % 3 if n + 3 < 2**32 else 0] = k
        elif more == 1 and n:
            o.array.resize(n - 1 - k % n)
        elif n:
            o[k % n] = JSHole if k % 2 else k
        o[f"new{k}"] = 1
    elif t in ("obj", "map", "dict"):
        if more == 0 or not o:
            o[f"new{k}"] = k
        else:
            key = list(o)[k % len(o)]
            if more == 1:
                del o[key]
            else:
                o[key] = k
    elif t in ("set", "pyset"):
        if more == 0 or not o:
            o.add(f"new{k}")
        else:
            o.discard(list(o)[k % len(o)])
    elif t == "list":
        if more == 0 or not o:
            o.insert(k % (len(o) + 1), k)
        elif more == 1:
            del o[k % len(o)]
        else:
            o[k % len(o)] = k
    elif t == "err":
        o.message, o.stack, o.cause = f"new{k}", [None, "s"][more % 2], [None, k, o][more]
    return t


def run_changing(case: tuple, s: Stats) -> None:
    """A step changes the value while it's being written."""
    from v8serialize import default_encode_steps, dumps, loads

    spec, changes = case
    b = gens.Build(spec)
    good = dump_all([1, "x"])
    count = 0
    done: list[str] = []

    def step(value: Any, /, ctx: Any, next: Any) -> None:
        nonlocal count
        count += 1
        for at, after, where, what in changes:
            if at == count and not after:
                done.append(alter(b, where, what) or "(none)")
        at_me = count
        next(value)
        for at, after, where, what in changes:
            if at == at_me and after:
                done.append(alter(b, where, what) or "(none)")

    try:
        out = dumps(b.value, encode_steps=[step, *default_encode_steps], features=all_features())
    except Exception as e:
        # It isn't documented which
        s.label(f"refused with {type(e).__name__}")
        out = None
    s.label(*done)
    s.nontrivial(any(d != "(none)" for d in done))
    if out is not None:
        try:
            refcodec.parse(out)
        except refcodec.Malformed as e:
            check(False, f"malformed output: {e}")
        loads(out)
    check(dump_all([1, "x"]) == good, "a change affects a later call")


def changing() -> Any:
    change = st.tuples(st.integers(1, 12), st.booleans(), st.integers(0, 20), st.integers(0, 20))
    kinds = ["obj", "arr", "sarr", "map", "set", "dict", "pyset", "list", "err", "bytearray", "ab", "view", "tuple", "date", "prim"]
    return st.tuples(gens.specs(kinds), st.lists(change, min_size=1, max_size=3).map(tuple))


# Property keys ------------------------------------------------------------------


class Props:
    def __init__(self, kind: str, items: list) -> None:
        self.kind, self.items = kind, items


def props_step(value: Any, /, ctx: Any, next: Any) -> None:
    if not isinstance(value, Props):
        next(value)
    elif value.kind == "obj":
        ctx.stream.write_js_object(value.items, ctx=ctx, identity=value)
    elif value.kind == "dense":
        ctx.stream.write_js_array_dense([None], ctx=ctx, properties=value.items, identity=value)
    else:
        ctx.stream.write_js_array_sparse(value.items, ctx=ctx, length=7, identity=value)


def run_keys(case: tuple, s: Stats) -> None:
    """A step that writes properties with arbitrary keys."""
    from v8serialize import EncodeV8SerializeError, default_encode_steps, dumps

    spec, kind, keys, shape = case
    b = gens.Build(spec)
    ks = [b.resolve(k, None) for k in keys]
    objs = [b.obj(k) for k in ks]
    p = Props(kind, [(o, i) for i, o in enumerate(objs)])
    value = [p, [1, p], {"a": p}][shape]
    ok = all(k[0] in ("s", "i", "f") for k in ks)
    s.nontrivial(len(keys) > 0)
    s.label("good" if ok else "bad")
    steps = [props_step, *default_encode_steps]
    try:
        out = dumps(value, encode_steps=steps, features=all_features())
    except EncodeV8SerializeError:
        check(not ok, "keys that are strings and numbers are refused")
        return
    check(ok, lambda: f"keys {objs!r:.300} were written as {out!r:.200}")
    names = [utf16(str(k[1])) if k[0] != "f" else refcodec.js_number(k[1]) for k in ks]
    if len(set(names)) < len(names):
        s.label("(repeated keys)")
        return
    graph, _ = refcodec.parse(out)
    nodes = graph["nodes"]
    i = next(i for i, n in enumerate(nodes) if n[0] == ("obj" if kind == "obj" else "arr") and _is_props(n, kind))
    n = nodes[i]
    got = n[1] if kind == "obj" else [[str(k), v] for k, v in n[2] if not (kind == "dense" and v == ["n"])] + n[3]
    exp = {k: gens.num(j) for j, k in enumerate(names)}
    check(dict(got) == exp, lambda: f"keys {list(exp)} became {[k for k, _ in got]}")


def _is_props(n: list, kind: str) -> bool:
    return kind == "obj" or (n[1] == 7 if kind == "sparse" else n[1] == 1)


def keys() -> Any:
    good = st.one_of(
        st.tuples(st.just("s"), gens.strings), st.tuples(st.just("i"), gens.ints),
        st.tuples(st.just("f"), gens.floats),
    )  # fmt: skip
    return st.tuples(
        gens.specs(max_nodes=3),
        st.sampled_from(["obj", "dense", "sparse"]),
        st.lists(st.one_of(good, good, good, gens.values), max_size=4),
        st.integers(0, 2),
    )


# Stream calls --------------------------------------------------------------------


def run_stream(calls: tuple, s: Stats) -> None:
    from v8serialize import V8SerializeError
    from v8serialize.encode import WritableTagStream
    from v8serialize.constants import JS_OBJECT_KEY_TAGS

    w = WritableTagStream()
    w.write_header()
    written = 0
    for name, arg, constrained in calls:
        before = bytes(w.data)
        try:
            if constrained:
                with w.constrain_tags(JS_OBJECT_KEY_TAGS):
                    getattr(w, f"write_{name}")(arg)
            else:
                getattr(w, f"write_{name}")(arg)
        except (V8SerializeError, UnicodeEncodeError):
            s.nontrivial()
            s.label(f"{name} refused")
            check(bytes(w.data) == before, f"write_{name}({arg!r:.100}) failed but wrote {bytes(w.data)[len(before):]!r:.100}")
            check(constrained or not _valid(name, arg), f"write_{name}({arg!r:.100}) is refused")
        else:
            s.label(f"{name} written")
            check(bytes(w.data).startswith(before) and len(w.data) > len(before), f"write_{name} wrote nothing")
            check(_valid(name, arg), f"write_{name}({arg!r:.100}) wrote {bytes(w.data)[len(before):]!r:.100}")
            check(not constrained or name not in ("bigint",), f"{name} was written where only keys are allowed")
            written += 1
        check(w.allowed_tags is None, lambda: f"after write_{name}({arg!r:.100}), only some tags are allowed")
    r = refcodec.Reader(bytes(w.data))
    r.header()
    for _ in range(written):
        r._value()
    check(r.pos == len(w.data), "the written values end before the end of the data")


def _valid(name: str, arg: Any) -> bool:
    if name == "int32":
        return -(2**31) <= arg < 2**31
    if name == "uint32":
        return 0 <= arg < 2**32
    if name == "double":
        try:
            float(arg)
        except OverflowError:
            return False
        return True
    if name == "string_onebyte":
        return all(ord(c) < 256 for c in arg)
    if name == "string_utf8":
        return not any(0xD800 <= ord(c) < 0xE000 for c in arg)
    return True


def stream_calls() -> Any:
    big = st.one_of(gens.ints, st.sampled_from([10**308, 10**309, -(10**400), 2**1024, 2**1023]))
    call = st.one_of(
        st.tuples(st.just("int32"), gens.ints),
        st.tuples(st.just("uint32"), gens.ints),
        st.tuples(st.just("bigint"), big),
        st.tuples(st.just("double"), st.one_of(gens.floats, big)),
        st.tuples(st.sampled_from(["string_onebyte", "string_twobyte", "string_utf8"]), gens.strings),
    )
    return st.lists(st.tuples(call, st.sampled_from([False, False, False, True])).map(lambda x: (*x[0], x[1])), min_size=1, max_size=8).map(tuple)


CASES = [
    Case("pure", run_pure, lambda: gens.specs(), quick=12000, thorough=300000),
    Case("planted", run_planted, lambda: planted(FAULTS), quick=16000, thorough=400000),
    Case("feature", run_planted, lambda: planted(["float16", "cyclic", "unicode_sets"]), quick=6000, thorough=150000),
    Case("deep", run_planted, lambda: planted(["deep"]), quick=100, thorough=2000),
    Case("encoder", run_encoder_after_failure, lambda: planted(FAULTS), quick=3000, thorough=80000),
    Case("changing", run_changing, changing, quick=8000, thorough=200000),
    Case("keys", run_keys, keys, quick=8000, thorough=200000),
    Case("stream", run_stream, stream_calls, quick=10000, thorough=300000),
]
