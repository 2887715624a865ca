"""C23: JavaScript values that aren't containers compare and hash by their contents."""

from __future__ import annotations

import array
import struct
from typing import Any

from vk import gens, st
from vk.core import Case, Stats, check

RULE = (
    "Small collections of values - regular expressions, wrapper objects, buffers, views of every type on "
    "every kind of buffer, ids of shared values, undefined, hole - drawn so that many have the same contents in "
    "another form. All pairs and triples are compared with a reference definition of having the same "
    "contents, looked up in dicts and sets, and hashed again after the buffers that can change have "
    "changed. Non-trivial: two distinct values of the collection are equal and hashable, or are views of "
    "different types."
)
ASSUMPTIONS = [
    "Whether a DataView equals a typed array with the same items isn't specified (it depends on the Python version).",
    "NaN isn't equal to NaN, except in one and the same view.",
]

FMT = {
    "Int8Array": "b", "Uint8Array": "B", "Uint8ClampedArray": "B", "Int16Array": "h", "Uint16Array": "H",
    "Int32Array": "i", "Uint32Array": "I", "Float16Array": "e", "Float32Array": "f", "Float64Array": "d",
    "BigInt64Array": "q", "BigUint64Array": "Q", "DataView": "B",
}  # fmt: skip
TAGS = list(FMT)
SIGNED = "bhiqefd"


class Value:
    """A value, what it's equal to (by kind and key), and how to change it."""

    def __init__(self, v: Any, kind: str, key: Any, change: Any = None, mutable: bool = False) -> None:
        self.v, self.kind, self.key, self.change, self.mutable = v, kind, key, change, mutable

    def same(self, other: "Value") -> bool | None:
        if "inaccessible" in (self.kind, other.kind):
            return None
        if self.kind != other.kind:
            if {self.kind, other.kind} == {"view", "dataview"}:
                return None
            return False
        return self is other or self.key == other.key


def make(spec: tuple, pool: dict | None = None) -> Value:
    from v8serialize import jstypes as j
    from v8serialize.constants import JSRegExpFlag, SerializationTag
    from v8serialize.jstypes._v8 import V8SharedObjectReference, V8SharedValueId

    kind = spec[0]
    if kind == "re":
        f = JSRegExpFlag.NoFlag
        for x in JSRegExpFlag:
            if str(x) in spec[2]:
                f |= x
        return Value(j.JSRegExp(spec[1], f), "re", (spec[1] or "(?:)", int(f)))
    if kind == "prim":
        v = gens.prim_value(spec[1])
        o = j.JSPrimitiveObject(v)
        if isinstance(v, bool):
            return Value(o, "prim", ("bool", v))
        return Value(o, "prim", ("str" if isinstance(v, str) else "number", v))
    if kind == "big":
        return Value(j.JSPrimitiveObject(spec[1], SerializationTag.kBigIntObject), "prim", ("bigint", spec[1]))
    if kind == "id":
        cls = [j.JSSharedArrayBuffer, j.JSArrayBufferTransfer, V8SharedObjectReference][spec[1]]
        return Value(cls(V8SharedValueId(spec[2])), f"id{spec[1]}", spec[2])  # type: ignore[arg-type]
    if kind == "const":
        return Value([j.JSUndefined, j.JSHole][spec[1]], "const", spec[1])
    if kind == "buffer":
        o, change, mutable = buffer(spec[1], spec[2])
        key = (bytes(spec[1]), {2: 4, 4: 0}.get(spec[2]))  # resizable by
        return Value(o, "buffer", key, change, mutable)
    if kind == "on":
        # A view on a buffer that other views are on
        _, tag, data, base, length, offset = spec
        pool = {} if pool is None else pool
        if (data, base) not in pool:
            pool[data, base] = storage(data, base)
        o, change, mutable = pool[data, base]
        fmt = FMT[tag]
        got = struct.unpack_from(f"{length}{fmt}", data, offset * struct.calcsize(fmt))
        view = getattr(j, f"JS{tag}")(o, item_offset=offset, item_length=length)
        return Value(view, "dataview" if tag == "DataView" else "view", got, change, mutable)
    if kind == "view":
        _, tag, items, pad, base, ro, tracking = spec
        fmt = FMT[tag]
        data = b"\0" * (pad * struct.calcsize(fmt)) + struct.pack(f"{len(items)}{fmt}", *(item(x, fmt) for x in items))
        if base < 7:
            o, change, mutable = storage(data, base)
        else:
            o, change, mutable = [j.JSSharedArrayBuffer, j.JSArrayBufferTransfer][pad % 2](0), None, False  # type: ignore[arg-type, assignment]
        cls = getattr(j, f"JS{tag}")
        length = None if tracking else len(items)
        view = cls(o, item_offset=pad, item_length=length, readonly=True if ro else None)
        if base >= 7:
            return Value(view, "inaccessible", None)
        got = tuple(struct.unpack(f"{len(items)}{fmt}", data[pad * struct.calcsize(fmt) :]))
        return Value(view, "dataview" if tag == "DataView" else "view", got, change, mutable)
    raise AssertionError(kind)


def storage(data: bytes, base: int) -> tuple:
    if base < 4:
        return buffer(data, base)
    if base == 4:
        return data, None, False
    return raw(bytearray(data) if base == 5 else array.array("B", data))


def raw(o: Any) -> tuple:
    def change() -> None:
        if len(o):
            o[0] ^= 1

    return o, change, True


def item(x: Any, fmt: str) -> Any:
    if fmt in "efd":
        return float(x)
    return int(x) if fmt in SIGNED or x >= 0 else 255


def buffer(data: bytes, how: int) -> tuple:
    from v8serialize.jstypes import JSArrayBuffer

    if how == 0:
        return JSArrayBuffer(data, readonly=True), None, False
    if how == 1:
        o: Any = JSArrayBuffer(data)
    elif how == 2:
        o = JSArrayBuffer(data, max_byte_length=len(data) + 4)
    elif how == 4:
        o = JSArrayBuffer(data, max_byte_length=len(data))
    elif how == 5:  # items of several bytes, signed or floats
        fmt = next(f for f in ("dqbc"[len(data) // 8 % 4], "f", "i", "H", "b") if len(data) % struct.calcsize(f) == 0)
        return JSArrayBuffer(memoryview(data).cast(fmt), copy_data=False, readonly=True), None, False
    elif how == 6:
        fmt = next(f for f in "dihb" if len(data) % struct.calcsize(f) == 0)
        o = JSArrayBuffer(array.array(fmt, data), copy_data=False)
    elif how == 7 and len(data) % 2 == 0 and data:
        return JSArrayBuffer(memoryview(data).cast("B", (2, len(data) // 2)), copy_data=False, readonly=True), None, False
    else:
        return JSArrayBuffer(memoryview(data), copy_data=False, readonly=True), None, False

    def change() -> None:
        with memoryview(o) as m:
            if len(m):
                m[0] ^= 1
                return
        if o.max_byte_length:
            o.resize(1)

    return o, change, True


def hash_of(v: Any) -> int | None:
    try:
        return hash(v)
    except (TypeError, ValueError):
        return None


def run_laws(specs: tuple, s: Stats) -> None:
    pool: dict = {}
    vs = [make(x, pool) for x in specs]
    vs += [make(x) for x in specs[:2]]  # and copies
    check_laws(vs, s)
    # Another time, after the buffers that can be changed have been
    hashes = [hash_of(x.v) for x in vs]
    for x, h in zip(vs, hashes):
        check(not (x.mutable and h is not None), lambda: f"{x.v!r} can change and has a hash")
        if x.change is not None:
            x.change()
    for x, h in zip(vs, hashes):
        check(hash_of(x.v) == h, lambda: f"the hash of {x.v!r} changes from {h} to {hash_of(x.v)}")
        check(x.v == x.v, lambda: f"{x.v!r} isn't equal to itself")


def check_laws(vs: list[Value], s: Stats) -> None:
    n = len(vs)
    eq = [[False] * n for _ in range(n)]
    for i, a in enumerate(vs):
        for k, b in enumerate(vs):
            got = a.v == b.v
            check(type(got) is bool, lambda: f"{a.v!r} == {b.v!r} gives {got!r}")
            check((a.v != b.v) is not got, lambda: f"!= of {a.v!r} and {b.v!r} isn't the opposite of ==")
            eq[i][k] = got
            exp = a.same(b)
            if exp is not None:
                check(got is exp, lambda: f"{a.v!r} == {b.v!r} is {got}")
    for i, a in enumerate(vs):
        check(eq[i][i], lambda: f"{a.v!r} isn't equal to itself")
        for k, b in enumerate(vs):
            check(eq[i][k] == eq[k][i], lambda: f"{a.v!r} == {b.v!r} is {eq[i][k]} but not the other way round")
            if not eq[i][k]:
                continue
            ha, hb = hash_of(a.v), hash_of(b.v)
            if ha is not None and hb is not None:
                check(ha == hb, lambda: f"{a.v!r} and {b.v!r} are equal but their hashes aren't")
                s.nontrivial(i != k)
            for m, c in enumerate(vs):
                if eq[k][m] and not has_nan(a, b, c):
                    check(eq[i][m], lambda: f"{a.v!r} == {b.v!r} == {c.v!r}, but the first and last aren't equal")
        # "equal" to nothing else
        for other in (None, 0, "", b"", (), object()):
            check(a.v != other and not (a.v == other), lambda: f"{a.v!r} equals {other!r}")
    hashable = [i for i in range(n) if hash_of(vs[i].v) is not None]
    d = {}
    for i in hashable:
        d.setdefault(vs[i].v, i)
    for i in range(n):
        if i in hashable:
            exp_i = min(k for k in hashable if eq[k][i])
            check(vs[i].v in d and d[vs[i].v] == exp_i, lambda: f"a dict finds {vs[i].v!r} as {vs[d.get(vs[i].v, i)].v!r}")
    classes = []
    for i in hashable:
        if not any(eq[i][k] for k in classes):
            classes.append(i)
    check(len({vs[i].v for i in hashable}) == len(classes), "a set doesn't have one of each of the equal values")
    s.nontrivial(len({type(x.v) for x in vs if x.kind == "view"}) > 1)
    for x in vs:
        s.label(x.kind)


def has_nan(*vs: Value) -> bool:
    return any(x.kind in ("view", "dataview") and any(i != i for i in x.key) for x in vs)


def run_frozen(spec: tuple, s: Stats) -> None:
    """They have no attributes that can be set."""
    x = make(spec[0])
    # (JSUndefined and JSHole are enum members.)
    names = ["name", "value"] if x.kind == "const" else list(getattr(type(x.v), "__dataclass_fields__"))
    before = repr(x.v)
    h = hash_of(x.v)
    for name in names:
        for act in (lambda: setattr(x.v, name, spec[1]), lambda: delattr(x.v, name)):
            try:
                act()
            except (AttributeError, TypeError):
                continue
            check(False, lambda: f"{name} of {before} can be changed")
    check(repr(x.v) == before and hash_of(x.v) == h, lambda: f"{before} became {x.v!r}")
    s.nontrivial(x.kind != "const")
    s.label(x.kind)


def run_containers(spec: tuple, s: Stats) -> None:
    """Containers have no hash."""
    b = gens.Build(spec)
    for i in b.reachable():
        o = b.objects[i]
        if b.nodes[i][0] in ("obj", "arr", "sarr", "map", "set", "err", "bytearray"):
            s.nontrivial()
            s.label(b.nodes[i][0])
            check(hash_of(o) is None, lambda: f"a {type(o).__name__} can change and has a hash")


small = st.one_of(st.sampled_from([0, 1, 1, 2, -1, 127, 0.0, -0.0]), st.sampled_from([0, 1]))
floats = st.sampled_from([0.0, -0.0, 1.0, 0.5, float("inf"), float("nan")])
FLOATS = [t for t in TAGS if FMT[t] in "efd"]
views = st.one_of(
    *[st.tuples(st.just("view"), st.sampled_from(TAGS), st.lists(small, max_size=3).map(tuple), st.integers(0, 1), st.sampled_from([0, 3, 4, 0, 3, 4, 1, 2, 5, 6, 7]), st.booleans(), st.booleans())] * 2,
    st.tuples(st.just("view"), st.sampled_from(FLOATS), st.lists(floats, max_size=2).map(tuple), st.integers(0, 1), st.sampled_from([0, 3, 4]), st.booleans(), st.booleans()),
)
SAMPLES = [b"\xff" * 16, b"\0" * 16, b"\1" + b"\0" * 15, b"\0\0\x80?" * 4, bytes(range(16)), b"\xff\0\0\0\0\0\0\0" * 2]
ons = st.tuples(st.just("on"), st.sampled_from(TAGS), st.sampled_from(SAMPLES), st.sampled_from([0, 4, 3, 1, 5]), st.sampled_from([1, 1, 2, 0]), st.sampled_from([0, 0, 0, 1])).filter(lambda x: (x[4] + x[5]) * struct.calcsize(FMT[x[1]]) <= 16)
short = st.one_of(st.sampled_from([b"", b"\0", b"\0\0", b"\1", b"\1\0", b"ab"]), st.binary(max_size=2))
values = st.one_of(
    views,
    views,
    views,
    ons,
    st.tuples(st.just("buffer"), short, st.integers(0, 7)),
    st.tuples(st.just("re"), st.sampled_from(["", "(?:)", "a", "b"]), st.sampled_from(["", "g", "i", "gi", "v", "u"])),
    st.tuples(st.just("prim"), st.sampled_from([("i", 0), ("i", 1), ("f", 1.0), ("f", 0.0), ("f", -0.0), ("b", True), ("b", False), ("s", ""), ("s", "1"), ("i", 2**40)])),
    st.tuples(st.just("big"), st.sampled_from([0, 1, 2**40, -1])),
    st.tuples(st.just("id"), st.integers(0, 2), st.integers(0, 1)),
    st.tuples(st.just("const"), st.integers(0, 1)),
)


def alike() -> Any:
    """Collections in which many of the values have the same items."""

    def again(x: tuple, tags: list, bases: list) -> tuple:
        if x[0] != "view":
            return (x,)
        return (x, *(("view", t, x[2], x[3], b, False, False) for t, b in zip(tags, bases) if t in FLOATS or not any(isinstance(i, float) and (i != i or i in (0.5, float("inf"))) for i in x[2])))

    return st.builds(
        again,
        values,
        st.lists(st.sampled_from(TAGS), min_size=1, max_size=3),
        st.lists(st.sampled_from([0, 3, 4, 1]), min_size=3, max_size=3),
    )


def one_buffer() -> Any:
    def on(d: bytes, base: int, xs: list) -> tuple:
        return tuple((x[0], x[1], d, base, x[4], x[5]) for x in xs)

    return st.builds(on, st.sampled_from(SAMPLES), st.sampled_from([0, 4, 3, 1, 5]), st.lists(ons, min_size=2, max_size=5))


def buffers() -> Any:
    """Buffers that have the same bytes, held in different ways."""
    nans = struct.pack("<dd", float("nan"), 1.5)
    datas = st.one_of(st.sampled_from([*SAMPLES, nans, nans[:8], b"\x80", b"\x80\0", b"\0\0\0\x80", b"\2\0\1\1", b""]), short)
    return st.builds(
        lambda data, hows, other: tuple(("buffer", data, h) for h in hows) + other,
        datas,
        st.lists(st.integers(0, 7), min_size=2, max_size=4),
        st.lists(st.tuples(st.just("buffer"), datas, st.integers(0, 7)), max_size=2).map(tuple),
    )


CASES = [
    Case("buffers", run_laws, buffers, quick=3000, thorough=60000),
    Case("one buffer", run_laws, one_buffer, quick=6000, thorough=150000),
    Case("laws", run_laws, lambda: st.lists(values, min_size=1, max_size=5).map(tuple), quick=12000, thorough=300000),
    Case("alike", run_laws, lambda: st.lists(alike(), min_size=1, max_size=2).map(lambda xs: tuple(v for x in xs for v in x)), quick=12000, thorough=300000),
    Case("frozen", run_frozen, lambda: st.tuples(values, st.sampled_from([None, 0, 1, "a"])), quick=3000, thorough=40000),
    Case("containers", run_containers, lambda: gens.specs(max_nodes=6), quick=1500, thorough=20000),
]
