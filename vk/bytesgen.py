"""Byte strings to deserialize: valid ones, changed ones and nonsense."""

from __future__ import annotations

import struct
from typing import Any

from vk import gens, refcodec, st
from vk.common import concrete, dump_all, js_graphs

ALL_TAGS = b'\0?_0TFIUNZS"c^oA a{$@DyxnzsR;:\',Bt~uVrpw\\-.EmcsRFSTUiM'
INTERESTING = [0, 1, 2, 3, 4, 7, 8, 9, 15, 63, 64, 127, 128, 255, 256, 300, 16383, 16384,
               2**16, 2**20, 2**24, 2**28, 2**31 - 1, 2**31, 2**32 - 2, 2**32 - 1, 2**32, 2**33, 2**35 - 1, 2**35, 2**53, 2**64, 2**70, -14400]  # fmt: skip


def varint(n: int) -> bytes:
    """The bytes of n, or of 2**-n."""
    n = 2**-n if n < 0 else n
    out = bytearray()
    while n >= 0x80:
        out.append(n & 0x7F | 0x80)
        n >>= 7
    out.append(n)
    return bytes(out)


def _header(v: int) -> bytes:
    return b"\xff" + varint(v)


# A stream as a list of parts, from a grammar that is right most of the time.
number = st.one_of(st.integers(0, 9), st.integers(0, 9), st.sampled_from(INTERESTING))
vint = number.map(varint)
double = st.one_of(
    st.floats().map(lambda x: struct.pack("<d", x)),
    st.sampled_from([0.0, 1e300, 8.64e15, -8.64e15, 1e18, float("nan"), float("inf")]).map(lambda x: struct.pack("<d", x)),
)
blob = st.binary(max_size=10)


def _sized(b: bytes) -> bytes:
    return varint(len(b)) + b


string = st.one_of(
    blob.map(lambda b: b'"' + _sized(b)),
    st.text(max_size=5).map(lambda t: b"S" + _sized(t.encode())),
    blob.map(lambda b: b"S" + _sized(b)),
    st.binary(max_size=5).map(lambda b: b"\0c" + _sized(b + b)),
    st.tuples(st.sampled_from([b'"', b"S", b"c", b"\0c"]), vint, blob).map(b"".join),
)
count = st.one_of(st.integers(0, 4).map(varint), vint)
j = lambda b: st.just(b)  # noqa: E731


def cat(*xs: Any) -> Any:
    return st.tuples(*[j(x) if isinstance(x, bytes) else x for x in xs]).map(b"".join)


leaf = st.one_of(
    st.sampled_from([b"_", b"0", b"T", b"F", b"-"]),
    cat(b"I", vint),
    cat(b"U", vint),
    cat(b"N", double),
    cat(b"Z", vint, blob),
    cat(b"Z\x10", st.binary(min_size=8, max_size=8)),
    string,
    cat(b"^", vint),
    cat(b"^", st.integers(0, 3).map(varint)),
    cat(b"D", double),
    st.sampled_from([b"y", b"x"]),
    cat(b"n", double),
    cat(b"z", vint, blob),
    cat(b"s", string),
    cat(b"R", string, vint),
    cat(b"R", string, st.sampled_from([0, 1, 2, 4, 8, 16, 32, 64, 128, 256, 272, 511, 512]).map(varint)),
    blob.map(lambda b: b"B" + _sized(b)),
    cat(b"B", vint, blob),
    st.tuples(blob, number).map(lambda x: b"~" + varint(len(x[0])) + varint(len(x[0]) + x[1]) + x[0]),
    cat(b"~", vint, vint, blob),
    cat(b"u", vint),
    cat(b"t", vint),
    cat(b"p", vint),
    cat(b"?", vint),
    cat(b"\\", st.integers(0, 13).map(varint), blob.map(_sized)),
    cat(b"\\", vint, vint, blob),
    cat(b"V", st.binary(min_size=1, max_size=1), vint, vint, vint),
    st.tuples(
        st.one_of(blob.map(lambda b: b"B" + _sized(b)), cat(b"u", vint), cat(b"^", count), j(b"B\x10" + bytes(16)), j(b"~\x08\x10" + bytes(8))),
        st.sampled_from([b"b", b"B", b"C", b"w", b"W", b"d", b"D", b"h", b"f", b"F", b"q", b"Q", b"?", b"x"]),
        vint,
        vint,
        st.sampled_from([0, 0, 1, 2, 3, 4, 200]).map(varint),
    ).map(lambda x: x[0] + b"V" + b"".join(x[1:])),
    st.sampled_from([bytes([c]) for c in ALL_TAGS]),
    st.binary(max_size=3),
)


def values(depth: int) -> Any:
    if depth == 0:
        return leaf
    inner = st.deferred(lambda: values(depth - 1))
    many = st.lists(inner, max_size=4)
    key = st.one_of(string, cat(b"I", vint), cat(b"U", vint), cat(b"N", double), inner)
    pairs = st.lists(st.tuples(key, inner).map(b"".join), max_size=3)

    def box(start: bytes, end: bytes, body: Any, per: int) -> Any:
        # The right count, or one that isn't
        return st.tuples(body, st.one_of(st.none(), st.none(), st.none(), number)).map(
            lambda x: start + b"".join(x[0]) + end + varint(len(x[0]) * per if x[1] is None else x[1])
        )

    def dense(x: tuple) -> bytes:
        els, ps, n, m = x
        n = len(els) if n is None else n
        return b"A" + varint(n) + b"".join(els) + b"".join(ps) + b"$" + varint(len(ps)) + varint(n if m is None else m)

    def sparse(x: tuple) -> bytes:
        ps, n, m = x
        return b"a" + varint(n) + b"".join(ps) + b"@" + varint(len(ps)) + varint(n if m is None else m)

    def error(x: tuple) -> bytes:
        fields, end = x
        return b"r" + b"".join(fields) + end

    maybe = st.one_of(st.none(), st.none(), st.none(), number)
    field = st.one_of(
        st.sampled_from([b"E", b"R", b"F", b"S", b"T", b"U"]),
        cat(b"m", string),
        cat(b"s", string),
        cat(b"c", inner),
        cat(b"m", inner),
        st.binary(max_size=1),
    )
    return st.one_of(
        leaf,
        box(b"o", b"{", pairs, 1),
        box(b";", b":", st.lists(st.tuples(inner, inner).map(b"".join), max_size=3), 2),
        box(b"'", b",", many, 1),
        st.tuples(many, pairs, maybe, maybe).map(dense),
        st.tuples(pairs, number, maybe).map(sparse),
        st.tuples(st.lists(field, max_size=4), st.sampled_from([b".", b".", b".", b""])).map(error),
    )


grammar = st.tuples(
    st.one_of(st.sampled_from([13, 14, 15, 15, 15]), st.sampled_from([0, 1, 12, 16, 127, 300])),
    values(3),
    st.one_of(j(b""), j(b""), blob),
).map(lambda x: _header(x[0]) + x[1] + x[2])

raw = st.one_of(st.binary(max_size=30), st.binary(max_size=60).map(lambda b: b"\xff\x0f" + b))


# Valid streams, by the library's writer and by the independent one.


def serialized(spec: tuple) -> bytes:
    return dump_all(gens.Build(spec).value)


def rewritten(case: tuple) -> bytes:
    spec, choices, v = case
    g = concrete(gens.Build(spec).expected("js"))
    return refcodec.Writer(g, chooser(choices), v).write()


def chooser(choices: tuple) -> Any:
    """Make the writer's choices from a short list of numbers (mostly default)."""
    state = [0]

    def choose(n: int) -> int:
        c = choices[state[0] % len(choices)]
        state[0] += 1
        return c % n if c < 100 else 0

    return choose


choice_lists = st.lists(st.integers(0, 130), min_size=1, max_size=13).map(tuple)
# Specs are built when evaluated, so these describe how to make the bytes
valid = st.one_of(
    st.tuples(st.just("dumps"), gens.specs()),
    st.tuples(st.just("writer"), st.tuples(js_graphs(), choice_lists, st.sampled_from([15, 14]))),
)


def make(v: tuple) -> bytes:
    return serialized(v[1]) if v[0] == "dumps" else rewritten(v[1])


edit = st.one_of(
    st.tuples(st.just("flip"), st.integers(0, 400), st.integers(0, 7)),
    st.tuples(st.just("set"), st.integers(0, 400), st.integers(0, 255)),
    st.tuples(st.just("tag"), st.integers(0, 400), st.integers(0, len(ALL_TAGS) - 1)),
    st.tuples(st.just("inc"), st.integers(0, 400), st.sampled_from([-1, 1, 2, -2, 16, 128])),
    st.tuples(st.just("del"), st.integers(0, 400), st.integers(1, 6)),
    st.tuples(st.just("ins"), st.integers(0, 400), st.binary(min_size=1, max_size=5)),
    st.tuples(st.just("varint"), st.integers(0, 400), st.sampled_from(INTERESTING)),
    st.tuples(st.just("dup"), st.integers(0, 400), st.integers(1, 12)),
    st.tuples(st.just("cut"), st.integers(0, 400), st.just(0)),
    st.tuples(st.just("move"), st.integers(0, 400), st.integers(0, 400)),
)
edits = st.lists(edit, min_size=1, max_size=4).map(tuple)


def apply_edits(data: bytes, es: tuple) -> bytes:
    b = bytearray(data)
    for op, at, x in es:
        if len(b) < 3:
            break
        i = 2 + at % (len(b) - 2)
        if op == "flip":
            b[i] ^= 1 << x
        elif op == "set":
            b[i] = x
        elif op == "tag":
            b[i] = ALL_TAGS[x]
        elif op == "inc":
            b[i] = (b[i] + x) % 256
        elif op == "del":
            del b[i : i + x]
        elif op == "ins":
            b[i:i] = x
        elif op == "varint":
            b[i : i + 1] = varint(x)
        elif op == "dup":
            b[i:i] = b[i : i + x]
        elif op == "cut":
            del b[i:]
        elif op == "move":
            k = 2 + x % (len(b) - 2)
            b[i:i] = b[k : k + 8]
    return bytes(b)
