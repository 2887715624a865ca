"""C11: property keys are normalised exactly as JavaScript does."""

from __future__ import annotations

import struct
from typing import Any

from vk import gens, st
from vk.bytesgen import varint
from vk.common import bridge, dressed
from vk.core import Case, Stats, check, violated
from vk.gens import is_index, order_props
from vk.graph import utf16
from vk.node import v8_deserialize
from vk.refcodec import js_number

RULE = (
    "Generated strings, ints and floats as keys of JSObject, JSArray and of other mappings "
    "written as objects, and as keys in every wire form of serialized objects; the resulting "
    "properties are compared with a model of ECMAScript's array index and ToString rules and "
    "with Node.js's V8. Non-trivial: a key is numeric or looks like a number."
)
ASSUMPTIONS = [
    "Keys are str, int (below 10**4000) or float, not bool.",
    "Strings have no surrogate pair spelled as two Python characters.",
    "ints beyond 2**53 are spelled exactly, as a BigInt would be.",
]

# ---------------------------------------------------------------- generation

NUMBERISH = [
    "0", "-0", "+0", "00", "01", "1", "10", "-1", "1.0", "1.", ".1", "0.1", "1e3", "1e21", "1e+21", "1E5", "0x10",
    "0b1", "1_000", " 1", "1 ", "1\n", "\t1", "", " ", "NaN", "nan", "Infinity", "-Infinity", "inf", "4294967293",
    "4294967294", "4294967295", "4294967296", "04294967294", "9007199254740993", "18446744073709551616", "٣", "１",
    "²", "①", "१२", "1٣", "1é", "1\0", "true", "null", "undefined", "1n", "99999999999", "2147483647", "2147483648",
]  # fmt: skip

edge_ints = st.sampled_from(sorted({s * (b + o) for b in (0, 2**30, 2**31, 2**32, 2**53, 2**64, 10**21, 10**30) for o in (-3, -2, -1, 0, 1, 2) for s in (1, -1)}))
ints = st.one_of(st.integers(0, 20), edge_ints, st.integers(-(2**34), 2**34), st.integers(-(10**40), 10**40))
digits = st.one_of(
    st.sampled_from(NUMBERISH),
    edge_ints.map(str),
    st.integers(0, 2**33).map(str),
    st.text("0123456789", max_size=12),
    st.text("0123456789-+.eE ٣１_n", max_size=6),
    st.builds(lambda a, b, c: a + b + c, st.sampled_from(["", "", "0", "-", "+", " ", "１"]), st.integers(0, 2**33).map(str), st.sampled_from(["", "", ".0", " ", "n", "\n", "\0"])),
)
strs = st.one_of(digits, digits, gens.strings)
scaled = st.builds(lambda m, e: float(f"{m}e{e}"), st.integers(-999, 999), st.integers(-30, 30))
floats = st.one_of(
    edge_ints.map(float),
    st.integers(0, 2**33).map(float),
    scaled,
    st.builds(lambda x, o: x + o, st.integers(0, 2**32).map(float), st.sampled_from([0.0, 0.5, 0.25, -0.5, 1e-6])),
    st.sampled_from([0.0, -0.0, 5e-324, 1e-7, 1e-6, 1e-5, 0.00012, 1e15, 1e16, 1e17, 1e20, 1e21, 1e22, 1.5e300, 123456789012345680000.0]),
    st.sampled_from(gens.FLOAT_EDGES),
    st.floats(),
)
keys = st.one_of(strs, strs, ints, floats)


def js_name(k: Any) -> str:
    return js_number(k) if isinstance(k, float) else utf16(str(k))


def python_name(k: Any) -> str:
    """How the library spells it: see float-keys in KNOWN_FINDINGS.txt."""
    if isinstance(k, float):
        return str(int(k)) if k.is_integer() else str(k)
    return utf16(str(k))


def misspelled(k: Any) -> bool:
    return js_name(k) != python_name(k)


def py_key(name: str) -> str | int:
    return int(name) if is_index(name) else name


def numeric(k: Any) -> bool:
    return not isinstance(k, str) or any(c.isdigit() for c in k)


def typed(ks: Any) -> list:
    return [(type(k), utf16(k) if isinstance(k, str) else k) for k in ks]


def expect_keys(got: Any, ks: list, s: Stats, what: str) -> None:
    """That these are the properties which these keys make, in order."""

    def keys_as(name: Any) -> list:
        return typed(py_key(n) for n, _ in order_props([(name(k), None) for k in ks]))

    got = typed(got)
    exp = keys_as(js_name)
    if got == exp:
        return
    if any(misspelled(k) for k in ks) and got == keys_as(python_name) and s.is_known("float-keys"):
        return
    violated(f"{what}: keys {ks!r} are {got}, expected {exp}")


# ------------------------------------------------------------------- one key


def run_one(k: Any, s: Stats) -> None:
    from v8serialize.jstypes import JSArray, JSObject

    s.nontrivial(numeric(k))
    s.label(type(k).__name__)
    for cls in (JSObject, JSArray):
        o = cls()
        o[k] = 7
        (key,) = o
        expect_keys([key], [k], s, cls.__name__)
        index = is_index(js_name(k))
        check(len(o.array) == (int(js_name(k)) + 1 if index else 0), lambda: f"len(array) is {len(o.array)} with key {k!r}")
        check(dict(o.properties) == ({} if index else {key: 7}), f"properties are {dict(o.properties)}")
        # It's found under the canonical key, which is its own canonical form
        for x in (k, key, str(key)):
            check(x in o and o[x] == 7 and o.get(x) == 7, lambda: f"{x!r} isn't found in {o!r}")
        o[key] = 8
        o[str(key)] = 9
        check(list(o.items()) == [(key, 9)], lambda: f"{key!r} is not the same property as {k!r}: {dict(o)}")
        again = cls({key: 1})
        check(typed(again) == typed([key]), lambda: f"normalising {key!r} gives {list(again)}")
        del o[str(key)]
        check(len(o) == 0 and k not in o, "can't be deleted by its canonical key")


def run_function(k: Any, s: Stats) -> None:
    try:
        from v8serialize.jstypes._normalise_property_key import normalise_property_key as f
    except ImportError:  # not public
        return
    s.nontrivial(numeric(k))
    got = f(k)
    expect_keys([got], [k], s, "normalise_property_key")
    check(typed([f(got)]) == typed([got]), lambda: f"normalising {k!r} gives {got!r}, and then {f(got)!r}")


def run_subclasses(case: tuple, s: Stats) -> None:
    """Keys whose types are subclasses of str, int and float, such as Enums."""
    from v8serialize import dumps
    from v8serialize.jstypes import JSArray, JSObject

    ks, forms = case
    if not _cls:
        _cls.append(mapping_class())
    s.nontrivial(True)
    subs = [dressed(k, forms[i % len(forms)]) for i, k in enumerate(ks)]
    for cls in (JSObject, JSArray):
        o, p, q = cls(), cls(), cls((k, i) for i, k in enumerate(subs)) if cls is JSObject else cls()
        for i, (k, x) in enumerate(zip(ks, subs)):
            p[k] = i
            if forms[-1] == 0 or x in o:
                o[x] = i
            else:
                check(o.setdefault(x, i) == i, "setdefault() gives another value")
        if cls is JSArray:
            q.update(zip(subs, range(len(subs))))
        for r in (o, q):
            check(typed(r) == typed(p) and list(r.values()) == list(p.values()), lambda: f"keys {subs!r} are {list(r.items())}, but {ks!r} {list(p.items())}")
            check(dumps(r) == dumps(p), lambda: f"keys {subs!r} are written as {dumps(r).hex()}, but {ks!r} as {dumps(p).hex()}")
        for k, x in zip(ks, subs):
            check(x in p and k in o and p[x] == o[k] == o.get(x), lambda: f"{x!r} is not the same key as {k!r}")
        for n, (k, x) in enumerate(zip(ks, subs)):
            if k in p:
                if n % 2:
                    del o[x]
                else:
                    o.pop(x)
                p.pop(k)
            check(x not in o and typed(o) == typed(p), lambda: f"{x!r} can't be deleted")
    m, n = _cls[0](zip(range(len(ks)), ks)), _cls[0](zip(range(len(ks)), subs))
    m, n = (type(m)({v: i for i, v in r.items()}) for r in (m, n))
    if len(m) == len(n):
        a, b = dumps(m), dumps(n)
        check(a == b, lambda: f"keys {subs!r} are written as {b.hex()}, but {ks!r} as {a.hex()}")


# ------------------------------------------------------------------ many keys


def relatives(x: tuple) -> list:
    """A key and others that are or look like the same."""
    k, others, picks = x
    out = [k]
    for p in picks:
        base = out[p % len(out)]
        name = js_name(base)
        if p % 5 == 0:
            out.append(name)
        elif p % 5 == 1:
            out.append("0" + name)
        elif p % 5 == 2 and is_index(name):
            out.append(int(name))
        elif p % 5 == 3 and is_index(name):
            out.append(float(name))
        elif p % 5 == 4:
            out.append(name + ".0")
        elif not isinstance(base, str):
            out.append(str(base))
    return out + list(others)


groups = st.tuples(keys, st.lists(keys, max_size=3), st.lists(st.integers(0, 60), max_size=6)).map(relatives)


def run_merge(ks: list, s: Stats) -> None:
    from v8serialize.jstypes import JSObject

    s.nontrivial(sum(map(numeric, ks)) > 1)
    o = JSObject((k, i) for i, k in enumerate(ks))
    expect_keys(o, ks, s, "merging")
    for i, k in enumerate(ks):
        last = max(j for j, x in enumerate(ks) if js_name(x) == js_name(k))
        if o[k] != last:
            known = any(misspelled(x) for x in ks) and o[k] == max(
                j for j, x in enumerate(ks) if python_name(x) == python_name(k)
            )
            check(known and s.is_known("float-keys"), lambda: f"{k!r} has value {o[k]}, expected {last}: {ks!r}")


def run_v8(case: tuple, s: Stats) -> None:
    from v8serialize.jstypes import JSArray, JSObject

    arr, ks = case
    ks = [
        k
        for k in ks
        if js_name(k) != "__proto__" and not (arr and k == "length") and not (isinstance(k, int) and abs(k) > 2**53)
    ]
    s.nontrivial(sum(map(numeric, ks)) > 1)
    ops = [["set", k if isinstance(k, str) else ["d", struct.pack(">d", k).hex()], i] for i, k in enumerate(ks)]
    out = bridge.call("props", array=arr, ops=ops)["out"]
    if not out:
        return
    state = out[-1]
    length = state.pop()[1] if arr else 0
    o = (JSArray if arr else JSObject)()
    for i, k in enumerate(ks):
        o[k] = i
    if arr:
        check(len(o.array) == length, lambda: f"keys {ks!r} make an array of length {len(o.array)}, JavaScript {length}")
    got = [[utf16(str(k)), v] for k, v in o.items()]
    exp = [[utf16(k), v] for k, v in state]
    if got != exp:
        m = order_props([[python_name(k), i] for i, k in enumerate(ks)])
        known = any(misspelled(k) for k in ks) and got == m
        check(known and s.is_known("float-keys"), lambda: f"keys {ks!r} are {got}, in JavaScript {exp}")


# ----------------------------------------------------------------- wire forms


def spell(k: Any, form: int) -> bytes:
    """A key as one of the wire forms that can hold it."""
    forms: list[bytes] = []
    if isinstance(k, str):
        try:
            forms.append(b'"' + varint(len(k)) + k.encode("latin-1"))
        except UnicodeEncodeError:
            pass
        u = k.encode("utf-16-le", "surrogatepass")
        forms.append(b"c" + varint(len(u)) + u)
        try:
            u = k.encode("utf-8")
            forms.append(b"S" + varint(len(u)) + u)
        except UnicodeEncodeError:
            pass
    else:
        if k == k and abs(k) < 2**40 and k == int(k):
            i = int(k)
            if -(2**31) <= i < 2**31:
                forms.append(b"I" + varint((i << 1) ^ (i >> 31)))
            if 0 <= i < 2**32:
                forms.append(b"U" + varint(i))
        forms.append(b"N" + struct.pack("<d", k))
    return forms[form % len(forms)]


def run_wire(case: tuple, s: Stats) -> None:
    from v8serialize import loads

    shape, ks, forms = case
    ks = [float(k) if isinstance(k, int) and abs(k) >= 2**31 else k for k in ks]
    data = b"\xff\x0f" + {"o": b"o", "a": b"a" + varint(2**32 - 1), "A": b"A\0"}[shape]
    for i, k in enumerate(ks):
        x = spell(k, forms[i % len(forms)])
        if x[:1] == b"c" and (len(data) + len(x) - len(k.encode("utf-16-le", "surrogatepass"))) % 2:
            data += b"\0"
        data += x + b"I" + varint(i << 1)
    n = varint(len(ks))
    data += {"o": b"{" + n, "a": b"@" + n + varint(2**32 - 1), "A": b"$" + n + b"\0"}[shape]
    s.nontrivial(any(map(numeric, ks)))
    s.label(shape)
    o = loads(data)
    expect_keys(o, ks, s, f"decoded from {data.hex()}")
    for i, k in enumerate(ks):
        last = max(j for j, x in enumerate(ks) if js_name(x) == js_name(k))
        check(o[k] == last or any(map(misspelled, ks)), lambda: f"{k!r} has value {o[k]}, expected {last}")
    if shape == "o" and not any(js_name(k) == "__proto__" for k in ks):
        r = v8_deserialize(data)
        if len({js_name(k) for k in ks}) < len(ks):  # V8 refuses those
            return
        check("graph" in r, lambda: f"V8 can't read {data.hex()}: {r}")
        names = [utf16(p[0]) for p in r["graph"]["nodes"][0][1]]
        exp = [n for n, _ in order_props([(js_name(k), None) for k in ks])]
        check(names == exp, lambda: f"V8 reads {names} from {data.hex()}, model: {exp}")


# ------------------------------------------------------------------- encoding


def mapping_class() -> Any:
    from v8serialize.jstypes import JSObject

    class Mine(dict):
        pass

    JSObject.register(Mine)
    return Mine


_cls: list = []


def run_encode(ks: list, s: Stats) -> None:
    from v8serialize import dumps, loads
    from v8serialize.jstypes import JSObject

    if not _cls:
        _cls.append(mapping_class())
    s.nontrivial(any(map(numeric, ks)))
    # (V8 refuses objects with one property twice)
    value = _cls[0]({js_name(k): (k, i) for i, k in enumerate(ks)}.values())
    exp = order_props([(js_name(k), v) for k, v in value.items()])
    data = dumps(value)
    got = loads(data)
    check(type(got) is JSObject, "not an object")
    expect_keys(got, list(value), s, "written and read")
    if any(n == "__proto__" for n, _ in exp):
        return
    r = v8_deserialize(data)
    check("graph" in r, lambda: f"V8 can't read {data.hex()}: {r}")
    names = [utf16(p[0]) for p in r["graph"]["nodes"][0][1]]
    check(names == [n for n, _ in exp], lambda: f"V8 sees {names}, expected {exp}: {data.hex()}")


def probe_float_keys() -> bool:
    from v8serialize.jstypes import JSObject

    return list(JSObject({1e21: 1})) != ["1e+21"]


KNOWN_PROBES = {"float-keys": probe_float_keys}

CASES = [
    Case("one-key", run_one, strategy=lambda: keys, fixed=lambda: [*NUMBERISH, *gens.FLOAT_EDGES, *gens.INT_EDGES, "9" * 5000, 10**3999], quick=16000, thorough=400000),
    Case("function", run_function, strategy=lambda: keys, fixed=lambda: [*NUMBERISH, *gens.FLOAT_EDGES], quick=16000, thorough=400000),
    Case("subclasses", run_subclasses, strategy=lambda: st.tuples(groups, st.lists(st.integers(0, 2), min_size=1, max_size=4)), quick=4000, thorough=100000),
    Case("merging", run_merge, strategy=lambda: groups, quick=8000, thorough=200000),
    Case("against-v8", run_v8, strategy=lambda: st.tuples(st.booleans(), groups), quick=5000, thorough=100000),
    Case("wire-forms", run_wire, strategy=lambda: st.tuples(st.sampled_from("oooaA"), groups, st.lists(st.integers(0, 5), min_size=1, max_size=4)), quick=5000, thorough=100000),
    Case("encoding", run_encode, strategy=lambda: groups, quick=4000, thorough=80000),
]
