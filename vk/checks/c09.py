"""C09: JavaScript objects and arrays behave as ordered property maps."""

from __future__ import annotations

from typing import Any

from vk import gens, st
from vk.common import bridge
from vk.core import Case, Stats, check, violated
from vk.gens import is_index, order_props
from vk.graph import utf16
from vk.refcodec import js_number

RULE = (
    "Generated sequences of operations (set, get, delete, membership, get with default, pop, "
    "popitem, setdefault, update, clear, holes, resizing and appending to the array part) on "
    "a JSObject or JSArray, with keys spelled as strings, ints and floats; after each one the "
    "whole observable state is compared with a model, and the sequences that JavaScript has "
    "are also applied to a real object or array in Node.js. Non-trivial: at least one "
    "property is written under one spelling of its key and later used under another."
)
ASSUMPTIONS = [
    "Keys are str, int or float (not bool), and strings have no surrogate pairs spelled as two characters.",
    "Float keys are those for which Python and JavaScript agree about the printed form (C11 covers the others).",
]

MAX_INDEX = 2**32 - 2
BIG = 300  # beyond this the array part isn't iterated as a list

NAMES = ["a", "b", "c", "0", "1", "2", "3", "15", "16", "17", "40", "01", "-1", "-0", "1.0", "1.5",
         "", "length", "é", "4294967294", "4294967295", "4294967296", "٣", "1e3", " 1", "1_0", "+1"]  # fmt: skip
NUMBERS = [0, 1, 2, 3, 4, 5, 14, 15, 16, 17, 18, 40, 63, 64, 200, 1000, 2**31, 2**32 - 3, MAX_INDEX,
           2**32 - 1, 2**32, -1, -2, 2**53, 2**64]  # fmt: skip
FLOATS = [0.0, -0.0, 1.0, 2.0, 3.0, 15.0, 16.0, 40.0, 4294967294.0, 4294967295.0, -1.0, 1.5, -1.5, 0.25, 1e15]

keys = st.one_of(
    st.sampled_from(["a", "b", 0, 1, 2, "0", "1", 0.0, 1.0]),
    st.sampled_from(NAMES),
    st.sampled_from(NUMBERS),
    st.sampled_from(FLOATS),
    st.integers(0, 20),
    st.integers(0, 20).map(str),
    st.integers(0, 20).map(float),
    gens.prop_keys,
)
# "h" is a hole, "u" undefined; also values that are false, or equal to others
vals = st.one_of(st.integers(0, 9), st.integers(0, 9), st.just("h"), st.sampled_from([None, "u", False, "", 0.0, (), True, "x"]))
pairs = st.lists(st.tuples(keys, vals), max_size=5).map(tuple)


def name_of(k: Any) -> str:
    return js_number(k) if isinstance(k, float) else utf16(str(k))


def py_key(name: str) -> str | int:
    return int(name) if is_index(name) else name


class Model:
    """Properties by JavaScript name, and the length of the array part."""

    def __init__(self) -> None:
        self.props: dict[str, Any] = {}
        self.length = 0

    def set(self, k: Any, v: Any) -> None:
        n = name_of(k)
        if is_index(n):
            self.length = max(self.length, int(n) + 1)
        if v == "h":
            self.props.pop(n, None)
        else:
            self.props[n] = hole(v)

    def delete(self, k: Any) -> bool:
        return self.props.pop(name_of(k), self) is not self

    def items(self) -> list[tuple]:
        return [(py_key(k), v) for k, v in order_props(list(self.props.items()))]

    def elements(self) -> dict[int, Any]:
        return {k: v for k, v in self.items() if isinstance(k, int)}

    def resize(self, n: int) -> None:
        self.length = n
        for k in [k for k in self.props if is_index(k) and int(k) >= n]:
            del self.props[k]


def same(act: Any, exp: Any, what: str) -> None:
    check(
        act == exp and type(act) is type(exp),
        lambda: f"{what} is {act!r}, expected {exp!r}",
    )


def typed(items: Any) -> list:
    return [(k, type(k), v) for k, v in items]


def observe(o: Any, m: Model, probe: Any) -> None:
    """Compare all that can be observed of the object."""
    from v8serialize.jstypes import JSArray, JSHole, JSObject
    from v8serialize._typing import Order

    items = m.items()
    check(typed(o.items()) == typed(items), lambda: f"items are {list(o.items())!r}, expected {items!r}")
    same(list(o), [k for k, _ in items], "iteration")
    same(len(o), len(items), "len()")
    same(list(o.keys()), [k for k, _ in items], "keys()")
    same(list(o.values()), [v for _, v in items], "values()")
    same(dict(o), dict(items), "dict()")
    same(bool(o), bool(items), "truth")
    named = {k: v for k, v in items if isinstance(k, str)}
    same(list(o.properties.items()), list(named.items()), "properties")
    a, els = o.array, m.elements()
    same(len(a), m.length, "len(array)")
    same(a.elements_used, len(els), "elements_used")
    same(list(a.element_indexes()), list(els), "element_indexes()")
    same(list(a.element_indexes(order=Order.DESCENDING)), list(els)[::-1], "descending element_indexes()")
    same(dict(a.elements()), els, "elements()")
    if m.length <= BIG:
        same(list(a), [els.get(i, JSHole) for i in range(m.length)], "list(array)")
    exp = m.props.get(name_of(probe), "absent")
    same(o.get(probe, "absent"), exp, f"get({probe!r})")
    same(probe in o, exp != "absent", f"{probe!r} in object")
    same(probe in o.keys(), exp != "absent", f"{probe!r} in keys()")
    # Another object made from the same properties
    if type(o) is JSObject:
        other = JSObject(items)
        check(o == other and other == o and not o != other, "not equal to an object with the same properties")
        other["one more"] = 1
        check(not o == other and o != other, "equal to an object with one more property")
        check(not o == dict(items) and o != dict(items), "equal to a dict")
    elif m.length <= BIG:
        other = JSArray(dict(items))
        other.array.resize(m.length)
        check(o == other and other == o and not o != other, "not equal to an array with the same properties")
        other.array.append(1)
        check(not o == other and o != other, "equal to an array with one more element")
        check(not o == JSObject(items) and o != JSObject(items), "an array is equal to an object")


def expect_missing(f: Any, k: Any, what: str) -> None:
    try:
        got = f()
    except KeyError as e:
        n = py_key(name_of(k))
        check(e.normalized_key == n and type(e.normalized_key) is type(n), f"{what}: reported key {e.normalized_key!r}")
        check(e.raw_key is k or e.raw_key == k, f"{what}: reported raw key {e.raw_key!r}")
        return
    violated(f"{what} of an absent property gave {got!r}")


def hole(v: Any) -> Any:
    from v8serialize.jstypes import JSHole, JSUndefined

    return JSHole if v == "h" else JSUndefined if v == "u" else v


class UserMapping:
    """Supports keys() and item access only, like update() asks for."""

    def __init__(self, items: list) -> None:
        self.d = dict(items)

    def keys(self) -> Any:
        return self.d.keys()

    def __getitem__(self, k: Any) -> Any:
        return self.d[k]


def source(form: int, kvs: tuple) -> tuple[Any, list]:
    """The argument of a constructor or update(), and the assignments it makes."""
    items = [(k, hole(v)) for k, v in kvs]
    if form == 0:
        return items, list(kvs)
    if form == 1:
        return iter(items), list(kvs)
    merged: dict = {}
    for k, v in kvs:
        merged[k] = v
    d = {k: hole(v) for k, v in merged.items()}
    if form == 2:
        return d, list(merged.items())
    if form == 3:
        from v8serialize.jstypes import JSObject

        clean = [(k, v) for k, v in kvs if v != "h"]
        m = Model()
        for k, v in clean:
            m.set(k, v)
        return JSObject((k, hole(v)) for k, v in clean), m.items()
    return UserMapping(list(d.items())), list(merged.items())


def copy_of(arg: Any) -> Any:
    if isinstance(arg, UserMapping):
        arg = arg.d
    return None if not hasattr(arg, "__len__") else list(arg.items()) if hasattr(arg, "items") else list(arg)


class Sources:
    """The objects that properties were copied from."""

    def __init__(self) -> None:
        self.all: list = []

    def add(self, arg: Any) -> None:
        self.all.append((arg, copy_of(arg)))

    def check(self, o: Any, m: Model) -> None:
        """They haven't changed since, and changes of them don't change the object."""
        for arg, was in self.all:
            check(copy_of(arg) == was, lambda: f"a change of the object changed what it was made from, {was!r}, to {copy_of(arg)!r}")
        for arg, was in self.all:
            if isinstance(arg, list):
                arg.append(("new", 1))
                arg[:1] = []
            elif was is not None:
                d = arg.d if isinstance(arg, UserMapping) else arg
                d.update(dict.fromkeys(d, "changed"))
                d["new"] = d[5] = 1
        observe(o, m, "new")


def construct(init: tuple, m: Model, sources: Sources) -> Any:
    from v8serialize.jstypes import JSArray, JSObject

    kind, form, kvs, kwargs = init
    kw = {k: hole(v) for k, v in kwargs}
    if kind == "arr" and form in (0, 1):
        vs = [v for _, v in kvs]
        for i, v in enumerate(vs):
            m.set(i, v)
        it = [hole(v) for v in vs]
        sources.add(it)
        o = JSArray(iter(it) if form else it, **kw)
    else:
        arg, made = source(form, kvs)
        sources.add(arg)
        for k, v in made:
            m.set(k, v)
        cls = JSArray if kind == "arr" else JSObject
        o = cls(arg, **kw) if made or form else cls(**kw)
    for k, v in dict(kwargs).items():
        m.set(k, v)
    return o


def run_model(case: tuple, s: Stats) -> None:
    from v8serialize.jstypes import JSArray, JSObject
    from v8serialize.jstypes.jsarrayproperties import DenseArrayProperties

    init, ops, seen = case
    m = Model()
    sources = Sources()
    o = construct(init, m, sources)
    check(type(o) is (JSArray if init[0] == "arr" else JSObject), "wrong type")
    views = (o.keys(), o.items(), o.values(), o.properties)
    spellings: dict[str, Any] = {}
    if seen & 1:
        observe(o, m, "a")
    for step, op in enumerate(ops, 1):
        name, k = op[0], op[1] if len(op) > 1 and op[1] is not None else "a"
        s.label(name)
        if name in ("set", "get", "del", "pop", "popd", "setdefault"):
            n = name_of(k)
            if name == "set":
                spellings[n] = k
            elif n in m.props and n in spellings:
                s.nontrivial(type(spellings[n]) is not type(k))
        if name == "set":
            m.set(k, op[2])
            o[k] = hole(op[2])
        elif name == "get":
            if name_of(k) in m.props:
                same(o[k], m.props[name_of(k)], f"[{k!r}]")
            else:
                expect_missing(lambda: o[k], k, "get")
        elif name == "del":
            if m.delete(k):
                del o[k]
            else:
                expect_missing(lambda: o.__delitem__(k), k, "del")
        elif name == "pop":
            if name_of(k) in m.props:
                exp = m.props[name_of(k)]
                m.delete(k)
                same(o.pop(k), exp, f"pop({k!r})")
            else:
                expect_missing(lambda: o.pop(k), k, "pop")
        elif name == "popd":
            exp = m.props.get(name_of(k), "default")
            m.delete(k)
            same(o.pop(k, "default"), exp, f"pop({k!r}, default)")
        elif name == "popitem":
            if m.props:
                item = o.popitem()
                check(item in m.items(), lambda: f"popitem() gave {item!r}")
                m.delete(item[0])
            else:
                try:
                    got = o.popitem()
                except KeyError:
                    pass
                else:
                    violated(f"popitem() of an empty object gave {got!r}")
        elif name == "setdefault":
            if op[2] == "h":
                continue
            if name_of(k) in m.props:
                same(o.setdefault(k, hole(op[2])), m.props[name_of(k)], f"setdefault({k!r})")
            else:
                m.set(k, op[2])
                same(o.setdefault(k, hole(op[2])), hole(op[2]), f"setdefault({k!r})")
        elif name == "update":
            arg, made = source(op[2], op[3])
            kw = dict(op[4])
            for kk, v in made + list(kw.items()):
                m.set(kk, v)
            sources.add(arg)
            named = {a: hole(v) for a, v in kw.items()}
            if made or op[2]:
                o.update(arg, **named)
            else:
                o.update(**named)
            k = op[3][0][0] if op[3] else "a"
        elif name == "clear":
            m.props.clear()
            o.clear()
        elif name == "resize":
            n = op[1]
            if n > BIG and isinstance(o.array, DenseArrayProperties):
                n %= BIG
            o.array.resize(n)
            m.resize(n)
            k = n
        elif name == "append":
            if m.length <= MAX_INDEX:
                o.array.append(hole(op[2]))
                m.set(m.length, op[2])
            k = m.length - 1
        elif name == "self":
            o.update(o)
        if not seen >> step & 1 and step < len(ops):
            continue  # reading can change what is cached
        observe(o, m, k)
        check(views[3] is o.properties or views[3] == o.properties, "properties is not a live view")
        check(list(views[0]) == list(o.keys()) and len(views[1]) == len(o), "a view is not live")
        check(list(views[1]) == list(o.items()) and list(views[2]) == list(o.values()), "a view is not live")
    sources.check(o, m)


ops = st.one_of(
    st.tuples(st.just("set"), keys, vals),
    st.tuples(st.just("set"), keys, vals),
    st.tuples(st.just("set"), keys, vals),
    st.tuples(st.just("del"), keys),
    st.tuples(st.just("del"), keys),
    st.tuples(st.just("get"), keys),
    st.tuples(st.just("pop"), keys),
    st.tuples(st.just("popd"), keys),
    st.tuples(st.just("popitem")),
    st.tuples(st.just("setdefault"), keys, vals),
    st.tuples(st.just("update"), st.none(), st.integers(0, 4), pairs, st.lists(st.tuples(gens.name_keys, vals), max_size=2).map(tuple)),
    st.one_of(st.tuples(st.just("resize"), st.sampled_from([0, 1, 3, 15, 16, 17, 70, 2**31, 2**32 - 1])), st.tuples(st.just("clear")), st.tuples(st.just("self"))),
    st.tuples(st.just("append"), st.none(), vals),
)
inits = st.tuples(
    st.sampled_from(["obj", "arr"]),
    st.integers(0, 4),
    st.one_of(st.just(()), pairs),
    st.lists(st.tuples(gens.name_keys, vals), max_size=2).map(tuple),
)


def small_keyed(ops: list) -> list:
    """The same operations on few keys, so that they meet more often."""
    few = ["a", "1", 1, 1.0, "b", 0, "0", -0.0, 2, "c", 17, "17", 40.0]
    out = []
    for op in ops:
        if op[0] in ("set", "get", "del", "pop", "popd", "setdefault"):
            h = sum(map(ord, repr(op[1])))
            op = (op[0], few[h % len(few)], *op[2:])
        out.append(op)
    return out


def sequences() -> Any:
    many = st.lists(ops, max_size=14)
    few = st.lists(ops, min_size=4, max_size=20).map(small_keyed)
    # Which steps are followed by reading everything
    seen = st.one_of(st.just(-1), st.integers(0, 2**20 - 1), st.just(0))
    return st.tuples(inits, st.one_of(many, few, few), seen)


# ------------------------------------------------------------ growth pattern


def run_growth(case: tuple, s: Stats) -> None:
    """Filling, thinning and stretching across the switch of storage."""
    from v8serialize.jstypes import JSArray, JSObject
    from v8serialize.jstypes.jsarrayproperties import SparseArrayProperties

    arr, steps = case
    o = JSArray() if arr else JSObject()
    m = Model()
    sparse = dense = False
    for kind, at, n, spell in steps:
        for j in range(n):
            i = at + j * (1 if kind != "stride" else 3)
            k: Any = [i, str(i), float(i)][spell]
            if kind == "thin":
                if m.delete(k):
                    del o[k]
            else:
                m.set(k, j)
                o[k] = j
        is_sparse = isinstance(o.array, SparseArrayProperties)
        sparse |= is_sparse
        dense |= not is_sparse and m.length > 0
        observe(o, m, at)
    s.nontrivial(sparse and dense)
    if sparse:
        s.label("sparse")


growth = st.tuples(
    st.booleans(),
    st.lists(
        st.tuples(
            st.sampled_from(["fill", "fill", "thin", "stride"]),
            st.one_of(st.integers(0, 30), st.sampled_from([60, 61, 62, 63, 64, 65, 100, 1000, 10**6])),
            st.integers(1, 20),
            st.integers(0, 2),
        ),
        min_size=1,
        max_size=6,
    ),
)


# ---------------------------------------------------------------- against V8


def run_node(case: tuple, s: Stats) -> None:
    from v8serialize.jstypes import JSArray, JSObject

    arr, ops = case
    o = JSArray() if arr else JSObject()
    sent = []
    states = []
    spelled: dict[str, set] = {}
    for op, k, v in ops:
        n = name_of(k) if op != "len" else ""
        if n == "__proto__" or (arr and n == "length") or (isinstance(k, int) and abs(k) > 2**53):
            continue
        if op == "len" and not arr:
            continue
        if op != "len":
            spelled.setdefault(n, set()).add(type(k))
        if op == "set":
            o[k] = v
        elif op == "del":
            if k in o:
                del o[k]
        elif op == "len":
            o.array.resize(v)
        key = k if isinstance(k, str) else ["d", hex_double(float(k))] if op != "len" else None
        if op == "get":
            got = o.get(k)
            if arr or got is not None:
                states.append(got)
            else:
                states.append(None)
        else:
            st_ = [[str(kk), vv] for kk, vv in o.items()]
            states.append(st_ + ([["#", len(o.array)]] if arr else []))
        sent.append([op, key, v])
    out = bridge.call("props", array=arr, ops=sent)["out"]
    s.nontrivial(any(len(t) > 1 for t in spelled.values()))
    for i, (a, b) in enumerate(zip(states, out)):
        check(norm(a) == norm(b), lambda: f"after {sent[: i + 1]} there is {a}, JavaScript has {b}")
    check(len(states) == len(out), "missing states")


def norm(x: Any) -> Any:
    return [[utf16(k), v] for k, v in x] if isinstance(x, list) else x


def hex_double(x: float) -> str:
    import struct

    return struct.pack(">d", x).hex()


node_ops = st.lists(
    st.one_of(
        st.tuples(st.just("set"), keys, st.integers(0, 9)),
        st.tuples(st.just("set"), keys, st.integers(0, 9)),
        st.tuples(st.just("set"), keys, st.integers(0, 9)),
        st.tuples(st.just("del"), keys, st.none()),
        st.tuples(st.just("get"), keys, st.none()),
        st.tuples(st.just("len"), st.none(), st.sampled_from([0, 1, 2, 3, 16, 40])),
    ),
    max_size=16,
)

CASES = [
    Case("operation-sequences", run_model, strategy=lambda: sequences(), quick=30000, thorough=400000),
    Case("growth", run_growth, strategy=lambda: growth, quick=2000, thorough=40000),
    Case("against-v8", run_node, strategy=lambda: st.tuples(st.booleans(), node_ops), quick=2500, thorough=60000),
]
