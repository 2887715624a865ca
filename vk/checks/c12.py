"""C12: JavaScript maps and sets follow same-value-zero key identity."""

from __future__ import annotations

import struct
from typing import Any

from vk import gens, st
from vk.common import bridge
from vk.core import Case, Stats, check, violated
from vk.graph import SAFE, utf16

RULE = (
    "Generated sequences of all the operations of JSMap and JSSet (and set algebra between "
    "them), with keys from a pool rich in numerically equal, equal-but-distinct and "
    "identical objects; every result and the entries in order are compared with a model "
    "using same-value-zero, and with a real Map or Set in Node.js. Non-trivial: two keys "
    "that Python regards as equal but JavaScript doesn't, or the reverse, or two distinct "
    "objects for one key, were both used."
)
ASSUMPTIONS = [
    "Python ints stand for numbers of that value whatever their size; bytes are compared by content.",
    "The stored spelling of a number (1 or 1.0, 0.0 or -0.0) is not significant.",
]

NANS = [float("nan"), struct.unpack("<d", b"\1\0\0\0\0\0\xf0\x7f")[0], float("-nan")]


class Eq:
    """An object equal to all others of its type, with the same hash."""

    def __eq__(self, other: object) -> bool:
        return isinstance(other, Eq)

    def __hash__(self) -> int:
        return 1


class Plain:
    pass


class Unhashable:
    __hash__ = None  # type: ignore[assignment]


class Raises:
    def __eq__(self, other: object) -> bool:
        raise RuntimeError("compared")

    def __hash__(self) -> int:
        raise RuntimeError("hashed")


def make_objects() -> list:
    from v8serialize.jstypes import JSArray, JSMap, JSObject, JSSet

    first = Eq()
    return [
        first, Eq(), Plain(), Unhashable(), Raises(), [], [], (1,), tuple([1]), {}, set(), frozenset(), bytearray(b"a"),
        JSObject(), JSObject(), JSArray(), JSMap(), JSMap(), JSSet(), JSObject(a=1), 1j, complex(1, 0), range(0), b"".join, object(),
        (bool, True), (bool, False), (bool, 1), (id(first),), (NANS[0],), (id(first), first),
    ]  # fmt: skip


def ground(x: Any, objects: list) -> Any:
    """A case with the ids of objects in it, now that there are objects."""
    if isinstance(x, tuple):
        if x and x[0] == "id":
            return ("p", IDS[x[2]](id(objects[x[1]])))
        return tuple(ground(y, objects) for y in x)
    return [ground(y, objects) for y in x] if isinstance(x, list) else x


IDS = {"int": int, "float": float, "str": str}


# A key as data: a primitive value or ("o", which object)
prim_keys = st.one_of(
    st.sampled_from([0, 0.0, -0.0, 1, 1.0, True, False, None, "u", "", "a", "1", "true"]).map(lambda x: ("u",) if x == "u" else ("n",) if x is None else ("p", x)),
    st.sampled_from([0, 1, 2]).map(lambda i: ("nan", i)),
    st.sampled_from([0, 1]).map(lambda i: ("p", [0, 1, 0.0, 1.0, True, False, -1, 2][i])),
    st.one_of(gens.small_ints, gens.ints).map(lambda i: ("p", i)),
    gens.number_ints.map(lambda i: ("p", float(i))),
    gens.floats.map(lambda x: ("p", x)),
    gens.strings.map(lambda x: ("p", x)),
    st.sampled_from([b"", b"a", b"\xff"]).map(lambda x: ("p", x)),
)
object_keys = st.one_of(st.integers(0, 3), st.integers(0, 30), st.integers(0, 30)).map(lambda i: ("o", i))
id_keys = st.tuples(st.just("id"), st.integers(0, 3), st.sampled_from(["int", "int", "float", "str"]))
keys = st.one_of(prim_keys, prim_keys, st.rarely(6, object_keys, id_keys))
few = st.one_of(
    st.sampled_from([("p", 0), ("p", 1), ("p", 1.0), ("p", True), ("p", -0.0), ("p", False), ("p", "1"), ("nan", 0), ("nan", 1), ("u",), ("n",), ("p", b"a"), ("p", "a")]),
    st.rarely(6, object_keys, id_keys),
)
vals = st.one_of(st.integers(0, 9), st.integers(0, 9), st.sampled_from([None, False, "", "x"]))


def real(k: tuple, objects: list) -> Any:
    from v8serialize.jstypes import JSUndefined

    if k[0] == "p":
        x = k[1]
        if isinstance(x, str):
            return "".join(list(x))  # not the same object each time
        if isinstance(x, bytes):
            return bytes(bytearray(x))
        return x
    if k[0] == "nan":
        return NANS[k[1]]
    if k[0] == "u":
        return JSUndefined
    if k[0] == "n":
        return None
    return objects[k[1]]


def svz(k: tuple) -> tuple:
    """What a key is the same as, by same-value-zero."""
    if k[0] == "p":
        x = k[1]
        if isinstance(x, bool):
            return ("bool", x)
        if isinstance(x, (int, float)):
            return ("number", "nan" if x != x else x)
        return (type(x).__name__, x)
    if k[0] == "nan":
        return ("number", "nan")
    return k


def matches(x: Any, k: tuple, objects: list) -> bool:
    """Whether x is the key, spelled in any way."""
    r = real(k, objects)
    if k[0] in ("p", "nan"):
        if isinstance(r, bool) or isinstance(x, bool):
            return x is r
        if isinstance(r, (int, float)):
            return isinstance(x, (int, float)) and (x == r or (x != x and r != r))
        return type(x) is type(r) and x == r
    return x is r


def tricky(used: list[tuple]) -> bool:
    for i, a in enumerate(used):
        for b in used[:i]:
            if a == b and type(a[-1]) is type(b[-1]):
                continue
            same = svz(a) == svz(b)
            if same and repr(a) != repr(b):
                return True
            if not same and a[0] == b[0] == "o":
                if sorted((a[1], b[1])) in ([0, 1], [5, 6], [7, 8], [13, 14], [16, 17]):
                    return True
            if not same and a[0] == b[0] == "p" and a[1] == b[1]:
                return True
    return False


class MapModel:
    def __init__(self) -> None:
        self.entries: list[list] = []  # [svz, key, value], in order

    def find(self, k: tuple) -> list | None:
        z = svz(k)
        return next((e for e in self.entries if e[0] == z), None)

    def set(self, k: tuple, v: Any) -> None:
        e = self.find(k)
        if e:
            e[2] = v
        else:
            self.entries.append([svz(k), k, v])

    def delete(self, k: tuple) -> bool:
        e = self.find(k)
        if e:
            self.entries.remove(e)
        return e is not None


def outcome(f: Any) -> tuple:
    try:
        return ("ok", f())
    except KeyError:
        return ("KeyError",)


def check_entries(o: Any, m: MapModel, objects: list, what: str) -> None:
    ks = list(o)
    check(
        len(ks) == len(m.entries) and all(matches(x, e[1], objects) for x, e in zip(ks, m.entries)),
        lambda: f"{what}: keys are {show(ks)}, expected {[e[1] for e in m.entries]}",
    )
    check(len(o) == len(m.entries) and bool(o) == bool(m.entries), lambda: f"{what}: len() is {len(o)}, expected {len(m.entries)}")


def show(x: Any) -> str:
    try:
        return repr(x)
    except Exception as e:
        return repr(type(x)) + repr(type(e))


def check_map(o: Any, m: MapModel, objects: list, what: str, probe: tuple) -> None:
    check_entries(o, m, objects, what)
    vs = [e[2] for e in m.entries]
    check(list(o.values()) == vs, lambda: f"{what}: values are {list(o.values())}, expected {vs}")
    check([v for _, v in o.items()] == vs, f"{what}: items() differs from values()")
    check(all(a is b for (a, _), b in zip(o.items(), o)), f"{what}: items() differs from keys()")
    e = m.find(probe)
    k = real(probe, objects)
    check((k in o) == (e is not None), lambda: f"{what}: {probe} in map is {k in o}")
    check((k in o.keys()) == (e is not None), lambda: f"{what}: {probe} in keys() is {k in o.keys()}")
    check(o.get(k) == (e[2] if e else None), lambda: f"{what}: get({probe}) is {o.get(k)}")
    check(o.get(k, "x") == (e[2] if e else "x"), lambda: f"{what}: get({probe}, x) is {o.get(k, 'x')}")
    r = outcome(lambda: o[k])
    check(r == (("ok", e[2]) if e else ("KeyError",)), lambda: f"{what}: [{probe}] gives {r}")
    if e:
        check((k, e[2]) in o.items() and (k, "no") not in o.items(), f"{what}: membership in items()")


def map_source(form: int, kvs: tuple, objects: list) -> tuple[Any, list]:
    """An argument of the constructor or update(), and the assignments it makes."""
    from v8serialize.jstypes import JSMap

    pairs = [(real(k, objects), v) for k, v in kvs]
    if form == 0:
        return pairs, list(kvs)
    if form == 1:
        return iter(pairs), list(kvs)
    if form == 2:
        m = MapModel()
        for k, v in kvs:
            m.set(k, v)
        return JSMap(pairs), [(k, v) for _, k, v in m.entries]
    # A dict regards more keys as the same: use only those of one type
    d: dict = {}
    plain = [(k, v) for k, v in kvs if k[0] == "p" and isinstance(k[1], str)]
    for k, v in plain:
        d[k] = v
    real_d = {real(k, objects): v for k, v in d.items()}
    if form == 3:
        return real_d, list(d.items())
    return Keyed(real_d), list(d.items())


class Keyed:
    def __init__(self, d: dict) -> None:
        self.d = d

    def keys(self) -> Any:
        return self.d.keys()

    def __getitem__(self, k: Any) -> Any:
        return self.d[k]


def copy_of(arg: Any) -> Any:
    arg = arg.d if isinstance(arg, Keyed) else arg
    return None if not hasattr(arg, "__len__") else list(arg.items()) if hasattr(arg, "items") else list(arg)


def identical(a: Any, b: Any) -> bool:
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and type(a) is type(b):
        return len(a) == len(b) and all(map(identical, a, b))
    return a is b


class Sources:
    """The objects that entries were copied from."""

    def __init__(self) -> None:
        self.all: list = []

    def add(self, arg: Any) -> Any:
        self.all.append((arg, copy_of(arg)))
        return arg

    def change(self) -> None:
        """They haven't changed since; then change them."""
        from v8serialize.jstypes import JSMap

        for arg, was in self.all:
            check(
                was is None or identical(copy_of(arg), was),
                lambda: f"a change of the map or set changed what it was made from, {show(was)}, to {show(copy_of(arg))}",
            )
        for arg, was in self.all:
            if isinstance(arg, list):
                arg.append(("new", 1))
                arg[:1] = []
            elif isinstance(arg, (JSMap, dict, Keyed)):
                d = arg.d if isinstance(arg, Keyed) else arg
                for k in list(d):
                    d[k] = "changed"
                d["new"] = 1
                if len(d) > 2:
                    del d[next(iter(d))]
            elif was is not None and not isinstance(arg, tuple):
                if len(arg) > 1:
                    arg.discard(next(iter(arg)))
                arg.add("new")


def run_map(case: tuple, s: Stats) -> None:
    from v8serialize.jstypes import JSMap

    objects = make_objects()
    init, ops = ground(case, objects)
    m = MapModel()
    used: list[tuple] = []
    sources = Sources()
    if init is None:
        o = JSMap()
    else:
        form, kvs, kw = init
        arg, made = map_source(form, kvs, objects)
        for k, v in made:
            m.set(k, v)
        for k, v in dict(kw).items():
            m.set(("p", k), v)
        used += [k for k, _ in made]
        sources.add(arg)
        o = JSMap(arg, **dict(kw)) if made or form else JSMap(**dict(kw))
    views = (o.keys(), o.values(), o.items())
    check_map(o, m, objects, "initially", ("p", 1))
    for op in ops:
        name = op[0]
        s.label(name)
        k = op[1] if len(op) > 1 and isinstance(op[1], tuple) else ("p", "a")
        r = real(k, objects)
        if name in ("set", "setdefault"):
            used.append(k)
        e = m.find(k)
        if name == "set":
            m.set(k, op[2])
            o[r] = op[2]
        elif name == "del":
            exp = ("ok", None) if m.delete(k) else ("KeyError",)
            got = outcome(lambda: o.__delitem__(r))
            check(got == exp, lambda: f"del [{k}] gives {got}, expected {exp}")
        elif name in ("pop", "popd"):
            d = ("ok", "default") if name == "popd" else ("KeyError",)
            exp = ("ok", e[2]) if e else d
            m.delete(k)
            got = outcome(lambda: o.pop(r, "default") if name == "popd" else o.pop(r))
            check(got == exp, lambda: f"{name}({k}) gives {got}, expected {exp}")
        elif name == "popitem":
            got = outcome(o.popitem)
            if not m.entries:
                check(got == ("KeyError",), f"popitem() of an empty map gives {got}")
            else:
                check(got[0] == "ok", "popitem() fails")
                hit = [x for x in m.entries if matches(got[1][0], x[1], objects) and x[2] == got[1][1]]
                check(len(hit) == 1, lambda: f"popitem() gives {show(got)}, which isn't an item")
                m.entries.remove(hit[0])
        elif name == "setdefault":
            if not e:
                m.set(k, op[2])
            exp_v = e[2] if e else op[2]
            got_v = o.setdefault(r, op[2])
            check(got_v == exp_v, lambda: f"setdefault({k}) gives {got_v}, expected {exp_v}")
        elif name == "update":
            _, form, kvs, kw = op
            arg, made = map_source(form, kvs, objects)
            used += [x for x, _ in made]
            for x, v in made + [(("p", a), v) for a, v in dict(kw).items()]:
                m.set(x, v)
            sources.add(arg)
            if made or form:
                o.update(arg, **dict(kw))
            else:
                o.update(**dict(kw))
        elif name == "self":
            o.update(o)
        elif name == "clear":
            m.entries.clear()
            o.clear()
        check_map(o, m, objects, f"after {op}", k)
        check(len(views[0]) == len(views[1]) == len(views[2]) == len(o), "a view is not live")
        check(list(views[1]) == list(o.values()), "values() is not live")
    sources.change()
    check_map(o, m, objects, "after changes of the maps it was made from", ("p", "new"))
    s.nontrivial(tricky(used))
    # An equal map can be made from its items
    if not any(e[0] == ("number", "nan") or e[1] == ("o", 4) for e in m.entries):
        again = JSMap(o.items())
        check(again == o and o == again and not o != again, "a map of the same items is not equal")
        again[Plain] = 1
        check(again != o and not o == again, "a map with one more item is equal")


kvs = st.lists(st.tuples(st.one_of(keys, few), vals), max_size=6).map(tuple)
kwargs = st.lists(st.tuples(gens.name_keys, vals), max_size=2).map(tuple)


def map_ops(k: Any) -> Any:
    j = st.just
    return st.one_of(
        st.tuples(j("set"), k, vals),
        st.tuples(j("set"), k, vals),
        st.tuples(j("set"), k, vals),
        st.tuples(j("del"), k),
        st.tuples(j("del"), k),
        st.tuples(j("get"), k),
        st.tuples(j("pop"), k),
        st.tuples(j("popd"), k),
        st.tuples(j("popitem")),
        st.tuples(j("setdefault"), k, vals),
        st.tuples(j("update"), st.integers(0, 4), kvs, kwargs),
        st.one_of(st.tuples(j("self")), st.tuples(j("clear"))),
    )


map_cases = st.tuples(
    st.one_of(st.none(), st.tuples(st.integers(0, 4), kvs, kwargs)),
    st.one_of(st.lists(map_ops(keys), max_size=14), st.lists(map_ops(few), max_size=18)),
)


# ----------------------------------------------------------------------- sets


def build_set(ks: tuple, objects: list) -> tuple[Any, MapModel]:
    from v8serialize.jstypes import JSSet

    m = MapModel()
    for k in ks:
        m.set(k, None)
    return JSSet(real(k, objects) for k in ks), m


def operand(form: int, ks: tuple, objects: list) -> Any:
    vals_ = [real(k, objects) for k in ks]
    if form == 0:
        return build_set(ks, objects)[0]
    return [lambda: vals_, lambda: iter(vals_), lambda: tuple(vals_)][form - 1]()


def order_free(o: Any, zs: list[tuple], objects: list, what: str) -> None:
    """That a set has these members (any order); zs: keys by svz."""
    got = list(o)
    check(len(got) == len(zs), lambda: f"{what} has {show(got)}, expected {zs}")
    for k in zs:
        check(sum(1 for x in got if matches(x, k, objects)) == 1, lambda: f"{what} has {show(got)}, expected {zs}")


def run_set(case: tuple, s: Stats) -> None:
    from v8serialize.jstypes import JSSet

    objects = make_objects()
    init, ops = ground(case, objects)
    o, m = build_set(init, objects)
    used = list(init)
    sources = Sources()
    check_entries(o, m, objects, "initially")
    for op in ops:
        name = op[0]
        s.label(name)
        what = f"{op} of {[e[1] for e in m.entries]}"
        if name in ("add", "discard", "remove", "in"):
            k, r = op[1], real(op[1], objects)
            if name == "add":
                used.append(k)
                m.set(k, None)
                check(o.add(r) is None, "add() gives something")
            elif name == "discard":
                m.delete(k)
                check(o.discard(r) is None, "discard() gives something")
            elif name == "remove":
                exp = ("ok", None) if m.delete(k) else ("KeyError",)
                got = outcome(lambda: o.remove(r))
                check(got == exp, lambda: f"{what} gives {got}, expected {exp}")
            check((r in o) == (m.find(k) is not None), lambda: f"{what}: then membership is {r in o}")
        elif name == "pop":
            got = outcome(o.pop)
            if not m.entries:
                check(got == ("KeyError",), f"pop() of an empty set gives {got}")
            else:
                hit = [e for e in m.entries if got[0] == "ok" and matches(got[1], e[1], objects)]
                check(len(hit) == 1, lambda: f"{what} gives {show(got)}")
                m.entries.remove(hit[0])
        elif name == "clear":
            m.entries.clear()
            o.clear()
        elif name in ("or", "and", "sub", "xor", "ior", "iand", "isub", "ixor", "ror", "rsub", "rand", "rxor"):
            form, ks = op[1], op[2]
            used += ks
            _, bm = build_set(ks, objects)
            b = sources.add(operand(form, ks, objects))
            mine, theirs = [e[1] for e in m.entries], [e[1] for e in bm.entries]
            a_keys, b_keys = list(mine), list(theirs)
            if name[0] == "r" and name != "remove":
                a_keys, b_keys = b_keys, a_keys
            in_a, in_b = {svz(k) for k in a_keys}, {svz(k) for k in b_keys}
            base = name.lstrip("ri") if name not in ("ior",) else "or"
            base = {"o": "or", "or": "or", "and": "and", "sub": "sub", "xor": "xor"}.get(base, base)
            if base == "or":
                exp_k = a_keys + [k for k in b_keys if svz(k) not in in_a]
            elif base == "and":
                exp_k = [k for k in a_keys if svz(k) in in_b]
            elif base == "sub":
                exp_k = [k for k in a_keys if svz(k) not in in_b]
            else:
                exp_k = [k for k in a_keys if svz(k) not in in_b] + [k for k in b_keys if svz(k) not in in_a]
            if name[0] == "i":
                before = o
                if name == "ior":
                    o |= b
                elif name == "iand":
                    o &= b
                elif name == "isub":
                    o -= b
                else:
                    o ^= b
                check(o is before, f"{what} made another set")
                res = o
                m.entries = [[svz(k), k, None] for k in exp_k]
            elif name[0] == "r":
                if form == 2:
                    b = list(b)
                res = {"or": o.__ror__, "and": o.__rand__, "sub": o.__rsub__, "xor": o.__rxor__}[base](b)
            else:
                res = {"or": lambda: o | b, "and": lambda: o & b, "sub": lambda: o - b, "xor": lambda: o ^ b}[base]()
            check(type(res) is JSSet, lambda: f"{what} gives a {type(res)}")
            check(name[0] == "i" or (res is not o and res is not b), lambda: f"{what} gives one of the operands")
            if name[0] != "i":
                sources.add(res)
            if base in ("or", "sub") and name[0] != "r":
                check_entries(res, as_model(exp_k), objects, what)  # in order
            else:
                order_free(res, exp_k, objects, what)
                if name[0] == "i":
                    m.entries = reorder(list(o), m.entries, objects)
        elif name == "compare":
            ks = op[1]
            b, bm = build_set(ks, objects)
            mz, bz = {e[0] for e in m.entries}, {e[0] for e in bm.entries}
            used += ks
            for text, got, exp in (
                ("<=", o <= b, mz <= bz),
                ("<", o < b, mz < bz),
                (">=", o >= b, mz >= bz),
                (">", o > b, mz > bz),
                ("isdisjoint", o.isdisjoint(b), not mz & bz),
            ):
                check(got == exp, lambda: f"{text} of {what} is {got}")
        elif name == "self":
            which = op[1]
            if which == 0:
                o |= o
            elif which == 1:
                o &= o
            elif which == 2:
                o -= o
                m.entries.clear()
            else:
                o ^= o
                m.entries.clear()
        check_entries(o, m, objects, f"after {what}")
    sources.change()
    check_entries(o, m, objects, "after changes of the other sets")
    s.nontrivial(tricky(used))
    if not any(e[0] == ("number", "nan") or e[1] == ("o", 4) for e in m.entries):
        again = JSSet(o)
        check(again == o and not o != again, "a set of the same members is not equal")
        again.add(Plain)
        check(again != o and not o == again, "a set with one more member is equal")


def as_model(ks: list) -> MapModel:
    m = MapModel()
    m.entries = [[svz(k), k, None] for k in ks]
    return m


def reorder(got: list, entries: list, objects: list) -> list:
    return [next(e for e in entries if matches(x, e[1], objects)) for x in got]


ks_of = st.lists(st.one_of(few, few, keys), max_size=6).map(tuple)


def set_ops() -> Any:
    j = st.just
    k = st.one_of(few, keys)
    alg = st.sampled_from(["or", "and", "sub", "xor", "ior", "iand", "isub", "ixor", "ror", "rsub", "rand", "rxor"])
    return st.one_of(
        st.tuples(j("add"), k),
        st.tuples(j("add"), k),
        st.tuples(j("discard"), k),
        st.tuples(j("remove"), k),
        st.tuples(j("in"), k),
        st.tuples(alg, st.integers(0, 3), ks_of),
        st.tuples(alg, st.integers(0, 3), ks_of),
        st.tuples(j("compare"), ks_of),
        st.one_of(st.tuples(j("pop")), st.tuples(j("pop")), st.tuples(j("self"), st.integers(0, 3)), st.tuples(j("clear"))),
    )


# --------------------------------------------------------------- key function


def run_key(case: tuple, s: Stats) -> None:
    from v8serialize.jstypes import same_value_zero

    objects = make_objects()
    a, b = ground(case, objects)
    x, y = same_value_zero(real(a, objects)), same_value_zero(real(b, objects))
    exp = svz(a) == svz(b)
    s.nontrivial(tricky([a, b]))
    check((x == y) == exp and (y == x) == exp, lambda: f"same_value_zero says {x == y} of {a} and {b}")
    if exp:
        check(hash(x) == hash(y), lambda: f"hashes of {a} and {b} differ")
    check(x == x and len({x, y}) == (1 if exp else 2), f"as members of a set: {a} and {b}")


# ----------------------------------------------------------------- against V8


def js_key(k: tuple) -> list | None:
    if k[0] == "nan":
        return ["d", "7ff8000000000000"]
    if k[0] in "un":
        return [k[0]]
    if k[0] == "o":
        return list(k)
    x = k[1]
    if isinstance(x, bool):
        return ["t" if x else "f"]
    if isinstance(x, bytes) or (isinstance(x, int) and abs(x) > SAFE):
        return None
    if isinstance(x, str):
        return ["s", utf16(x)]
    return ["d", struct.pack(">d", x).hex() if x == x else "7ff8000000000000"]


def norm_key(k: list) -> tuple:
    if k[0] == "d":
        x = struct.unpack(">d", bytes.fromhex(k[1]))[0]
        return ("nan",) if x != x else ("d", x + 0.0)
    return tuple(k) if k[0] != "s" else ("s", utf16(k[1]))


def run_v8(case: tuple, s: Stats) -> None:
    from v8serialize.jstypes import JSMap, JSSet, JSUndefined

    objects = make_objects()
    is_set, ops = ground(case, objects)
    o = JSSet() if is_set else JSMap()
    sent, states = [], []

    def show_key(x: Any) -> tuple:
        if x is JSUndefined:
            return ("u",)
        if x is None:
            return ("n",)
        if isinstance(x, bool):
            return ("t",) if x else ("f",)
        if isinstance(x, (int, float)):
            return ("nan",) if x != x else ("d", x + 0.0)
        if isinstance(x, str):
            return ("s", utf16(x))
        return ("o", next(i for i, y in enumerate(objects) if y is x))

    used = []
    for op, k, v in ops:
        jk = js_key(k)
        if jk is None:
            continue
        used.append(k)
        r = real(k, objects)
        res = None
        if op == "set":
            o.add(r) if is_set else o.__setitem__(r, v)
        elif op == "del":
            res = r in o
            if is_set:
                o.discard(r)
            elif res:
                del o[r]
        elif op == "has":
            res = r in o
        else:
            o.clear()
        sent.append([op, jk, v])
        states.append((res, [show_key(x) for x in o] if is_set else [(show_key(x), y) for x, y in o.items()]))
    out = bridge.call("keyed", set=is_set, ops=sent)["out"]
    s.nontrivial(tricky(used))
    check(len(out) == len(states), "missing states")
    for i, ((res, st_), (jres, jst)) in enumerate(zip(states, out)):
        exp = [norm_key(x) for x in jst] if is_set else [(norm_key(x), y) for x, y in jst]
        check(st_ == exp and res == jres, lambda: f"after {sent[: i + 1]}: {res} {st_}, JavaScript has {jres} {exp}")


v8_ops = st.lists(
    st.tuples(st.sampled_from(["set", "set", "set", "set", "del", "del", "has", "set", "set", "clear"]), st.one_of(few, few, keys), vals),
    max_size=20,
)

CASES = [
    Case("map-sequences", run_map, strategy=lambda: map_cases, quick=10000, thorough=250000),
    Case("set-sequences", run_set, strategy=lambda: st.tuples(ks_of, st.lists(set_ops(), max_size=12)), quick=10000, thorough=250000),
    Case("key-function", run_key, strategy=lambda: st.tuples(st.one_of(keys, few), st.one_of(keys, few)), quick=8000, thorough=150000),
    Case("against-v8", run_v8, strategy=lambda: st.tuples(st.booleans(), v8_ops), quick=4000, thorough=80000),
]
