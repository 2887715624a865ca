"""C10: dense and sparse array storage both behave as one list with holes."""

from __future__ import annotations

from typing import Any

from vk import st
from vk.core import Case, Stats, check, violated

RULE = (
    "Generated sequences of the operations of a mutable sequence with holes, applied to a "
    "dense and a sparse storage and to a plain list with hole markers: results, errors and "
    "all that can be observed afterwards are compared at every step. Long sparse storages "
    "(up to 2**32-1) are compared with a dict. Non-trivial: a hole and an element are both "
    "present at some step, and the sequence changes positions (insert, del, pop, remove, "
    "reverse or a shrinking resize)."
)
ASSUMPTIONS = ["Slices are not supported by either storage and are not used."]

MAX = 2**32 - 1
MOVES = {"insert", "del", "pop", "remove", "reverse", "resize"}
NAN = float("nan")
VALUES = [1, 2, 3, 1, 2, 1.0, True, False, 0, "a", "b", None, NAN, -1, "JSHole", (1, 2)]

vals = st.one_of(st.integers(0, len(VALUES) - 1), st.integers(0, 4), st.just(-1))  # -1: a hole
idx = st.one_of(st.integers(-3, 12), st.integers(-3, 6), st.integers(-20, 20), st.sampled_from([MAX, -MAX, 2**31, 2**40]))
many = st.lists(vals, max_size=6).map(tuple)
ORDERS = ["ASCENDING", "DESCENDING", "UNORDERED"]


def value(i: int) -> Any:
    from v8serialize.jstypes import JSHole

    return JSHole if i < 0 else VALUES[i]


ops = st.one_of(
    st.tuples(st.just("set"), idx, vals),
    st.tuples(st.just("set"), idx, vals),
    st.tuples(st.just("del"), idx),
    st.tuples(st.just("insert"), idx, vals),
    st.tuples(st.just("insert"), idx, vals),
    st.tuples(st.just("append"), vals),
    st.tuples(st.just("extend"), many, st.integers(0, 3)),
    st.tuples(st.just("iadd"), many, st.integers(0, 3)),
    st.tuples(st.just("pop"), st.one_of(st.none(), idx)),
    st.tuples(st.just("remove"), vals),
    st.tuples(st.just("reverse")),
    st.tuples(st.just("resize"), st.one_of(st.integers(-1, 24), st.integers(0, 8), st.sampled_from([MAX + 1, -5, 2**40]))),
    st.tuples(st.just("get"), idx),
    st.tuples(st.just("index"), vals, st.integers(-6, 8), st.one_of(st.none(), st.integers(-6, 12))),
    st.tuples(st.just("count"), vals),
    st.tuples(st.just("contains"), vals),
    st.tuples(st.just("clear")),
    st.tuples(st.just("scan"), st.sampled_from(ORDERS), idx),
)


def outcome(f: Any) -> tuple:
    try:
        return ("ok", f())
    except (IndexError, ValueError) as e:
        return ("error", IndexError if isinstance(e, IndexError) else ValueError)


def alike(a: tuple, b: tuple) -> bool:
    if a[0] != b[0]:
        return False
    return a[1] is b[1] or (type(a[1]) is type(b[1]) and a[1] == b[1])


def same_list(a: list, b: list) -> bool:
    return len(a) == len(b) and all(x is y or (type(x) is type(y) and x == y) for x, y in zip(a, b))


def iterable(vs: list, form: int, a: Any) -> Any:
    if form == 0:
        return list(vs)
    if form == 1:
        return iter(vs)
    if form == 2:
        return a  # the sequence itself
    return other(a, vs)


def other(a: Any, vs: list) -> Any:
    """The values as a storage of the other kind (for a list: the same list)."""
    from v8serialize.jstypes.jsarrayproperties import DenseArrayProperties, SparseArrayProperties

    if isinstance(a, list):
        return list(vs)
    return (SparseArrayProperties if isinstance(a, DenseArrayProperties) else DenseArrayProperties)(vs)


def apply(a: Any, op: tuple) -> tuple:
    """Apply an operation to a storage or list; what comes of it."""
    name = op[0]
    is_list = isinstance(a, list)

    def go() -> Any:
        from v8serialize.jstypes import JSHole

        nonlocal a
        if name == "set":
            a[op[1]] = value(op[2])
        elif name == "del":
            del a[op[1]]
        elif name == "insert":
            a.insert(op[1], value(op[2]))
        elif name == "append":
            a.append(value(op[1]))
        elif name == "extend":
            a.extend(iterable([value(v) for v in op[1]], op[2], a))
        elif name == "iadd":
            b = a
            a += iterable([value(v) for v in op[1]], op[2], a)
            check(a is b, "+= made a new sequence")
        elif name == "pop":
            return a.pop() if op[1] is None else a.pop(op[1])
        elif name == "remove":
            a.remove(value(op[1]))
        elif name == "reverse":
            a.reverse()
        elif name == "resize":
            if not is_list:
                a.resize(op[1])
            elif not 0 <= op[1] <= MAX:
                raise ValueError
            elif op[1] <= len(a):
                del a[op[1] :]
            else:
                a.extend([JSHole] * (op[1] - len(a)))
        elif name == "get":
            return a[op[1]]
        elif name == "index":
            if op[3] is None:
                return a.index(value(op[1]), op[2])
            return a.index(value(op[1]), op[2], op[3])
        elif name == "count":
            return a.count(value(op[1]))
        elif name == "contains":
            return value(op[1]) in a
        elif name == "clear":
            a.clear()
        return None

    return outcome(go)


def order_of(name: str) -> Any:
    from v8serialize._typing import Order

    return Order[name]


def observe(a: Any, model: list, kind: str, view: Any = None, order: str = "ASCENDING", key: int = 0) -> None:
    from v8serialize.jstypes import JSHole

    check(len(a) == len(model), lambda: f"{kind}: length is {len(a)}, expected {len(model)}")
    check(same_list(list(a), model), lambda: f"{kind}: is {list(a)}, expected {model}")
    check(same_list(list(reversed(a)), model[::-1]), lambda: f"{kind}: reversed is {list(reversed(a))}, expected {model[::-1]}")
    check(same_list([a[i] for i in range(len(model))], model), f"{kind}: indexing differs from iteration")
    els = [(i, v) for i, v in enumerate(model) if v is not JSHole]
    check(a.elements_used == len(els), lambda: f"{kind}: elements_used is {a.elements_used}, expected {len(els)}")
    check(a.hole_value is JSHole, f"{kind}: hole_value")
    indexes = [i for i, _ in els]
    check(list(a.element_indexes()) == indexes, lambda: f"{kind}: element_indexes() is {list(a.element_indexes())}, expected {indexes}")
    check(bool(a) == bool(model), f"{kind}: truth")
    o = order_of(order)
    got = list(a.element_indexes(order=o))
    exp = indexes[::-1] if order == "DESCENDING" else indexes
    if order == "UNORDERED":
        got = sorted(got)
    check(got == exp, lambda: f"{kind}: {order} element_indexes() is {got}, expected {exp}")
    for v in ([view] if view is not None else []) + [a.elements(order=o)]:
        got = list(v)
        want = indexes if v is view else exp
        if v is not view and order == "UNORDERED":
            got = sorted(got)
        check(got == want, lambda: f"{kind}: elements view has keys {got}, expected {want}")
        check(len(v) == len(els), f"{kind}: len() of elements view")
        d = dict(els)
        check(same_list([x for _, x in sorted(v.items(), key=lambda e: e[0])], [x for _, x in els]), f"{kind}: items of elements view")
        check((key in v) == (key in d), lambda: f"{kind}: {key} in elements view is {key in v}")
        check(v.get(key, "absent") is d.get(key, "absent") or v.get(key, "absent") == d.get(key, "absent"), f"{kind}: get() of elements view")
        try:
            x = v[key]
        except KeyError:
            check(key not in d, lambda: f"{kind}: elements view has no {key}")
        else:
            check(key in d and (x is d[key] or x == d[key]), lambda: f"{kind}: elements view has {x!r} at {key}")


def has_nan(model: list) -> bool:
    return any(v is NAN for v in model)


def agree(d: Any, s: Any, model: list) -> None:
    from v8serialize.jstypes.jsarrayproperties import DenseArrayProperties, SparseArrayProperties

    if has_nan(model):  # not equal to itself, so the answer isn't specified here
        return
    check(d == s and s == d and not d != s and not s != d, "dense and sparse storage with the same elements differ")
    check(str(d) == str(s), lambda: f"printed as {d} and {s}")
    for a in (d, s):
        check(a == a, "not equal to itself")
        for cls in (DenseArrayProperties, SparseArrayProperties):
            b = cls(model)
            check(a == b and b == a, "not equal to a new storage with the same elements")
            b.append(value(-1))
            check(a != b and b != a and not a == b, "equal to a longer storage")
            if model:
                b.pop()
                b[-1] = "different"
                check(a != b and b != a and not a == b, "equal to a storage with another element")
        check(a != model, "equal to a list")


class Keyed:
    """Not a Mapping, but has keys() and items can be looked up."""

    def __init__(self, entries: dict) -> None:
        self.entries = entries

    def keys(self) -> Any:
        return list(self.entries)

    def __getitem__(self, i: int) -> Any:
        return self.entries[i]


def create(init: tuple) -> tuple[Any, Any, list]:
    from v8serialize.jstypes.jsarrayproperties import DenseArrayProperties, SparseArrayProperties

    form, vs, entries, extra = init
    values = [value(v) for v in vs]
    if form < 4:
        make = [lambda: list(values), lambda: iter(values), lambda: tuple(values), lambda: SparseArrayProperties(values)][form]
        s = SparseArrayProperties(make())
        d = DenseArrayProperties(make())
        return d, s, values
    es = {i: value(v) for i, v in entries if v >= 0}
    pairs = [(i, value(v)) for i, v in entries if v >= 0]  # the last one counts
    arg: Any = [pairs, dict(es), iter(pairs), Keyed(es)][form - 4]
    if extra is None:
        s = SparseArrayProperties(entries=arg)
        n = max(es, default=-1) + 1
    else:
        s = SparseArrayProperties(entries=arg, length=extra)
        n = extra
    model = [es.get(i, value(-1)) for i in range(n)]
    return DenseArrayProperties(model), s, model


def run(case: tuple, s: Stats) -> None:
    from collections.abc import MutableSequence

    init, ops, seen = case
    d, sp, model = create(init)
    check(isinstance(d, MutableSequence) and isinstance(sp, MutableSequence), "not a MutableSequence")
    views = d.elements(), sp.elements()
    mixed = moved = False
    if seen & 1:
        observe(d, model, "dense", views[0])
        observe(sp, model, "sparse", views[1])
        agree(d, sp, model)
    for step, op in enumerate(ops, 1):
        s.label(op[0])
        if op[0] in ("extend", "iadd", "insert") and len(model) > 200:
            continue
        before = list(model)
        exp = apply(model, op)
        rd, rs = apply(d, op), apply(sp, op)
        check(alike(rd, rs), lambda: f"{op} of {before}: dense gives {rd}, sparse gives {rs}")
        if op[0] == "insert" and op[1] < -len(before):
            # A list inserts at its start; both storages may refuse.
            if rd[0] == "error":
                check(rd[1] is IndexError, f"{op} of {before}: dense gives {rd}")
                model[:] = before
                exp = rd
        check(alike(rd, exp), lambda: f"{op} of {before}: gives {rd}, expected {exp}")
        holes = sum(1 for v in model if v is value(-1))
        mixed |= 0 < holes < len(model)
        moved |= op[0] in MOVES and before != model
        order, key = ("ASCENDING", 0) if op[0] != "scan" else op[1:]
        if not seen >> step & 1 and step < len(ops):
            continue  # reading can change what is cached
        observe(d, model, "dense", views[0], order, key)
        observe(sp, model, "sparse", views[1], order, key)
        agree(d, sp, model)
    s.nontrivial(mixed and moved)


# Which steps are followed by reading everything
seen_steps = st.one_of(st.just(-1), st.integers(0, 2**20 - 1), st.just(0))
inits = st.tuples(
    st.integers(0, 7),
    st.lists(vals, max_size=8).map(tuple),
    st.lists(st.tuples(st.integers(0, 20), vals), max_size=6).map(tuple),
    st.one_of(st.none(), st.integers(0, 24)),
)


# ------------------------------------------------------------- long storages

big_idx = st.one_of(
    st.integers(0, 10),
    st.integers(-10, -1),
    st.integers(0, MAX - 1),
    st.integers(-MAX, -1),
    st.sampled_from([0, 1, 2**31, MAX - 2, MAX - 1, MAX, MAX + 1, -MAX, -MAX - 1]),
)
big_ops = st.one_of(
    st.tuples(st.just("set"), big_idx, vals),
    st.tuples(st.just("set"), big_idx, vals),
    st.tuples(st.just("near"), st.integers(-2, 2), vals),
    st.tuples(st.just("del"), big_idx),
    st.tuples(st.just("insert"), big_idx, vals),
    st.tuples(st.just("append"), vals),
    st.tuples(st.just("extend"), many),
    st.tuples(st.just("pop"), st.one_of(st.none(), big_idx)),
    st.tuples(st.just("resize"), st.one_of(big_idx, st.sampled_from([MAX, MAX - 1, MAX - 3]))),
    st.tuples(st.just("get"), big_idx),
)


def run_long(case: tuple, s: Stats) -> None:
    from v8serialize.jstypes import JSHole
    from v8serialize.jstypes.jsarrayproperties import SparseArrayProperties

    length, entries, ops, seen = case
    els = {i % length: value(v) for i, v in entries if v >= 0}
    a = SparseArrayProperties(entries=els, length=length)
    used = moved = False
    last = 0
    for step, op in enumerate(ops, 1):
        name = op[0]
        s.label(name)
        if name == "near":
            op = ("set", last + op[1], op[2])
            name = "set"
        exp: tuple = ("ok", None)
        before, blen = dict(els), length
        i = op[1] if len(op) > 1 and isinstance(op[1], int) else None
        if name in ("set", "get", "del", "pop"):
            if name == "pop" and i is None:
                i = -1
            if not -length <= i < length:
                exp = ("error", IndexError)
            else:
                i %= length
                last = i
                if name == "set":
                    els[i] = value(op[2])
                    if els[i] is JSHole:
                        del els[i]
                else:
                    v = els.get(i, JSHole)
                    exp = ("ok", None if name == "del" else v)
                    if name != "get":
                        els = {(k if k < i else k - 1): x for k, x in els.items() if k != i}
                        length -= 1
        elif name == "insert":
            if i < -length or length >= MAX:
                exp = ("error", IndexError)
            else:
                i = min(i, length) if i >= 0 else i + length
                els = {(k if k < i else k + 1): x for k, x in els.items()}
                if op[2] >= 0:
                    els[i] = value(op[2])
                length += 1
        elif name == "append":
            if length >= MAX:
                exp = ("error", IndexError)
            else:
                if op[1] >= 0:
                    els[length] = value(op[1])
                length += 1
        elif name == "extend":
            for v in op[1]:
                if length >= MAX:
                    exp = ("error", IndexError)
                    break
                if v >= 0:
                    els[length] = value(v)
                length += 1
        elif name == "resize":
            if not 0 <= i <= MAX:
                exp = ("error", ValueError)
            else:
                length = i
                els = {k: x for k, x in els.items() if k < i}
        got = apply(a, (*op, 0) if name == "extend" else op)
        check(alike(got, exp), lambda: f"{op} of length {blen} and {before}: gives {got}, expected {exp}")
        moved |= name in MOVES and exp[0] == "ok"
        used |= bool(els)
        if not seen >> step & 1 and step < len(ops):
            continue
        check(len(a) == length, lambda: f"{op} of length {blen} and {before}: length is {len(a)}, expected {length}")
        asc = sorted(els)
        check(list(a.element_indexes()) == asc, lambda: f"{op} of {before}: indexes are {list(a.element_indexes())}, expected {asc}")
        check(list(a.element_indexes(order=order_of("DESCENDING"))) == asc[::-1], "descending order")
        check(same_list([x for _, x in a.elements().items()], [els[k] for k in asc]), lambda: f"{op} of {before}: elements are {dict(a.elements())}, expected {els}")
        check(a.elements_used == len(els), "elements_used")
        for k in [*asc[:3], last, length - 1]:
            if 0 <= k < length:
                x = els.get(k, JSHole)
                check(alike(("ok", a[k]), ("ok", x)) and alike(("ok", a[k - length]), ("ok", x)), f"element {k} differs")
        for k in (length, -length - 1):
            check(outcome(lambda: a[k]) == ("error", IndexError), lambda: f"index {k} of length {length} is not refused")
    s.nontrivial(used and moved)


long_cases = st.tuples(
    st.sampled_from([1, 50, 2**31, MAX - 2, MAX - 1, MAX]),
    st.lists(st.tuples(st.integers(0, MAX), vals), max_size=5).map(tuple),
    st.lists(big_ops, max_size=14),
    seen_steps,
)


# ----------------------------------------------------------- construction


def run_bad(case: tuple, s: Stats) -> None:
    """Lengths and entries that no array can have are refused."""
    from v8serialize.jstypes.jsarrayproperties import SparseArrayProperties

    entries, length = case
    bad_length = length is not None and not 0 <= length <= MAX
    bad_entry = any(i < 0 or (length is None and i >= MAX) for i, _ in entries)
    s.nontrivial(bad_length or bad_entry)
    r = outcome(lambda: SparseArrayProperties(entries=list(entries), length=length))
    if not (bad_length or bad_entry):
        check(r[0] == "ok", lambda: f"refused: {r}")
        n = length if length is not None else max([i for i, _ in entries], default=-1) + 1
        exp = {i: v for i, v in dict(entries).items() if i < n}
        check(len(r[1]) == n and dict(r[1].elements()) == exp, "constructed with other elements")
    else:
        check(r[0] == "error", lambda: f"entries {entries} and length {length} are accepted")


bad_cases = st.tuples(
    st.lists(st.tuples(big_idx, st.integers(0, 9)), max_size=4).map(tuple),
    st.one_of(st.none(), big_idx),
)

CASES = [
    Case("operation-sequences", run, strategy=lambda: st.tuples(inits, st.lists(ops, max_size=16), seen_steps), quick=30000, thorough=400000),
    Case("long-arrays", run_long, strategy=lambda: long_cases, quick=6000, thorough=150000),
    Case("construction", run_bad, strategy=lambda: bad_cases, quick=1500, thorough=20000),
]
