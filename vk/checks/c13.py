"""C13: equality of JavaScript containers is lawful and terminates on cycles."""

from __future__ import annotations

import math
import sys
import threading
from collections import OrderedDict
from datetime import datetime, timedelta, timezone
from types import MappingProxyType
from typing import Any, Callable

from vk import st
from vk.core import Case, Stats, check, violated

RULE = (
    "Generated graphs of JSObject, JSArray, JSMap, JSSet, JSError and JSErrorData with shared "
    "and cyclic references. Compared are copies, copies with an edit (an entry changed, moved, "
    "added or removed, a reference unshared, retargeted or unrolled, another kind of container), "
    "copies with another history (sparse storage, deleted properties) and parts of one graph. The "
    "answers of ==, != and of the swapped comparison are compared with a reference definition "
    "that only iterates over the containers. Histories add comparisons that raise part-way, and "
    "comparisons in other threads while one is under way. Non-trivial: the two are distinct "
    "containers of the same kind, with a container inside."
)
ASSUMPTIONS = [
    "Where a path leads back to a container it came through, the two sides are equal only if the "
    "other side leads back to the matching container: the documented meaning of equality with cycles.",
    "NaN is left out (but for the case \"lists\"), as Python compares it by identity inside containers.",
    "Shared references are few: the library's comparison (like Python's own) compares a part once "
    "for every path to it.",
    "JSMap and JSSet are compared with dicts and sets only if their keys are hashable.",
]

MAX_WORK = 3000


class Boom(Exception):
    pass


class Gate:
    """A leaf that lets something happen in the middle of a comparison."""

    hook: Callable[[], None] | None = None
    owner: int | None = None

    def __init__(self, tag: int) -> None:
        self.tag = tag

    def __eq__(self, other: object) -> bool:
        h = Gate.hook
        if h is not None and Gate.owner == threading.get_ident():
            h()
        return isinstance(other, Gate) and self.tag == other.tag

    def __hash__(self) -> int:
        return hash(self.tag)

    def __repr__(self) -> str:
        return f"Gate({self.tag})"


def leaves() -> list[Callable[[], Any]]:
    from v8serialize import jstypes as j
    from v8serialize.constants import JSRegExpFlag, SerializationTag

    t = datetime(2024, 1, 1, tzinfo=timezone.utc)
    buf = lambda b: j.JSArrayBuffer(bytearray(b))  # noqa: E731
    return [
        lambda: Gate(0),
        lambda: Gate(1),
        lambda: Gate(0),
        lambda: j.JSRegExp("a"),
        lambda: j.JSRegExp("b"),
        lambda: j.JSRegExp("a", JSRegExpFlag.Global),
        lambda: t,
        lambda: t.astimezone(timezone(timedelta(hours=2))),
        lambda: t + timedelta(milliseconds=1),
        lambda: j.JSPrimitiveObject(1),
        lambda: j.JSPrimitiveObject(1, SerializationTag.kBigIntObject),
        lambda: j.JSPrimitiveObject("a"),
        lambda: b"ab",
        lambda: bytearray(b"ab"),
        lambda: bytearray(b"ac"),
        lambda: buf(b"ab"),
        lambda: buf(b"ac"),
        lambda: buf(b"abc"),
        lambda: j.JSUint8Array(buf(b"ab")),
        lambda: j.JSUint8Array(buf(b"ac")),
        lambda: j.JSUint8Array(buf(b"xab"), 1),
        lambda: j.JSDataView(buf(b"ab")),
        lambda: [1, "a"],
        lambda: [1, "b"],
        lambda: {"a": 1},
        lambda: (1, 2),
    ]


# What makes two leaves equal
LEAF_KEYS = [
    "g0", "g1", "g0", "ra", "rb", "rag", "t0", "t0", "t1", "p1", "p1n", "pa", "bab", "bab", "bac", "ab", "ac", "abc",
    "u8ab", "u8ac", "u8ab", "dvab", "l1a", "l1b", "da1", "t12",
]  # fmt: skip
PRIMS = [0, 1, 2, "a", "b", None, 1.0, True, False, -0.0, "", "1", 0.5, 2**70, "undefined", "☃"]

prim = st.one_of(st.integers(0, 3), st.integers(0, len(PRIMS) - 1)).map(lambda i: ("p", i))
leaf = st.one_of(st.integers(0, 2), st.integers(0, len(LEAF_KEYS) - 1)).map(lambda i: ("l", i))
ref = st.integers(0, 7).map(lambda i: ("r", i))
val = st.one_of(prim, prim, leaf, ref, ref, ref)
el = st.one_of(val, val, val, st.just(("h",)))
keys = st.sampled_from([0, 1, "a", "b", "c", 3, "4", 40, "x y", "-1"])
names = st.sampled_from(["a", "b", "c", "-1"])
how = st.sampled_from([0, 0, 1, 2])  # usual; sparse storage; after deleting


def some(e: Any, n: int = 4) -> Any:
    return st.lists(e, max_size=n).map(tuple)


obj = st.tuples(st.just("obj"), some(st.tuples(keys, val)), how)
arr = st.tuples(st.just("arr"), some(el), how, st.one_of(st.just(()), some(st.tuples(names, val), 2)))
jsmap = st.tuples(st.just("map"), some(st.tuples(val, val), 3), how)
jsset = st.tuples(st.just("set"), some(val), how)
err = st.tuples(
    st.just("err"),
    st.sampled_from(["JSError", "JSErrorData"]),
    st.sampled_from(["Error", "TypeError", "Odd"]),
    st.sampled_from([None, "", "m", "n"]),
    st.sampled_from([None, "", "s"]),
    st.one_of(st.none(), val, ref),
)
node = st.one_of(obj, obj, arr, arr, jsmap, jsset, err)
spec = st.lists(node, min_size=1, max_size=5).map(tuple)


def build(nodes: tuple) -> list:
    from v8serialize.jstypes import JSArray, JSError, JSErrorData, JSHole, JSMap, JSObject, JSSet

    table = leaves()
    classes = {"obj": JSObject, "arr": JSArray, "map": JSMap, "set": JSSet}
    objs: list = []
    for n in nodes:
        if n[0] == "err":
            objs.append((JSError if n[1] == "JSError" else JSErrorData)(n[3], name=n[2], stack=n[4]))
        else:
            objs.append(classes[n[0]]())

    def value(v: tuple) -> Any:
        if v[0] == "p":
            x = PRIMS[v[1]]
            return x if not isinstance(x, (str, int)) or isinstance(x, bool) else type(x)(x)
        if v[0] == "l":
            return table[v[1]]()
        if v[0] == "h":
            return JSHole
        return objs[v[1] % len(objs)]

    for n, o in zip(nodes, objs):
        if n[0] == "obj":
            if n[2] == 1:
                o[70000] = 0
            if n[2]:
                o["zz"] = o[60] = 0
            for k, v in n[1]:
                o[k] = value(v)
            if n[2]:
                del o["zz"], o[60]
            if n[2] == 1:
                del o[70000]
        elif n[0] == "arr":
            if n[2] == 1:
                o[70000] = 0
                o.array.resize(len(n[1]))
            elif n[2] == 2:
                o["zz"] = o[9] = 0
                del o["zz"]
                o.array.resize(len(n[1]))
            for i, v in enumerate(n[1]):
                if v[0] != "h":
                    o[i] = value(v)
            if n[1] and n[1][-1][0] == "h":
                o.array.resize(len(n[1]))
            for k, v in n[3]:
                o[k] = value(v)
        elif n[0] == "map":
            if n[2]:
                o["zz"] = 0
            for k, v in n[1]:
                o[value(k)] = value(v)
            if n[2]:
                del o["zz"]
        elif n[0] == "set":
            if n[2]:
                o.add("zz")
            for v in n[1]:
                o.add(value(v))
            if n[2]:
                o.discard("zz")
        elif n[5] is not None:
            o.cause = value(n[5])
    return objs


# ------------------------------------------------------------ the definition


class TooMuch(Exception):
    pass


def is_container(x: object) -> bool:
    from v8serialize.jstypes import JSErrorData, JSMap, JSObject, JSSet

    return isinstance(x, (JSObject, JSMap, JSSet, JSErrorData))


def leaf_eq(x: object, y: object) -> bool:
    if isinstance(x, Gate):
        return isinstance(y, Gate) and x.tag == y.tag
    # The types of leaves are compared one by one in the "leaves" case
    if is_container(x) or is_container(y):
        return False
    return bool(x == y)


def same(x: Any, y: Any) -> bool:
    """The reference definition of equality."""
    from v8serialize.jstypes import JSArray, JSError, JSErrorData, JSMap, JSObject, JSSet

    work = 0
    pairs: dict[int, int] = {}  # being compared, in both directions

    def all_of(xs: list, ys: list) -> bool:
        return len(xs) == len(ys) and all(eq(a, b) for a, b in zip(xs, ys))

    def contents(x: Any, y: Any) -> bool:
        if isinstance(x, JSErrorData):
            if not isinstance(y, JSErrorData):
                return False
            fields = lambda e: [e.name, e.message, e.stack]  # noqa: E731
            if fields(x) != fields(y):
                return False
            if isinstance(x, JSError) and isinstance(y, JSError) and x.__traceback__ is not y.__traceback__:
                return False
            return eq(x.cause, y.cause)
        if type(x) is not type(y):
            return False
        if isinstance(x, JSArray):
            if not all_of(list(x.array), list(y.array)):
                return False
            px, py = dict(x.properties), dict(y.properties)
            return px.keys() == py.keys() and all(eq(px[k], py[k]) for k in px)
        if isinstance(x, JSObject):
            px, py = dict(x.items()), dict(y.items())
            return px.keys() == py.keys() and all(eq(px[k], py[k]) for k in px)
        if isinstance(x, JSMap):
            return all_of([z for e in x.items() for z in e], [z for e in y.items() for z in e])
        assert isinstance(x, JSSet)
        return all_of(list(x), list(y))

    def eq(x: Any, y: Any) -> bool:
        nonlocal work
        work += 1
        if work > MAX_WORK:
            raise TooMuch
        if x is y:
            return True
        if not (is_container(x) and is_container(y)):
            return leaf_eq(x, y)
        a, b = id(x), id(y)
        if a in pairs or b in pairs:
            return pairs.get(a) == b and pairs.get(b) == a
        pairs[a], pairs[b] = b, a
        try:
            return contents(x, y)
        finally:
            del pairs[a], pairs[b]

    return eq(x, y)


def refer(x: Any, y: Any) -> bool | None:
    try:
        return same(x, y)
    except TooMuch:
        return None


def verify(x: Any, y: Any, exp: bool, what: str) -> None:
    """That every comparison of these agrees with the expected answer."""
    for a, b, how_ in ((x, y, "=="), (y, x, "== (swapped)")):
        got = a == b
        check(got is exp, lambda: f"{what}: {how_} gives {got!r}, expected {exp}: {show(a)} and {show(b)}")
        got2 = a != b
        check(got2 is (not exp), lambda: f"{what}: != gives {got2!r}, expected {not exp}: {show(a)} and {show(b)}")


def show(x: Any) -> str:
    try:
        return f"{type(x).__name__} {x!r}"
    except Exception as e:
        return f"{type(x).__name__} (repr fails: {type(e).__name__})"


def note(s: Stats, x: Any, y: Any, exp: bool) -> None:
    from v8serialize.jstypes import JSErrorData, JSMap, JSObject, JSSet

    def children(o: Any) -> list:
        if isinstance(o, JSErrorData):
            return [o.cause]
        if isinstance(o, JSSet):
            return list(o)
        return list(o.values()) + (list(o) if isinstance(o, JSMap) else [])

    s.label("equal" if exp else "unequal")
    if x is not y and is_container(x) and is_container(y) and type(x) is type(y):
        inner = any(is_container(c) for c in children(x))
        s.nontrivial(inner)
        s.label(type(x).__name__ if isinstance(x, (JSObject, JSMap, JSSet)) else "error")


# ------------------------------------------------------------------ copies


def run_copies(nodes: tuple, s: Stats) -> None:
    a, b = build(nodes), build(nodes)
    for i, (x, y) in enumerate(zip(a, b)):
        exp = refer(x, y)
        if exp is None:
            s.label("too much sharing")
            return
        # With the same shape, only leaves could differ, and they don't
        check(exp is True, lambda: f"the definition says that copies differ: {show(x)}")
        note(s, x, y, exp)
        verify(x, y, True, f"copies of object {i}")
        check(x == x and not (x != x), lambda: f"not equal to itself: {show(x)}")
    s.label(f"objects:{len(nodes)}")


# ------------------------------------------------------------------ edits

edit = st.tuples(st.integers(0, 7), st.integers(0, 6), st.integers(0, 9), el)


def slots(n: tuple) -> list[tuple]:
    """Where a node has values: paths into it."""
    t = n[0]
    if t == "obj":
        return [(1, i, 1) for i in range(len(n[1]))]
    if t == "arr":
        return [(1, i) for i in range(len(n[1]))] + [(3, i, 1) for i in range(len(n[3]))]
    if t == "map":
        return [(1, i, j) for i in range(len(n[1])) for j in (0, 1)]
    if t == "set":
        return [(1, i) for i in range(len(n[1]))]
    return [(5,)] if n[5] is not None else []


def put(n: Any, path: tuple, v: Any) -> tuple:
    if not path:
        return v
    out = list(n)
    out[path[0]] = put(n[path[0]], path[1:], v)
    return tuple(out)


def at(n: Any, path: tuple) -> Any:
    for p in path:
        n = n[p]
    return n


def apply_edit(nodes: tuple, e: tuple) -> tuple:
    where, what, slot, v = e
    i = where % len(nodes)
    n = nodes[i]
    ss = slots(n)
    if v[0] == "h" and n[0] != "arr":
        v = ("p", 0)
    out = list(nodes)
    if what in (0, 1) and ss:  # another value
        path = ss[slot % len(ss)]
        if v[0] == "h" and path[0] == 3:
            v = ("p", 0)
        out[i] = put(n, path, v)
    elif what == 2 and ss:  # refer to a copy: unshares, or unrolls a cycle
        refs = [p for p in ss if at(n, p)[0] == "r"]
        if refs:
            path = refs[slot % len(refs)]
            target = at(n, path)[1] % len(nodes)
            # The number of nodes changes what references mean: fix them first
            out = [fix(m, len(nodes)) for m in out]
            out[i] = put(out[i], path, ("r", len(nodes)))
            out.append(out[target])
    elif what == 3 and n[0] != "err":  # one more, or one less
        vals = n[1]
        if slot % 2 and vals:
            k = slot % len(vals)
            out[i] = put(n, (1,), vals[:k] + vals[k + 1 :])
        else:
            new = {"obj": ("q", v), "map": (v, v)}.get(n[0], v)
            out[i] = put(n, (1,), vals + (new,))
    elif what == 4 and n[0] != "err":  # another order
        k = slot % (len(n[1]) or 1)
        out[i] = put(n, (1,), n[1][k:] + n[1][:k] if slot > 4 else n[1][::-1])
    elif what == 5:  # another kind, or another history
        if n[0] == "err":
            out[i] = put(n, (1 + slot % 4,), (("JSError", "JSErrorData")[slot // 4 % 2], "TypeError", "n", "s")[slot % 4])
        elif slot < 5:
            out[i] = put(n, (2,), slot % 3)
        elif n[0] == "obj" and all(isinstance(k, int) for k, _ in n[1]):
            size = max((k for k, _ in n[1]), default=-1) + 1
            vals = dict(n[1])
            out[i] = ("arr", tuple(vals.get(k, ("h",)) for k in range(size)), n[2], ())
        elif n[0] == "arr":
            out[i] = ("obj", tuple((k, x) for k, x in enumerate(n[1]) if x[0] != "h") + n[3], n[2])
        elif n[0] == "set":
            out[i] = ("map", tuple((x, x) for x in n[1]), n[2])
        elif n[0] == "map":
            out[i] = ("set", tuple(k for k, _ in n[1]), n[2])
    elif what == 6 and n[0] == "arr":  # a hole at the end
        out[i] = put(n, (1,), n[1] + (("h",),))
    return tuple(out)


def fix(n: tuple, count: int) -> tuple:
    for p in slots(n):
        v = at(n, p)
        if v[0] == "r":
            n = put(n, p, ("r", v[1] % count))
    return n


def run_edits(x: tuple, s: Stats) -> None:
    nodes, edits = x
    other = nodes
    for e in edits:
        other = apply_edit(other, e)
    a, b = build(nodes), build(other)
    for i, (p, q) in enumerate(zip(a, b)):
        exp = refer(p, q)
        if exp is None:
            s.label("too much sharing")
            return
        note(s, p, q, exp)
        verify(p, q, exp, f"object {i} and its edited copy")


def run_parts(nodes: tuple, s: Stats) -> None:
    """Objects of one graph, which have parts in common, or contain each other."""
    a = build(nodes)
    for i, x in enumerate(a):
        for y in a[i:]:
            exp = refer(x, y)
            if exp is None:
                s.label("too much sharing")
                return
            note(s, x, y, exp)
            verify(x, y, exp, "two objects of one graph")


# --------------------------------------------------------------- histories

step = st.tuples(
    st.sampled_from(["plain", "raise", "raise", "thread", "threads"]),
    st.integers(0, 9),
    st.integers(0, 9),
    st.lists(st.tuples(st.integers(0, 9), st.integers(0, 9)), min_size=1, max_size=2).map(tuple),
    st.integers(1, 3),
)


def with_gates(nodes: tuple) -> tuple:
    """Make sure that there's something to trigger on."""
    out = list(nodes)
    for i, n in enumerate(out):
        if n[0] in ("arr", "set") and n[1]:
            out[i] = put(n, (1, len(n[1]) - 1), ("l", 0))
        elif n[0] in ("obj", "map") and n[1]:
            out[i] = put(n, (1, len(n[1]) - 1, 1), ("l", 0))
    return tuple(out)


def run_history(x: tuple, s: Stats) -> None:
    nodes, edits, steps = x
    other = nodes = with_gates(nodes)
    for e in edits:
        other = apply_edit(other, e)
    objs = build(nodes)
    count = len(objs)
    objs += build(other)[:count]
    spare = build(nodes)
    if any(refer(u, v) is not True for u, v in zip(objs, spare)):
        s.label("too much sharing")
        return

    def pair(i: int, j: int) -> tuple:
        # Mostly an object and its counterpart
        p = objs[i % count]
        q = objs[(j if j < 3 else i) % count + count]
        return p, q

    fired = 0
    for n, (mode, i, j, more, at_call) in enumerate(steps):
        p, q = pair(i, j)
        exp = refer(p, q)
        wanted = [(u, v, refer(u, v)) for u, v in (pair(k, m) for k, m in more)]
        if exp is None or any(w is None for _, _, w in wanted):
            s.label("too much sharing")
            return
        answers: list = []
        calls = 0

        def elsewhere() -> None:
            def compare_all() -> None:
                for u, v, w in wanted:
                    try:
                        answers.append((u == v, v == u, u != v, w))
                    except BaseException as e:
                        answers.append((e, e, e, w))

            t = threading.Thread(target=compare_all)
            t.start()
            t.join()

        def hook() -> None:
            nonlocal calls
            calls += 1
            if calls != at_call:
                return
            if mode in ("thread", "threads"):
                elsewhere()
            else:
                raise Boom

        what = f"step {n} ({mode})"
        Gate.owner = threading.get_ident()
        Gate.hook = None if mode == "plain" else hook
        try:
            got: Any = p == q
        except Boom:
            got = Boom
        finally:
            Gate.hook = None
        if got is Boom:
            check(mode == "raise" and calls >= at_call, "raised without a reason")
            s.label("raised")
        else:
            check(got is exp, lambda: f"{what}: == gives {got!r}, expected {exp}: {show(p)} and {show(q)}")
        if mode == "raise" and calls >= at_call:
            check(got is Boom, lambda: f"{what}: the exception of a failing comparison was lost")
        if calls >= at_call:
            fired += 1
            s.label(mode)
        for r in answers:
            check(
                r[0] is r[1] is r[3] and r[2] is (not r[3]),
                lambda: f"{what}: in another thread the comparisons give {r[:3]}, expected {r[3]}",
            )
        # What happened changes nothing for later comparisons
        verify(p, q, exp, f"after {what}")
        for u, v, w in wanted:
            verify(u, v, w, f"after {what}, another pair")
        for u, v in zip(objs, spare):
            verify(u, v, True, f"after {what}, a copy")
    s.nontrivial(fired > 0)


# ------------------------------------------------------- very deep values


def run_deep(x: tuple, s: Stats) -> None:
    kinds, depth, differ = x
    from v8serialize.jstypes import JSArray, JSErrorData, JSMap, JSObject, JSSet

    def wrap(kind: int, v: Any) -> Any:
        if kind == 0:
            return JSObject(a=v)
        if kind == 1:
            return JSArray([v])
        if kind == 2:
            return JSMap([(1, v)])
        if kind == 3:
            return JSSet([v])
        return JSErrorData("m", cause=v)

    def chain(end: Any) -> list:
        out = [end]
        for i in range(depth):
            out.append(wrap(kinds[i % len(kinds)], out[-1]))
        return out

    a, b = chain(1), chain(2 if differ else 1)
    failed = 0
    for d in (depth, depth // 2, depth - 1, depth):
        try:
            got = a[d] == b[d]
        except RecursionError:
            failed += 1
            s.label("recursion error")
            continue
        check(got is (not differ), lambda: f"at depth {d}: == gives {got!r}")
    # Parts of what failed to be compared can still be compared
    for d in (*range(1, 20), *(x for x in (depth // 9, depth // 17) if x < 60)):
        got = a[d] == b[d]
        check(got is (not differ), lambda: f"at depth {d}, after a failure at {depth}: == gives {got!r}")
    s.nontrivial(failed > 0)
    while a:  # (freeing it in one go would recurse)
        a.pop()
        b.pop()


# --------------------------------------------------------- other threads


def run_parallel(x: tuple, s: Stats) -> None:
    """Comparisons of the same objects in several threads at once."""
    nodes, edits, rounds = x
    other = nodes
    for e in edits:
        other = apply_edit(other, e)
    a = build(nodes)
    b = build(other)[: len(a)]
    c = build(nodes)
    pairs = [(p, q, refer(p, q)) for p, q in [*zip(a, b), *zip(a, c), *zip(c, b)]]
    pairs = [p for p in pairs if p[2] is not None]
    if not pairs:
        s.label("too much sharing")
        return
    wrong: list = []
    go = threading.Barrier(4)

    def work(k: int) -> None:
        try:
            go.wait(60)
            for r in range(rounds):
                p, q, w = pairs[(r * (k + 1) + k) % len(pairs)]
                got = p == q if k % 2 else q == p
                if got is not w:
                    wrong.append((p, q, got, w))
        except BaseException as e:
            wrong.append((None, None, e, None))

    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(k,)) for k in range(4)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(interval)
    for p, q, got, w in wrong:
        violated(f"with 4 threads comparing, == gives {got!r}, expected {w}: {show(p)} and {show(q)}")
    s.nontrivial(len(nodes) > 1)


# ----------------------------------------------------------- other types

hashables = [0, 1, 1.0, True, "a", "b", "", None, (0,), (0, 1), (), b"ab", 2.5, frozenset([1]), -0.0, False, 2, 3]
hkey = st.tuples(st.integers(0, len(hashables) - 1), st.booleans())
hval = st.integers(0, 6)


def fresh(k: tuple) -> Any:
    x = hashables[k[0]]
    return tuple(list(x)) if isinstance(x, tuple) and x else x


def run_plain(x: tuple, s: Stats) -> None:
    """JSMap and JSSet against Python's dicts and sets."""
    from v8serialize.jstypes import JSArray, JSMap, JSObject, JSSet

    es, fs, form = x
    if form[1]:
        fs = es[::-1] if form[2] else es
    m = JSMap([(fresh(k), PRIMS[v]) for k, v in es])
    d = {fresh(k): PRIMS[v] for k, v in fs}
    exp = len(m) == len(d) and dict(list(m.items())) == d
    other = [d, OrderedDict(d), MappingProxyType(d)][form[0] % 3]
    verify(m, other, exp, "JSMap and dict")
    # Members that can't be in sets aren't equal to what is in one
    us = JSSet([*(fresh(k) for k, _ in es), JSObject(), JSArray()][form[0] :])
    uo = [*(fresh(k) for k, _ in es), object(), object()][form[0] :]
    verify(us, set(uo), len(us) == 0, "JSSet of objects and set")
    verify(us, dict.fromkeys(uo).keys(), len(us) == 0, "JSSet of objects and keys")
    ss = JSSet([fresh(k) for k, _ in es])
    ps = {fresh(k) for k, _ in fs}
    exp2 = len(ss) == len(ps) and set(list(ss)) == ps
    verify(ss, [ps, frozenset(ps), dict.fromkeys(ps).keys()][form[0] % 3], exp2, "JSSet and set")
    s.nontrivial(len(m) > 1)
    s.label("equal" if exp else "unequal", "duplicates" if len(set(m)) < len(m) else "no duplicates")
    # Things of other types
    o = JSObject([(str(k[0]), PRIMS[v]) for k, v in es])
    a = JSArray(dict(o))
    for p, q in ((o, a), (o, dict(o)), (a, dict(a)), (a, list(a.array)), (o, m), (a, ss), (m, ss), (m, list(m.items())), (ss, list(ss))):
        verify(p, q, False, "different types")
    for p in (o, a, m, ss):
        for q in (None, 0, "", object(), len, type(p)):
            verify(p, q, False, "an unrelated object")


def run_leaves(x: tuple, s: Stats) -> None:
    """The other types that have contents are equal if their contents are."""
    i, j = x
    a, b = leaves()[i](), leaves()[j]()
    exp = LEAF_KEYS[i] == LEAF_KEYS[j]
    kinds = {LEAF_KEYS[i], LEAF_KEYS[j]}
    if kinds in ({"bab", "ab"}, {"bac", "ac"}, {"u8ab", "dvab"}):
        return  # whether bytes equal a buffer isn't specified, nor views of different types
    s.nontrivial(i != j)
    verify(a, b, exp, "leaves")


def run_lists(x: tuple, s: Stats) -> None:
    """JSMap and JSSet compare as the lists of their items do (so an object equals itself)."""
    from v8serialize.jstypes import JSMap, JSSet

    es, fs, form = x
    nans = [math.nan, float("nan"), -math.nan]
    tuples = [(0,), tuple([0]), (1,), tuple(nans[:1]), tuple(nans[:1])]
    pool = [*nans, *tuples, bytearray(b"a"), bytearray(b"a"), bytearray(b"b"), [0], [0], [nans[0]], [nans[0]], [nans[1]],
            0, 1, True, 1.0, None, "a", "b", b"a", b"b"]  # fmt: skip
    if form % 3 == 0:
        fs = tuple((i, v if n else v + form) for n, (i, v) in enumerate(es))
    ks, ls = [pool[i % len(pool)] for i, _ in es], [pool[i % len(pool)] for i, _ in fs]
    vs, ws = [pool[v % len(pool)] for _, v in es], [pool[v % len(pool)] for _, v in fs]
    a, b = JSSet(ks), JSSet(ls)
    exp = list(a) == list(b)
    verify(a, b, exp, "two JSSets")
    m, n = JSMap(zip(ks, vs)), JSMap(zip(ls, ws))
    exp2 = list(m.items()) == list(n.items())
    verify(m, n, exp2, "two JSMaps")
    s.nontrivial(len(a) > 1 and a is not b)
    s.label("equal" if exp else "unequal", "equal maps" if exp2 else "unequal maps")
    try:
        ps, d = set(ls), dict(zip(ls, ws))
    except TypeError:
        s.label("unhashable")
        return
    try:
        exp = len(a) == len(ps) and set(a) == ps
        exp2 = len(m) == len(d) and dict(m.items()) == d
    except TypeError:
        s.label("unhashable members")
        return  # (compared in order: a bytearray equals bytes)
    verify(a, [ps, frozenset(ps), dict.fromkeys(ls).keys()][form % 3], exp, "JSSet and set")
    verify(m, [d, OrderedDict(d), MappingProxyType(d)][form % 3], exp2, "JSMap and dict")


CASES = [
    Case("copies", run_copies, lambda: spec, quick=4000, thorough=120_000),
    Case(
        "edits",
        run_edits,
        lambda: st.tuples(spec, st.lists(edit, min_size=1, max_size=2).map(tuple)),
        quick=8000,
        thorough=300_000,
    ),
    Case("parts", run_parts, lambda: spec, quick=4000, thorough=120_000),
    Case(
        "histories",
        run_history,
        lambda: st.tuples(spec, st.lists(edit, max_size=2).map(tuple), st.lists(step, min_size=1, max_size=4).map(tuple)),
        quick=6000,
        thorough=80_000,
    ),
    Case(
        "deep",
        run_deep,
        lambda: st.tuples(st.lists(st.integers(0, 4), min_size=1, max_size=3).map(tuple), st.integers(300, 1500), st.booleans()),
        quick=100,
        thorough=1500,
    ),
    Case(
        "parallel",
        run_parallel,
        lambda: st.tuples(spec, st.lists(edit, max_size=1).map(tuple), st.just(60)),
        quick=120,
        thorough=2500,
    ),
    Case(
        "plain",
        run_plain,
        lambda: st.tuples(
            st.lists(st.tuples(hkey, hval), max_size=5).map(tuple),
            st.lists(st.tuples(hkey, hval), max_size=5).map(tuple),
            st.tuples(st.integers(0, 2), st.booleans(), st.booleans()),
        ),
        quick=2500,
        thorough=60_000,
    ),
    Case(
        "leaves",
        run_leaves,
        lambda: st.tuples(st.integers(0, len(LEAF_KEYS) - 1), st.integers(0, len(LEAF_KEYS) - 1)),
        fixed=lambda: [(i, j) for i in range(len(LEAF_KEYS)) for j in range(len(LEAF_KEYS))],
        quick=0,
        thorough=0,
    ),
    Case(
        "lists",
        run_lists,
        lambda: st.tuples(
            st.lists(st.tuples(st.integers(0, 24), st.integers(0, 24)), max_size=4).map(tuple),
            st.lists(st.tuples(st.integers(0, 24), st.integers(0, 24)), max_size=4).map(tuple),
            st.integers(0, 8),
        ),
        quick=4000,
        thorough=100_000,
    ),
]
