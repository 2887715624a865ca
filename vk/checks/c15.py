"""C15: printing a value terminates and evaluates back to an equal value."""

from __future__ import annotations

import math
import struct
import threading
import warnings
from datetime import datetime, timedelta, timezone
from typing import Any

from vk import gens, st
from vk.common import graph_noid
from vk.core import Case, Stats, check, violated
from vk.gens import Build
from vk.graph import compare, describe

RULE = (
    "Generated values without cycles, of the kinds that print as expressions and within the "
    "limits: what they print as is evaluated, and compared as a graph, by == and by printing "
    "again; with the default settings, with indentation, and with raised limits. Graphs of all "
    "kinds with cycles must print. Histories of entering and leaving settings (in any order, by "
    "exceptions, with force_restore) are compared with a model of who restores what; printing "
    "that fails, or that goes on in several threads, must not change later results. Non-trivial: "
    "the value has a container in a container, or the history changes settings in nested scopes."
)
ASSUMPTIONS = [
    "Errors are named by strings: enum members (JSErrorName) print as <...>, as the tests require.",
    "Values nested deeper than Python's recursion limit through JSErrorData are left out.",
]

# ------------------------------------------------------------------ evaluation

KEYS = [
    "a", "b", "self", "class", "None", "x y", "", "-1", "01", "é", "ﬁ", "ª", "\u2160x", "properties", "kwarg_properties", "__init__", "def", "'",
    '"', "\\", "\n", "match", "_", "print", "1e3", "4294967295", "{}", "\ud800", "name", "message", "key", "value", "async", "False",
]  # fmt: skip
strings = st.one_of(
    st.text(max_size=6),
    st.sampled_from(KEYS),
    st.sampled_from(["JSObject(", "...", "…", "\u2028", "\0", "\x7f", "☃", "😀", "%s", "{0}"]),
)
prim = st.one_of(
    st.integers(-5, 5).map(lambda x: ("i", x)),
    st.one_of(st.integers(-(2**70), 2**70), st.sampled_from([10**38, -(10**38), 2**53, 2**63])).map(lambda x: ("i", x)),
    st.one_of(st.sampled_from([0.0, -0.0, 0.1, 1e100, math.nan, math.inf, -math.inf, 5e-324, 1.0]), st.floats()).map(lambda x: ("f", x)),
    strings.map(lambda x: ("s", x)),
    strings.map(lambda x: ("s", x)),
    st.sampled_from([("n",), ("u",), ("t",), ("b",)]),
)
TZS = [None, timezone.utc, timezone(timedelta(hours=2)), timezone(-timedelta(minutes=90), "X")]
date = st.tuples(
    st.just("date"),
    st.one_of(st.integers(-(10**12), 10**12), st.sampled_from([0, 951782400000, 253402200000000])),
    st.integers(0, 3),
)
blob = st.one_of(st.binary(max_size=12), st.binary(max_size=40))
buffer = st.one_of(
    st.tuples(st.just("ab"), blob, st.sampled_from([None, None, 0, 5]), st.sampled_from(["plain", "readonly", "mv", "mvro", "bytes", "mv:b", "mvro:c", "mv:e", "mvro:H", "mvro:i", "mv:Q", "mvro:?", "mv:2"])),
    st.tuples(st.sampled_from(["sab", "abt"]), st.integers(0, 2**32 - 1)),
)
backing = st.one_of(buffer, buffer, st.tuples(st.sampled_from(["rawbytes", "bytearray"]), blob))
view = st.tuples(
    st.just("view"),
    st.sampled_from(list(gens.VIEW_SIZES)),
    backing,
    st.integers(0, 3),
    st.one_of(st.none(), st.integers(0, 3)),
    st.sampled_from([None, None, True]),
)
keys = st.one_of(st.sampled_from(KEYS), st.text(max_size=3), st.integers(0, 4), st.integers(0, 30), st.sampled_from([2**32 - 2, 5000]))
names = st.one_of(st.sampled_from([k for k in KEYS]), st.text(max_size=3)).filter(lambda k: not gens.is_index(k))


def some(e: Any, n: int = 4) -> Any:
    return st.lists(e, max_size=n).map(tuple)


def values(depth: int) -> Any:
    leaf = st.one_of(prim, prim, prim, date, buffer, view)
    if depth <= 0:
        return leaf
    v = st.one_of(st.deferred(lambda: values(depth - 1)), st.deferred(lambda: values(depth - 2)), leaf)
    return st.one_of(leaf, containers(v))


def containers(v: Any) -> Any:
    return st.one_of(
        st.tuples(st.just("obj"), some(st.tuples(keys, v))),
        st.tuples(st.just("obj"), some(st.tuples(names, v))),
        st.tuples(st.just("arr"), some(st.one_of(v, v, v, st.just(("h",)))), some(st.tuples(names, v), 2), st.sampled_from([0, 0, 0, 1, 3])),
        st.tuples(st.just("sarr"), st.integers(5000, 2**32 - 1), some(st.tuples(st.integers(0, 4999), v)), some(st.tuples(names, v), 2)),
        st.tuples(st.just("map"), some(st.tuples(prim, v))),
        st.tuples(st.just("set"), some(prim)),
        st.tuples(
            st.just("err"),
            strings,
            st.one_of(st.just("Error"), st.sampled_from(["TypeError", "Odd", *gens.ERROR_NAMES]), strings),
            st.one_of(st.none(), strings),
            st.one_of(st.none(), v),
        ),
    )


def make(v: tuple) -> Any:
    from v8serialize import jstypes as j

    t = v[0]
    if t in ("i", "f", "s", "bytes"):
        return v[1]
    if t == "n":
        return None
    if t == "u":
        return j.JSUndefined
    if t in ("t", "b"):
        return t == "t"
    if t == "h":
        return j.JSHole
    if t == "date":
        tz = TZS[v[2]]
        x = datetime(1970, 1, 1, tzinfo=timezone.utc) + timedelta(milliseconds=v[1])
        return x.replace(tzinfo=None) if tz is None else x.astimezone(tz)
    if t == "ab":
        _, data, extra, how = v
        if extra is not None:
            return j.JSArrayBuffer(data, max_byte_length=len(data) + extra)
        if how == "plain":
            return j.JSArrayBuffer(data)
        if how == "readonly":
            return j.JSArrayBuffer(data, readonly=True)
        how, _, items = how.partition(":")
        if items == "2" and len(data) < 2:
            items = ""
        size = 2 if items == "2" else struct.calcsize(items)
        data = data[: len(data) - len(data) % max(1, size)]
        source = {"mv": lambda: memoryview(bytearray(data)), "mvro": lambda: memoryview(data), "bytes": lambda: data}[how]()
        if items == "2":
            source = source.cast("B", (len(data) // 2, 2))
        elif items:
            source = source.cast(items)
        return j.JSArrayBuffer(source, copy_data=False, readonly=None if how == "mv" else True)
    if t == "sab":
        return j.JSSharedArrayBuffer(v[1])  # type: ignore[arg-type]
    if t == "abt":
        return j.JSArrayBufferTransfer(v[1])  # type: ignore[arg-type]
    if t == "rawbytes":
        return v[1]
    if t == "bytearray":
        return bytearray(v[1])
    if t == "view":
        return getattr(j, "JS" + v[1])(make(v[2]), v[3], v[4], v[5])
    if t == "obj":
        o: Any = j.JSObject()
        for k, x in v[1]:
            o[k] = make(x)
        return o
    if t == "arr":
        o = j.JSArray([make(x) for x in v[1]])
        o.array.resize(len(v[1]) + v[3])
        for k, x in v[2]:
            o[k] = make(x)
        return o
    if t == "sarr":
        o = j.JSArray()
        o[v[1] - 1] = j.JSHole
        for k, x in (*v[2], *v[3]):
            o[k] = make(x)
        return o
    if t == "map":
        return j.JSMap([(make(k), make(x)) for k, x in v[1]])
    if t == "set":
        return j.JSSet([make(x) for x in v[1]])
    assert t == "err"
    return j.JSError(v[1], name=v[2], stack=v[3], cause=None if v[4] is None else make(v[4]))


def parts(x: Any) -> Any:
    """The value and everything in it, with the depth."""
    from v8serialize.jstypes import JSError, JSMap, JSObject, JSSet

    todo = [(x, 0)]
    while todo:
        o, n = todo.pop()
        yield o, n
        if isinstance(o, JSObject):
            todo += [(y, n + 1) for y in o.values()]
        elif isinstance(o, JSMap):
            todo += [(y, n + 1) for e in o.items() for y in e]
        elif isinstance(o, JSSet):
            todo += [(y, n + 1) for y in o]
        elif isinstance(o, JSError):
            todo += [(y, n + 1) for y in (o.message, o.name, o.stack, o.cause)]


def within_limits(x: Any) -> bool:
    """Whether the default settings leave nothing of this out."""
    from v8serialize.jstypes import JSArray, JSArrayBuffer, JSError, JSMap, JSObject, JSSet, JSTypedArray, JSDataView

    for o, n in parts(x):
        if n >= 20:
            return False
        if isinstance(o, str) and len(repr(o)) > 200:
            return False
        if isinstance(o, (JSObject, JSMap, JSSet)) and len(o.array if isinstance(o, JSArray) and len(o.array) < 5000 else o) + len(o) > 100:
            return False
        if isinstance(o, (datetime, float, JSTypedArray, JSDataView)) and n and len(repr(o)) > 100:
            return False
        if isinstance(o, int) and len(repr(o)) > 40:
            return False
        if isinstance(o, JSArrayBuffer) and len(bytes(o)) > 200:
            return False
        if not isinstance(o, (JSObject, JSMap, JSSet, JSError)) and type(o).__name__ in ("JSSharedArrayBuffer", "JSArrayBufferTransfer") and len(repr(o)) > 100:
            return False
    return True


def namespace() -> dict:
    import datetime as dt

    from v8serialize import jstypes

    ns = {k: getattr(jstypes, k) for k in dir(jstypes) if k.startswith("JS")}
    return {**ns, "datetime": dt, "nan": math.nan, "inf": math.inf}


HUGE = dict.fromkeys(
    ["maxjsobject", "maxjsarray", "maxlevel", "maxtuple", "maxlist", "maxarray", "maxdict", "maxset", "maxfrozenset", "maxdeque", "maxstring", "maxlong", "maxother"],
    10**6,
)


def has_nan(o: Any) -> bool:
    from v8serialize.jstypes import JSTypedArray

    if isinstance(o, float):
        return o != o
    if isinstance(o, JSTypedArray) and "Float" in type(o).__name__:
        try:
            with o.get_buffer() as elements:
                return any(e != e for e in elements.tolist())
        except Exception:  # no buffer, no elements
            return False
    return False


def evaluate_back(x: Any, s: Stats, what: str) -> None:
    text = repr(x)
    try:
        y = eval(text, namespace())
    except Exception as e:
        violated(f"{what}: {text[:800]} can't be evaluated: {e!r}")
    gx, gy = describe(x, raw=True), describe(y, raw=True)
    why = compare(gx, gy, noid=graph_noid(gx))
    check(why is None, lambda: f"{what}: {text[:800]} evaluates to another value: {why}")
    check(type(x) is type(y) or isinstance(x, memoryview), lambda: f"{what}: {text[:300]} evaluates to a {type(y).__name__}")
    again = repr(y)
    check(again == text or "memoryview(" in text, lambda: f"{what}: {text[:800]} evaluates to what prints as {again[:800]}")
    if not any(has_nan(o) for o, _ in parts(x)):
        check(x == y, lambda: f"{what}: {text[:800]} evaluates to what isn't equal")


def run_eval(x: tuple, s: Stats) -> None:
    from v8serialize.jstypes import JSError, JSMap, JSObject, JSSet, js_repr_settings

    spec, indent = x
    value = make(spec)
    boxes = (JSObject, JSMap, JSSet, JSError)
    s.nontrivial(any(n and isinstance(o, boxes) and len(list(parts(o))) > 1 for o, n in parts(value)))
    s.label(type(value).__name__ if isinstance(value, boxes) else "leaf")
    if within_limits(value):
        evaluate_back(value, s, "by default")
        # (The white space counts in how much of a view is shown.)
        with js_repr_settings(indent=indent, maxother=10**6):
            evaluate_back(value, s, f"with indent={indent}")
    else:
        s.label("beyond the limits")
        repr(value)
    with js_repr_settings(**HUGE):
        evaluate_back(value, s, "without limits")
        with js_repr_settings(indent=indent):
            evaluate_back(value, s, f"without limits and indent={indent}")


def run_long(x: tuple, s: Stats) -> None:
    """Values up to the limits, and beyond."""
    from v8serialize.jstypes import JSArray, JSArrayBuffer, JSError, JSMap, JSObject, JSSet, js_repr_settings

    kind, n, depth = x
    if kind in ("str", "int", "mv", "mvro", "bytes", "bytearray"):  # on their own, these are printed by Python
        depth = max(depth, 1)
    values: dict[str, Any] = {
        "obj": lambda: JSObject({i * 2: i for i in range(n)}),
        "props": lambda: JSObject({f"k{i}": i for i in range(n)}),
        "named": lambda: JSObject({f"k {i}": i for i in range(n)}),
        "both": lambda: JSObject({**{i: i for i in range(n // 2)}, **{f"k{i}": i for i in range(n - n // 2)}}),
        "arr": lambda: JSArray(range(n)),
        "arrprops": lambda: JSArray({**{i: i for i in range(n // 2)}, **{f"k{i}": i for i in range(n - n // 2)}}),
        "map": lambda: JSMap({i: i for i in range(n)}),
        "maplist": lambda: JSMap([(True, 0), *((i, i) for i in range(n - 1))]),
        "set": lambda: JSSet(range(n)),
        "str": lambda: "x" * max(0, 2 * n - 2),
        "int": lambda: 10 ** max(0, n - 61),
        "ab": lambda: JSArrayBuffer(bytes(2 * n)),
        "mv": lambda: memoryview(bytearray(2 * n)),
        "mvro": lambda: memoryview(bytes(2 * n)),
        "bytes": lambda: bytes(2 * n),
        "bytearray": lambda: bytearray(2 * n),
        "err": lambda: JSError("m" * max(0, 2 * n - 2), stack="\n" * max(0, n - 2)),
    }
    value = values[kind]()
    boxed = value
    for i in range(depth):
        boxed = [JSObject(a=boxed), JSArray([boxed]), JSMap({"a": boxed}), JSError("e", cause=boxed)][i % 4]
    s.nontrivial(depth > 0)
    host = kind in ("mv", "mvro", "bytes", "bytearray")

    def evaluate(what: str) -> None:
        if not host:
            evaluate_back(boxed, s, what)
            return
        text = repr(boxed)
        try:
            y = eval(text, namespace())
        except Exception as e:
            violated(f"{what}: {text[:800]} can't be evaluated: {e!r}")
        for i in reversed(range(depth)):
            y = [lambda: y["a"], lambda: y[0], lambda: y["a"], lambda: y.cause][i % 4]()
        check(bytes(y) == bytes(value), lambda: f"{what}: {text[:800]} evaluates to what contains {y!r:.300}")
        check(isinstance(y, (type(value), memoryview)), lambda: f"{what}: {text[:300]} evaluates to what contains a {type(y).__name__}")

    if n <= 100 and depth <= 18:
        s.label("within")
        evaluate(f"{kind} of size {n} at depth {depth}")
    elif n > 100 or depth > 20:
        s.label("beyond")
        text = repr(boxed)
        if kind != "int":  # (the digits of ints are cut out)
            check("..." in text or "…" in text, lambda: f"{kind} of size {n} at depth {depth} shows nothing left out: {text[-300:]}")
        else:
            check("..." in text, lambda: f"a long int shows nothing left out: {text[-300:]}")
    with js_repr_settings(**HUGE):
        evaluate(f"{kind} of size {n} at depth {depth}, without limits")


# --------------------------------------------------------------- termination


def run_any(spec: tuple, s: Stats) -> None:
    from v8serialize.jstypes import js_repr_settings

    b = Build(spec)
    s.label("cyclic" if b.has_cycle() else "acyclic")
    s.nontrivial(b.has_cycle())
    for i in b.reachable():
        o = b.objects[i]
        try:
            a = repr(o)
            check(isinstance(a, str) and repr(o) == a, lambda: f"prints differently the second time: {a} and {o!r}")
            with js_repr_settings(indent=2, maxother=10**6):
                indented = repr(o)
            check(repr(o) == a, "prints differently after other settings")
            if a.startswith("JS"):
                # Only white space (and the commas that can then follow) differ
                squash = lambda t: "".join(c for c in t if not c.isspace() and c != ",")  # noqa: E731
                if "…" not in a and "..." not in a and "\\n" not in a:
                    check(squash(indented) == squash(a), lambda: f"{a} prints as {indented} with indentation")
        except RecursionError:
            violated("printing doesn't end")


def run_deep(x: tuple, s: Stats) -> None:
    from v8serialize.jstypes import JSArray, JSError, JSMap, JSObject, JSSet

    kinds, depth = x
    v: Any = 1
    made = []
    for i in range(depth):
        k = kinds[i % len(kinds)]
        v = [lambda: JSObject(a=v), lambda: JSArray([v]), lambda: JSMap([(1, v)]), lambda: JSSet([v]), lambda: JSError("e", cause=v), lambda: JSMap([(v, 1)])][k]()
        made.append(v)
    text = repr(v)
    check("..." in text, "nothing left out")
    s.nontrivial(True)
    v = None
    while made:
        made.pop()


# ------------------------------------------------------------------ settings

FIELDS = ["maxjsobject", "maxjsarray", "maxlevel", "maxdict", "maxset", "maxstring", "maxlong", "maxother", "fillvalue", "indent", "maxlist", "maxtuple"]
setting = st.one_of(
    st.tuples(st.sampled_from(["maxjsobject", "maxjsarray", "maxlevel", "maxdict", "maxset", "maxlist", "maxtuple"]), st.one_of(st.none(), st.integers(1, 4))),
    st.tuples(st.sampled_from(["maxstring", "maxlong", "maxother"]), st.one_of(st.none(), st.integers(8, 30))),
    st.tuples(st.just("fillvalue"), st.sampled_from([None, "..", "[more]"])),
    st.tuples(st.just("indent"), st.sampled_from([None, 1, 2, 4, "--"])),
)
scope_op = st.one_of(
    st.tuples(st.just("enter"), some(setting, 3), st.booleans(), st.sampled_from(["kwargs", "kwargs", "instance"])),
    st.tuples(st.just("enter"), some(setting, 3), st.just(False), st.just("kwargs")),
    st.tuples(st.just("exit"), st.just(0), st.booleans()),
    st.tuples(st.just("exit"), st.just(0), st.booleans()),
    st.tuples(st.just("exit"), st.integers(0, 3), st.booleans()),
    st.tuples(st.just("bad")),
    st.tuples(st.just("fails"), st.integers(0, 2)),
    st.tuples(st.just("thread")),
)


class Stop(BaseException):
    pass


class Odd:
    """Something whose printing fails, or goes on elsewhere at the same time."""

    def __init__(self) -> None:
        self.hook: Any = None

    def __repr__(self) -> str:
        if self.hook is not None:
            self.hook()
        return "Odd()"


def probes(odd: Odd) -> Any:
    from v8serialize.jstypes import JSArray, JSArrayBuffer, JSError, JSMap, JSObject, JSSet

    cyclic = JSArray([1])
    cyclic["self"] = cyclic
    return JSObject(
        a=JSArray([1, 2, 3, 4, JSArray([5, JSMap({1: JSObject(x=JSSet([1, 2, 3, 4, 5]))})])]),
        b=JSMap({1: 2, "three": 4, 6: 7, 8: 9}),
        c="a long string of characters, too long for some settings",
        d=10**35,
        e=JSArrayBuffer(bytes(40)),
        f=[1, 2, 3, 4, (5, 6, 7, 8, 9)],
        g=JSError("oh no", cause=cyclic),
        h=cyclic,
        i=odd,
        j=datetime(2024, 1, 1),
    )


def run_settings(ops: tuple, s: Stats) -> None:
    from v8serialize.jstypes import default_js_repr, js_repr_settings

    # Settings left in the wrong order stay, so start from and return to the defaults
    with js_repr_settings(default_js_repr, force_restore=True):
        settings_history(ops, s)


def settings_history(ops: tuple, s: Stats) -> None:
    from v8serialize.jstypes import JSRepr, JSReprSettingsNotRestored, default_js_repr, js_repr_settings

    odd = Odd()
    value = probes(odd)
    ALL = FIELDS + ["maxarray", "maxfrozenset", "maxdeque"]
    base = {f: getattr(default_js_repr, f) for f in ALL}
    active: list = [base, None]  # the settings, and whose they are
    scopes: list = []  # [context manager, own settings, what was before, force]
    deepest = 0

    def look(what: str) -> None:
        exp = JSRepr(**active[0]).repr(value)
        got = repr(value)
        check(got == exp, lambda: f"{what}: prints {got[:1500]}, expected {exp[:1500]}")

    def leave(i: int, by_exception: bool, what: str) -> None:
        cm, own, before, force = scopes.pop(i)
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            if by_exception:
                e = KeyError("x")
                try:
                    swallowed = cm.__exit__(KeyError, e, None)
                except KeyError as e2:
                    check(e2 is e, "another exception")
                else:
                    check(not swallowed, "swallowed an exception")
            else:
                cm.__exit__(None, None, None)
        warned = any(issubclass(w.category, JSReprSettingsNotRestored) for w in ws)
        if active[0] is own or force:
            active[:] = before
            check(not warned, f"{what}: warned without a reason")
        else:
            check(warned, f"{what}: no warning that the settings aren't restored")
            s.label("not restored")

    look("at first")
    try:
        for n, op in enumerate(ops):
            what = f"after step {n} {op}"
            if op[0] == "enter":
                kw = dict(op[1])
                own = dict(active[0])
                for k, v in kw.items():
                    if v is not None or k == "indent":
                        own[k] = v
                if op[3] == "instance":
                    instance = JSRepr(**own)
                    cm = js_repr_settings(instance, force_restore=op[2])
                else:
                    cm = js_repr_settings(**kw, force_restore=op[2])
                look(f"{what}, before it's entered")
                got = cm.__enter__()
                check(all(getattr(got, f) == own[f] for f in ALL), lambda: f"{what}: has settings {vars(got)}, expected {own}")
                scopes.append([cm, own, list(active), op[2]])
                active[:] = [own, None]
                deepest = max(deepest, len(scopes))
            elif op[0] == "exit":
                if scopes:
                    leave(len(scopes) - 1 - op[1] % len(scopes), op[2], what)
            elif op[0] == "bad":
                try:
                    with js_repr_settings(maxnothing=1):  # type: ignore[call-overload]
                        violated(f"{what}: unknown settings are accepted")
                except TypeError:
                    pass
            elif op[0] == "fails":
                # Printing that's interrupted leaves nothing behind
                def stop() -> None:
                    raise Stop

                odd.hook = stop
                try:
                    repr([value, value["g"], value["h"]][op[1]])
                except Stop:
                    s.label("interrupted")
                finally:
                    odd.hook = None
            else:
                results: list = []

                def elsewhere() -> None:
                    odd.hook = None
                    t = threading.Thread(target=lambda: results.append(repr(value)))
                    t.start()
                    t.join()

                odd.hook = elsewhere
                outer = repr(value)
                odd.hook = None
                for r in (outer, *results):
                    exp = JSRepr(**active[0]).repr(value)
                    check(r == exp, lambda: f"{what}: prints {r[:1000]} while printed in another thread, expected {exp[:1000]}")
                if results:
                    s.label("in a thread")
            look(what)
    finally:
        # Leave all scopes, innermost first
        while scopes:
            leave(len(scopes) - 1, False, "at the end")
    look("at the end")
    s.nontrivial(deepest > 1)


CASES = [
    Case("eval", run_eval, lambda: st.tuples(containers(values(3)), st.sampled_from([1, 2, 4])), quick=4000, thorough=160_000),
    Case("leaf", run_eval, lambda: st.tuples(st.one_of(values(1), buffer, view, view, date), st.just(2)), quick=2000, thorough=60_000),
    Case(
        "long",
        run_long,
        lambda: st.tuples(
            st.sampled_from(["obj", "props", "named", "both", "arr", "arrprops", "map", "maplist", "set", "str", "int", "ab", "err", "mv", "mvro", "bytes", "bytearray"]),
            st.one_of(st.integers(98, 103), st.integers(0, 130)),
            st.one_of(st.integers(0, 2), st.integers(16, 21)),
        ),
        quick=800,
        thorough=20_000,
    ),
    Case("any", run_any, lambda: gens.specs(kinds=gens.ALL_KINDS, max_nodes=7, fan=3), quick=3000, thorough=100_000),
    Case(
        "deep",
        run_deep,
        lambda: st.tuples(st.lists(st.integers(0, 5), min_size=1, max_size=3).map(tuple), st.integers(21, 3000)),
        quick=200,
        thorough=3000,
    ),
    Case("settings", run_settings, lambda: st.lists(scope_op, min_size=1, max_size=10).map(tuple), quick=2500, thorough=80_000),
]
