"""Generated value graphs: strategies (vk.st) of plain-data specs, the Python
values they stand for, and (independently) what those values should become.

A spec is (root, nodes).  A value in it is
  ("u",) ("n",) ("b", bool) ("i", int) ("f", float) ("s", str) ("h",) ("r", k)
where ("r", k) refers to nodes[k % len(nodes)].  So any list of nodes is a valid
spec, sharing and cycles arise naturally, and removing nodes shrinks it.
"""

from __future__ import annotations

import random
import re
import struct
import traceback
from collections import OrderedDict, UserDict, UserList, deque
from datetime import datetime, timedelta, timezone
from types import MappingProxyType
from typing import Any

from vk import st

from .graph import EPOCH, SAFE, d, digits, num, utf16

# ---------------------------------------------------------------- primitives

INT_EDGES = sorted(
    {
        s * (2**e) + o
        for e in (0, 7, 8, 14, 15, 16, 21, 28, 30, 31, 32, 35, 53, 62, 63, 64, 128, 256, 1024, 1400)
        for o in (-2, -1, 0, 1, 2)
        for s in (-1, 1)
    }
)
FLOAT_EDGES = [
    0.0, -0.0, 1.0, -1.0, 0.5, 1.5, float("nan"), float("inf"), float("-inf"),
    5e-324, -5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 2.0**31,
    -(2.0**31), 2.0**32, 2.0**53, 2.0**53 - 1, 1e21, 1e22, 123456789.125,
]  # fmt: skip
STR_EDGES = [
    "", "a", "0", "1", "-1", "01", "1.5", "length", "__proto__", "constructor", "é",
    "\xff", "Ā", "☃", "😀", "\ud800", "\udfff", "a\ud83d", "\udc00b", "\0", "\n",
    "4294967294", "4294967295", "x" * 127, "x" * 128, "é" * 64, "😀" * 40,
    "\ufeff", "\ufeffa", "\ufffe1", "\ufeff\ud800", "\r\n",
]  # fmt: skip

small_ints = st.integers(-3, 20)
ints = st.one_of(small_ints, st.sampled_from(INT_EDGES), st.integers(-(2**70), 2**70))
number_ints = st.one_of(
    small_ints,
    st.sampled_from([i for i in INT_EDGES if -SAFE <= i <= SAFE]),
    st.integers(-SAFE, SAFE),
)
floats = st.one_of(st.sampled_from(FLOAT_EDGES), st.floats())
code_units = st.one_of(
    st.integers(0x20, 0x7E),
    st.integers(0, 0xFF),
    st.integers(0, 0xFFFF),
    st.integers(0xD7F0, 0xE010),
)


def _from_units(units: list[int]) -> str:
    return struct.pack(f"<{len(units)}H", *units).decode("utf-16-le", "surrogatepass")


# Sizes around those that lengths, tags and storage depend on
sizes = st.one_of(
    st.integers(9, 70),
    st.sampled_from([2**k + o for k in range(5, 17) for o in (-1, 0, 1)]),
    st.integers(9, 3000),
    st.sampled_from([100, 300, 500, 1000, 1025, 2000, 5000, 10_000, 70_000]),
)


def stretch(x: Any, n: int) -> Any:
    """The sequence repeated until it has n items."""
    return (x * (n // len(x) + 1))[:n]


short_strings = st.one_of(
    st.sampled_from(STR_EDGES),
    st.text("abcxyz", max_size=4),
    st.text(max_size=8),
    st.lists(code_units, max_size=8).map(_from_units),
)
long_strings = st.builds(
    stretch,
    st.one_of(st.text("abc", min_size=1, max_size=3), st.text(min_size=1, max_size=5), st.lists(code_units, min_size=1, max_size=5).map(_from_units)),
    sizes,
).map(utf16)  # (repeating can make surrogate pairs)
strings = st.rarely(40, short_strings, long_strings)
valid_strings = st.one_of(  # without unpaired surrogates
    st.sampled_from([s for s in STR_EDGES if s.isprintable() or s == "\n"]),
    st.text("abcxyz", max_size=4),
    st.text(max_size=8),
)
prims = st.one_of(
    st.sampled_from([("u",), ("n",), ("b", True), ("b", False)]),
    st.tuples(st.just("i"), ints),
    st.tuples(st.just("f"), floats),
    st.tuples(st.just("s"), strings),
)
refs = st.tuples(st.just("r"), st.integers(0, 11))
values = st.one_of(prims, refs, refs)
key_prims = st.one_of(
    st.sampled_from([("u",), ("n",), ("b", True), ("b", False)]),
    st.tuples(st.just("i"), st.one_of(small_ints, number_ints)),
    st.tuples(st.just("f"), floats),
    st.tuples(st.just("s"), strings),
)
map_keys = st.one_of(key_prims, key_prims, refs)
# Floats that Python and JavaScript print the same way
plain_floats = st.one_of(
    st.sampled_from([0.0, -0.0, 1.0, -1.0, 1.5, -2.25, 0.001, 7.0, 4294967294.0, 1e15]),
    st.floats(1e-3, 1e15),
)
prop_keys = st.one_of(
    st.sampled_from(STR_EDGES),
    strings,
    st.integers(0, 6),
    st.sampled_from([0, 1, 15, 16, 17, 63, 1000, 2**31, 2**32 - 2, 2**32 - 1, -1, 2**53]),
    plain_floats,
)
_names = st.text("abcdef", min_size=1, max_size=3)
# Keyword arguments can have the names of parameters
PARAMETERS = ["self", "init", "other", "properties", "kwargs", "kwds", "kwarg_properties", "key", "value", "default", "m", "map", "iterable", "array", "cls"]
name_keys = st.one_of(_names, _names, _names, st.sampled_from(PARAMETERS))
short_blobs = st.one_of(st.binary(max_size=24), st.just(b""), st.binary(min_size=8, max_size=8))
long_blobs = st.builds(stretch, st.binary(min_size=1, max_size=9), sizes)
blobs = st.rarely(15, short_blobs, long_blobs)

VIEW_SIZES = {
    "Int8Array": 1, "Uint8Array": 1, "Uint8ClampedArray": 1, "Int16Array": 2,
    "Uint16Array": 2, "Int32Array": 4, "Uint32Array": 4, "Float16Array": 2,
    "Float32Array": 4, "Float64Array": 8, "BigInt64Array": 8, "BigUint64Array": 8,
    "DataView": 1,
}  # fmt: skip
ERROR_NAMES = ["Error", "EvalError", "RangeError", "ReferenceError", "SyntaxError", "TypeError", "UriError"]
# Names that JavaScript's errors don't have, though they resemble ones that they do
ODD_ERROR_NAMES = ["error", "typeerror", "RANGEERROR", " TypeError", "SyntaxError ", "TypeErrors", "Type", "AggregateError", "MyEvalError", "T"]
JS_SAFE_SOURCES = ["", "a", "a+b", "(?:x|y)*", "^\\d{2,3}$", "[a-z]", "é", "☃+", ".", "\\s", "x\\b", "(?<n>q)", "[^0]"]
JS_FLAG_CHARS = "dgimsuvy"

nums = st.integers(0, 40)
regexp_flags = st.lists(st.sampled_from(JS_FLAG_CHARS), unique=True, max_size=5).map(
    lambda cs: "".join(c for c in sorted(cs) if not (c == "v" and "u" in cs))
)
date_ms = st.one_of(
    st.sampled_from([0, 1, -1, 999, -999, 1000, 951782400000, 1711846800000, -62135337600000, 253402041600000]),
    st.integers(-62135337600000, 253402041600000),
)
js_date_ms = date_ms
PY_FLAGS = [0, re.I, re.M, re.S, re.I | re.S, re.A, re.A | re.I | re.M]
EXC_TYPES = [ValueError, KeyError, OSError, RuntimeError, Exception, ZeroDivisionError]


few_sizes = st.one_of(st.integers(5, 40), st.sampled_from([63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000]))


def _children(el: Any, n: int) -> Any:
    return st.lists(el, max_size=n).map(tuple)


def _small(v: tuple) -> tuple:
    """Many copies of long strings would take too much memory."""
    return ("s", v[1][:20]) if v[0] == "s" else v


def _many(el: Any, n: int) -> Any:
    """Children that are sometimes many."""
    more = st.builds(stretch, st.lists(el, min_size=1, max_size=n).map(lambda vs: tuple(map(_small, vs))), few_sizes)
    return st.rarely(30, _children(el, n), more)


def _keyed(pairs: Any, *keys: Any) -> Any:
    """Pairs to which many with distinct keys are sometimes added."""

    def more(ps: tuple, n: int, which: int) -> tuple:
        vs = [_small(v) for _, v in ps] or [("n",)]
        return ps + tuple((keys[which](i), vs[i % len(vs)]) for i in range(n))

    return st.rarely(30, pairs, st.builds(more, pairs, few_sizes, st.integers(0, len(keys) - 1)))


def node_strategies(fan: int = 4, sources: Any = None) -> dict[str, Any]:
    j = st.just
    src = sources if sources is not None else st.one_of(st.sampled_from(JS_SAFE_SOURCES), strings)
    pairs = _keyed(_children(st.tuples(prop_keys, values), fan), lambda i: f"k{i}", lambda i: i * 3)
    entries = _keyed(_children(st.tuples(map_keys, values), fan), lambda i: ("s", f"k{i}"), lambda i: ("i", i))
    named = _children(st.tuples(name_keys, values), 2)
    hv = st.one_of(values, values, values, st.just(("h",)))
    # -1 for "not given" keeps the position of later choices stable
    view = st.tuples(
        j("view"),
        st.sampled_from(list(VIEW_SIZES)),
        st.one_of(st.none(), st.integers(0, 5)),
        blobs,
        st.integers(0, 24),
        st.one_of(st.none(), st.integers(0, 24)),
        st.sampled_from([None, None, True]),
    )
    return {
        "obj": st.tuples(j("obj"), pairs),
        "arr": st.tuples(j("arr"), _many(hv, fan), st.sampled_from([0, 0, 0, 1, 3, 30]), named),
        "sarr": st.tuples(
            j("sarr"),
            st.sampled_from([17, 40, 129, 16383, 16384, 16385, 2**32 - 1]),
            _children(st.tuples(st.integers(0, 2**32 - 2), values), 3),
            named,
        ),
        "map": st.tuples(j("map"), entries),
        "set": st.tuples(j("set"), _children(map_keys, fan)),
        "dict": st.tuples(j("dict"), st.integers(0, 3), entries),
        "pyset": st.tuples(j("pyset"), _children(map_keys, fan)),
        "fset": st.tuples(j("fset"), _children(map_keys, fan)),
        "list": st.tuples(j("list"), st.integers(0, 2), _many(values, fan)),
        "tuple": st.tuples(j("tuple"), _children(values, fan)),
        "date": st.tuples(j("date"), date_ms, st.integers(0, 3)),
        "re": st.tuples(j("re"), src, regexp_flags),
        "pat": st.tuples(j("pat"), st.sampled_from(JS_SAFE_SOURCES[:6]), st.sampled_from(PY_FLAGS)),
        "err": st.tuples(
            j("err"),
            st.sampled_from("ED"),
            st.sampled_from(ERROR_NAMES + ["Custom", ""] + ODD_ERROR_NAMES),
            st.one_of(st.none(), strings),
            st.one_of(st.none(), strings),
            st.one_of(st.none(), values),
        ),
        "exc": st.tuples(j("exc"), st.integers(0, len(EXC_TYPES) - 1), st.text("abc ", max_size=4), st.sampled_from([0, 0, 0, 1, 2])),
        "prim": st.tuples(
            j("prim"),
            st.one_of(
                st.tuples(j("b"), st.booleans()),
                st.tuples(j("i"), ints),
                st.tuples(j("f"), floats),
                st.tuples(j("s"), strings),
            ),
        ),
        "bigprim": st.tuples(j("bigprim"), ints),
        "bytes": st.tuples(j("bytes"), blobs),
        "bytearray": st.tuples(j("bytearray"), blobs),
        "mv": st.tuples(j("mv"), blobs),
        "ab": st.tuples(
            j("ab"),
            blobs,
            st.one_of(st.none(), st.sampled_from([0, 1, 8, 40, 5000])),
            st.booleans(),
        ),
        "sab": st.tuples(j("sab"), st.sampled_from([0, 1, 127, 128, 2**31, 2**32 - 1])),
        "abt": st.tuples(j("abt"), st.sampled_from([0, 1, 300, 2**32 - 1])),
        "view": view,
    }


ALL_KINDS = list(node_strategies())
INACCESSIBLE = ("sab", "abt")
JS_KINDS = [k for k in ALL_KINDS if k not in INACCESSIBLE]
CONTAINER_KINDS = ["obj", "arr", "map", "set", "dict", "list", "err", "tuple"]
NOID_KINDS = {"date", "re", "pat", "prim", "bigprim", "bytes", "mv", "tuple", "fset", "sab", "abt"}
IMMUTABLE_CONTAINERS = {"tuple", "fset"}
BUFFER_KINDS = {"ab", "bytes", "bytearray", "sab", "abt"}


def _hub(kind: str) -> Any:
    rv = st.one_of(refs, refs, refs, prims)
    kids = st.lists(rv, min_size=2, max_size=7)

    def make(vs: list) -> tuple:
        if kind == "obj":
            return ("obj", tuple(("abcdefgh"[i], v) for i, v in enumerate(vs)))
        if kind == "arr":
            return ("arr", tuple(vs), 0, ())
        if kind == "map":
            return ("map", tuple((("i", i), v) for i, v in enumerate(vs)))
        if kind == "dict":
            return ("dict", 0, tuple((("i", i), v) for i, v in enumerate(vs)))
        if kind == "list":
            return ("list", 0, tuple(vs))
        return ("tuple", tuple(vs))

    return kids.map(make)


def specs(
    kinds: list[str] | None = None,
    *,
    max_nodes: int = 8,
    min_nodes: int = 0,
    fan: int = 4,
    containers: int = 2,
    sources: Any = None,
) -> Any:
    table = node_strategies(fan, sources)
    kinds = ALL_KINDS if kinds is None else kinds
    choices = [table[k] for k in kinds]
    boxes = [table[k] for k in kinds if k in CONTAINER_KINDS]
    for _ in range(containers - 1):  # containers make graphs, so have more of them
        choices += boxes
    first = st.one_of(boxes) if boxes else st.one_of(choices)
    nodes = st.lists(st.one_of(choices), max_size=max_nodes - 1, min_size=max(min(3, max_nodes - 1), min_nodes - 1))
    # A root that reaches several nodes, by one of the kinds of container
    hub_kinds = [k for k in ("obj", "arr", "map", "dict", "list", "tuple") if k in kinds]
    if hub_kinds:
        first = st.one_of(first, st.one_of([_hub(k) for k in hub_kinds]))
    graph = st.builds(lambda a, b: (("r", 0), (a, *b)), first, nodes)
    lone = st.one_of(
        st.builds(lambda n: (("r", 0), (n,)), st.one_of(choices)),
        st.tuples(prims, st.just(())),
    )
    return st.one_of(graph, graph, graph, graph, graph, graph, lone)


def big(kinds: list[str], *, sizes: Any = None, sources: Any = None) -> Any:
    """Recipes of graphs with many nodes, for expand_big()."""
    table = node_strategies(3, sources)
    node = st.one_of([table[k] for k in kinds])
    n = sizes or st.one_of(
        st.integers(30, 200),
        st.integers(100, 700),
        st.sampled_from([124, 125, 126, 127, 128, 129, 254, 255, 256, 257, 1022, 1025, 2500]),
    )
    return st.tuples(
        st.sampled_from(["arr", "obj", "map", "set", "list", "dict"]),
        n,
        st.lists(node, min_size=1, max_size=4).map(tuple),
        st.integers(1, 9),
        st.integers(1, 5000),
    )


def long_spec(case: tuple) -> tuple:
    """One value of a given length, with varied content."""
    kind, n, k = case
    r = random.Random(f"{kind}{n}{k}")
    v: tuple
    if kind == "ascii":
        v = ("s", "".join(r.choices("abcdefghijk", k=n)))
    elif kind == "latin1":
        v = ("s", "".join(r.choices("abc\xe9\xff", k=n)))
    elif kind == "wide":
        v = ("s", "".join(r.choices("ab\u1234\U0001f600", k=n)))
    elif kind == "lone":
        v = ("s", "".join(r.choices("ab\u1234\udead", k=n)))
    elif kind == "bigint":
        v = ("i", r.getrandbits(n * 8) | (1 << n * 8 - 2 if n else 0))
        v = ("i", -v[1]) if k % 2 else v
    else:
        v = ("r", 1)
    node: tuple = ()
    if kind == "ab":
        node = ("ab", r.randbytes(n), None, False)
    elif kind == "arr":
        node = ("arr", tuple(("i", r.randrange(1000)) for _ in range(n)), 0, ())
    elif kind == "set":
        node = ("set", tuple(("i", i * 3 + k) for i in range(n)))
    elif kind == "map":
        node = ("map", tuple((("i", i * 3 + k), ("i", r.randrange(1000))) for i in range(n)))
    elif kind == "obj":
        node = ("obj", tuple((f"k{i}", ("i", r.randrange(1000))) for i in range(n)))
    return (("r", 0), (("arr", (v, ("i", k), v), 0, ()), *([node] if node else ())))


LONG_KINDS = {"ascii": 2**21, "latin1": 2**20, "wide": 2**20, "lone": 2**20, "bigint": 20_000, "ab": 2**21, "arr": 70_000, "set": 70_000, "map": 70_000, "obj": 20_000}
LONG_SIZES = [127, 128, 16383, 16384, 65535, 65536, 70_000, 2**20, 2**21 - 1, 2**21]


def long_fixed() -> list:
    """Each kind at some of the sizes that matter."""
    return [(k, min(n, m), 0) for i, (k, m) in enumerate(LONG_KINDS.items()) for n in LONG_SIZES[(i % 2) :: 2] if n <= m or n == LONG_SIZES[-1 - (1 - i % 2)]]


def long_cases() -> Any:
    # (each size as often as the next of its magnitude)
    return st.tuples(
        st.sampled_from(sorted(LONG_KINDS)),
        st.one_of(st.integers(20, 300), st.integers(100, 3000), st.integers(1000, 20_000), st.sampled_from(LONG_SIZES[:7])),
        st.integers(0, 9),
    ).map(lambda c: (c[0], min(c[1], LONG_KINDS[c[0]]), c[2]))


def expand_big(recipe: tuple) -> tuple:
    """A container with n nodes made from a few templates, and references to any of them.

    A node refers to earlier nodes only, so the graph isn't deep.
    """
    kind, n, templates, every, stride = recipe

    def parts(x: Any) -> int:
        return sum(map(parts, x)) if isinstance(x, tuple) else 1

    # (at most some 50,000 parts)
    if n < 5000:
        n = max(4, min(n, 50_000 * len(templates) // max(1, parts(templates))))

    def shifted(x: Any, i: int) -> Any:
        if isinstance(x, (str, bytes)):
            return x if i < 3 else x[:50]
        if not isinstance(x, tuple):
            return x
        if len(x) == 2 and x[0] == "r" and isinstance(x[1], int):  # (not a property of that name)
            return ("r", (i - 1 - x[1] * stride) % i)
        if len(x) == 2 and x[0] == "s" and isinstance(x[1], str) and i % 7 == 0:
            return ("s", x[1] + str(i))
        if x[:1] == ("view",) and len(x) > 3 and x[2] is not None:
            # (V8 slows down with many views of one resizable buffer)
            x = (*x[:2], (i - 1 - x[2] * stride) % i if i % 3 else None, *x[3:])
        return tuple(shifted(y, i) for y in x)

    nodes = [shifted(templates[i % len(templates)], i + 1) for i in range(n)]
    # (so that containers that would be the same are not)
    nodes = [("obj", (("i", ("i", i)), *x[1][:2])) if x[0] == "obj" and i % 3 else x for i, x in enumerate(nodes)]
    # (V8 slows down with thousands of resizable buffers)
    nodes = [(*x[:2], None, *x[3:]) if x[0] == "ab" and i % 40 > 3 else x for i, x in enumerate(nodes)]
    entries: list[tuple] = []
    for i in range(1, n + 1):
        entries.append(("r", i))
        if i % every == 0:
            entries.append(("r", (i * stride) % (i + 1)))
    if every < 3:  # each again, in another order
        entries += [("r", 1 + i * stride % n) for i in range(n)]
    if kind == "obj":
        root: tuple = ("obj", tuple((f"k{i}", v) for i, v in enumerate(entries)))
    elif kind == "map":
        root = ("map", tuple((("i", i), v) for i, v in enumerate(entries)))
    elif kind == "dict":
        root = ("dict", 0, tuple((("i", i), v) for i, v in enumerate(entries)))
    elif kind == "set":
        root = ("set", tuple(entries))
    else:
        root = ("arr", tuple(entries), 0, ()) if kind == "arr" else ("list", 0, tuple(entries))
    return (("r", 0), (root, *nodes))


# ------------------------------------------------------------------ references


def prop_key(k: str | int | float) -> str:
    """The JavaScript property name of a key (of the generated domain)."""
    if isinstance(k, float):
        if k == int(k):
            return str(int(k))
        return repr(k)
    return utf16(str(k))


def is_index(name: str) -> bool:
    return (
        name.isascii()
        and name.isdigit()
        and len(name) <= 10
        and (name == "0" or name[0] != "0")
        and int(name) <= 2**32 - 2
    )


def order_props(props: list) -> list:
    """[[name, x]] in assignment order -> unique entries in JavaScript's order."""
    last: dict[str, Any] = {}
    for k, v in props:
        last[k] = v
    idx = sorted((k for k in last if is_index(k)), key=int)
    return [[k, last[k]] for k in idx] + [[k, v] for k, v in last.items() if not is_index(k)]


def prim_value(v: tuple) -> object:
    from v8serialize.jstypes import JSUndefined

    t = v[0]
    if t == "u":
        return JSUndefined
    if t == "n":
        return None
    return v[1]


def prim_graph(v: tuple, target: str) -> list:
    t = v[0]
    if t == "u" or t == "n":
        return [t]
    if t == "b":
        return ["t"] if v[1] else ["f"]
    if t == "s":
        return ["s", utf16(v[1])]
    return num(v[1])


def svz(v: tuple) -> object:
    """Same-value-zero identity of a primitive."""
    t = v[0]
    if t in "if":
        return "nan" if v[1] != v[1] else (0, v[1])
    return (t, *v[1:])


class Build:
    """The Python value of a spec, and the graphs it should turn into."""

    def __init__(self, spec: tuple) -> None:
        root, nodes = spec
        self.nodes: list[tuple] = list(nodes)
        self.n = len(nodes)
        self._resolve_views()
        self.objects: list[Any] = [None] * len(self.nodes)
        # resolved contents, by node
        self.info: dict[int, Any] = {}
        self._make_shells()
        for i in range(len(self.nodes) - 1, -1, -1):
            if self.nodes[i][0] in IMMUTABLE_CONTAINERS:
                self._make_immutable(i)
        for i in range(len(self.nodes)):
            self._fill(i)
        self.root = self.resolve(root, None)
        self.value = self.obj(self.root)

    # -- resolution of references

    def resolve(self, v: tuple, owner: int | None) -> tuple:
        if v[0] != "r":
            return v
        if not self.n:
            return ("n",)
        i = v[1] % self.n
        if (
            owner is not None
            and self.nodes[owner][0] in IMMUTABLE_CONTAINERS
            and self.nodes[i][0] in IMMUTABLE_CONTAINERS
            and i <= owner
        ):
            return ("n",)
        return ("r", i)

    def obj(self, v: tuple) -> Any:
        return self.objects[v[1]] if v[0] == "r" else prim_value(v)

    def _resolve_views(self) -> None:
        buffers = [i for i in range(self.n) if self.nodes[i][0] in BUFFER_KINDS]
        for i in range(self.n):
            if self.nodes[i][0] != "view":
                continue
            _, tag, k, data, off, ln, ro = self.nodes[i]
            if k is not None and buffers:
                b = buffers[k % len(buffers)]
            else:
                b = len(self.nodes)
                self.nodes.append(("ab", data, None, False))
            self.nodes[i] = ("view", tag, b, data, off, ln, ro)

    # -- construction

    def _make_shells(self) -> None:
        from v8serialize.constants import JSRegExpFlag, SerializationTag
        from v8serialize.jstypes import (
            JSArray,
            JSArrayBuffer,
            JSArrayBufferTransfer,
            JSError,
            JSErrorData,
            JSMap,
            JSObject,
            JSPrimitiveObject,
            JSRegExp,
            JSSet,
            JSSharedArrayBuffer,
        )

        flag_of = {str(f): f for f in JSRegExpFlag}
        for i, n in enumerate(self.nodes):
            t = n[0]
            o: Any
            if t == "obj":
                o = JSObject()
            elif t in ("arr", "sarr"):
                o = JSArray()
            elif t == "map":
                o = JSMap()
            elif t == "set":
                o = JSSet()
            elif t == "dict":
                self.info[i] = inner = {}
                o = [inner, OrderedDict(), None, UserDict()][n[1]]
                if n[1] == 2:
                    o = MappingProxyType(inner)
                elif n[1]:
                    self.info[i] = o
            elif t == "pyset":
                o = set()
            elif t == "list":
                o = [list, deque, UserList][n[1]]()
            elif t == "date":
                tz = [timezone.utc, timezone(timedelta(hours=5, minutes=45)), None, timezone(-timedelta(hours=9))][n[2]]
                o = EPOCH + timedelta(milliseconds=n[1])
                o = o.astimezone(tz) if tz else o.astimezone().replace(tzinfo=None)
            elif t == "re":
                f = JSRegExpFlag.NoFlag
                for c in n[2]:
                    f |= flag_of[c]
                o = JSRegExp(n[1], f)
            elif t == "pat":
                o = re.compile(n[1], n[2])
            elif t == "err":
                cls = JSError if n[1] == "E" else JSErrorData
                o = cls(n[3], name=n[2], stack=n[4])
            elif t == "exc":
                o = EXC_TYPES[n[1]](n[2])
                e = o
                for k in range(n[3]):  # causes of its own
                    e.__cause__ = EXC_TYPES[k](f"cause {k}")
                    e = e.__cause__
            elif t == "prim":
                o = JSPrimitiveObject(prim_value(n[1]))
            elif t == "bigprim":
                o = JSPrimitiveObject(n[1], SerializationTag.kBigIntObject)
            elif t == "bytes":
                o = bytes(bytearray(n[1]))
            elif t == "bytearray":
                o = bytearray(n[1])
            elif t == "mv":
                o = memoryview(n[1])
            elif t == "ab":
                if n[2] is not None:
                    o = JSArrayBuffer(n[1], max_byte_length=len(n[1]) + n[2])
                else:
                    o = JSArrayBuffer(n[1], readonly=n[3])
            elif t == "sab":
                o = JSSharedArrayBuffer(n[1])
            elif t == "abt":
                o = JSArrayBufferTransfer(n[1])
            else:
                continue
            self.objects[i] = o
        for i, n in enumerate(self.nodes):
            if n[0] == "view":
                self._make_view(i, n)

    def _make_view(self, i: int, n: tuple) -> None:
        from v8serialize import jstypes

        _, tag, b, _, off, ln, ro = n
        size = VIEW_SIZES[tag]
        bn = self.nodes[b]
        if bn[0] in INACCESSIBLE:
            ln = ln or 0
        else:
            items = len(bn[1]) // size
            off %= items + 1
            if ln is not None:
                ln %= items - off + 1
        self.info[i] = (size, off, ln)
        self.objects[i] = getattr(jstypes, "JS" + tag)(self.objects[b], off, ln, ro)

    def _members(self, i: int, vals: tuple) -> list[tuple]:
        """The members a Python set of these values has: [(object, value)]."""
        out: list[tuple] = []
        for v in vals:
            v = self.resolve(v, i)
            o = self.obj(v)
            if self._unhashable(v, o) or self._is_prim_object(v):
                continue
            if v[0] == "f" and v[1] != v[1] and any(x[0] == "f" and x[1] != x[1] for _, x in out):
                continue
            if any(_same_key(o, p) for p, _ in out):
                continue
            out.append((o, v))
        return out

    def _unhashable(self, v: tuple, o: object) -> bool:
        if v[0] != "r":
            return False
        if self.nodes[v[1]][0] == "view":
            return True  # hashable or not depending on the buffer
        try:
            hash(o)
        except Exception:
            return True
        return False

    def _is_prim_object(self, v: tuple) -> bool:
        # They're unwrapped when decoding, and then can't be told from primitives
        return v[0] == "r" and self.nodes[v[1]][0] in ("prim", "bigprim")

    def _make_immutable(self, i: int) -> None:
        n = self.nodes[i]
        if n[0] == "tuple":
            vals = [self.resolve(v, i) for v in n[1]]
            self.info[i] = vals
            self.objects[i] = tuple([self.obj(v) for v in vals])
        else:
            members = self._members(i, n[1])
            self.objects[i] = frozenset([o for o, _ in members])
            self.info[i] = self._iteration_order(self.objects[i], members)

    @staticmethod
    def _iteration_order(s: Any, members: list[tuple]) -> list[tuple]:
        out = []
        for o in s:
            out.append(next(v for p, v in members if p is o or (p == o and type(p) is type(o))))
        return out

    def _js_keys(self, i: int, vals: list[tuple]) -> list[tuple | None]:
        """Each value, the earlier one it's the same Map key as, or None to skip it."""
        seen: dict[object, tuple] = {}
        out: list[tuple | None] = []
        noid: list[tuple] = []
        for v in vals:
            v = self.resolve(v, i)
            if v[0] == "r":
                kind = self.nodes[v[1]][0]
                if kind == "bytes":
                    k: object = ("bytes", self.nodes[v[1]][1])
                else:
                    k = v
                if self._is_prim_object(v):
                    out.append(None)
                    continue
                if k not in seen and self.is_noid(v[1]) and kind != "bytes":
                    # Equal immutable objects are written as one object, see
                    # KNOWN_FINDINGS.txt
                    if any(self._may_merge(v[1], x[1]) for x in noid):
                        out.append(None)
                        continue
                    noid.append(v)
            else:
                k = svz(v)
            out.append(seen.setdefault(k, v))
        return out

    def _may_merge(self, i: int, j: int) -> bool:
        a, b = self.objects[i], self.objects[j]
        try:
            return type(a) is type(b) and bool(a == b)
        except Exception:
            return True

    def is_noid(self, i: int) -> bool:
        n = self.nodes[i]
        return n[0] in NOID_KINDS or (n[0] == "ab" and n[2] is None and bool(n[3]))

    def _fill(self, i: int) -> None:
        from v8serialize.jstypes import JSHole

        n, o = self.nodes[i], self.objects[i]
        t = n[0]
        if t == "obj":
            props = [(k, self.resolve(v, i)) for k, v in n[1]]
            self.info[i] = props
            for k, v in props:
                o[k] = self.obj(v)
        elif t == "arr":
            vals = [v if v[0] == "h" else self.resolve(v, i) for v in n[1]]
            els = {}
            for ix, v in enumerate(vals):
                if v[0] != "h":
                    els[ix] = v
                    o[ix] = self.obj(v)
            length = len(vals) + n[2]
            if length:
                if length - 1 not in els:
                    o[length - 1] = JSHole
            self._named(i, o, length, els, n[3])
        elif t == "sarr":
            els = {}
            o[n[1] - 1] = JSHole
            for ix, v in n[2]:
                v = self.resolve(v, i)
                els[ix % n[1]] = v
                o[ix % n[1]] = self.obj(v)
            self._named(i, o, n[1], els, n[3])
        elif t == "map":
            keys = self._js_keys(i, [k for k, _ in n[1]])
            entries: dict[tuple, tuple] = {}
            for k, (_, v) in zip(keys, n[1]):
                if k is None:
                    continue
                v = self.resolve(v, i)
                entries[_kid(k)] = (k, v)
                o[self.obj(k)] = self.obj(v)
            self.info[i] = list(entries.values())
        elif t == "set":
            keys = self._js_keys(i, list(n[1]))
            members: dict[tuple, tuple] = {}
            for k in keys:
                if k is not None:
                    members[_kid(k)] = k
                    o.add(self.obj(k))
            self.info[i] = list(members.values())
        elif t == "dict":
            target = self.info[i]
            found: list[list] = []
            for k, v in n[2]:
                k, v = self.resolve(k, i), self.resolve(v, i)
                ko = self.obj(k)
                if self._unhashable(k, ko) or self._is_prim_object(k):
                    continue
                if k[0] == "f" and k[1] != k[1]:
                    hit = next((e for e in found if e[1][0] == "f" and e[1][1] != e[1][1]), None)
                    if hit:
                        ko = hit[0]
                else:
                    hit = next((e for e in found if _same_key(e[0], ko)), None)
                if hit:
                    hit[2] = v
                else:
                    found.append([ko, k, v])
                target[ko] = self.obj(v)
            self.info[i] = [(k, v) for _, k, v in found]
        elif t == "pyset":
            ms = self._members(i, n[1])
            for m, _ in ms:
                o.add(m)
            self.info[i] = self._iteration_order(o, ms)
        elif t == "list":
            self.info[i] = [self.resolve(v, i) for v in n[2]]
            o.extend(self.obj(v) for v in self.info[i])
        elif t == "err":
            c = None if n[5] is None else self.resolve(n[5], i)
            if c == ("n",):
                c = None
            self.info[i] = c
            if c is not None:
                o.cause = self.obj(c)

    def _named(self, i: int, o: Any, length: int, els: dict, named: tuple) -> None:
        props = [(k, self.resolve(v, i)) for k, v in named]
        for k, v in props:
            o[k] = self.obj(v)
        self.info[i] = (length, els, props)

    # -- expectations

    def noid(self) -> set[int]:
        return {i for i in range(len(self.nodes)) if self.is_noid(i)}

    def expected(self, target: str, *, resizable: bool = True) -> dict[str, Any]:
        """The graph read back: target "py" by loads(), "js" by a JavaScript engine."""

        def val(v: tuple) -> list:
            if v[0] == "r":
                n = self.nodes[v[1]]
                if target == "py" and n[0] == "prim":
                    return prim_graph(n[1], target)
                if target == "py" and n[0] == "bigprim":
                    return num(n[1])
                return ["r", v[1]]
            return prim_graph(v, target)

        out: list[list] = []
        causes: list[list] = []
        for i, n in enumerate(self.nodes):
            t, info = n[0], self.info.get(i)
            if t == "obj":
                g = ["obj", order_props([[prop_key(k), val(v)] for k, v in info])]
            elif t in ("arr", "sarr"):
                length, els, props = info
                g = [
                    "arr",
                    length,
                    [[k, val(els[k])] for k in sorted(els)],
                    order_props([[utf16(k), val(v)] for k, v in props]),
                ]
            elif t in ("map", "dict"):
                g = ["map", [[val(k), val(v)] for k, v in info]]
            elif t in ("set", "pyset", "fset"):
                g = ["set", [val(v) for v in info]]
            elif t in ("list", "tuple"):
                g = ["arr", len(info), [[k, val(v)] for k, v in enumerate(info)], []]
            elif t == "date":
                g = ["date", d(n[1])[1]]
            elif t == "re":
                g = ["re", utf16(n[1]) or "(?:)", "".join(sorted(n[2]))]
            elif t == "pat":
                o = self.objects[i]
                fl = "".join(c for c, f in (("i", re.I), ("m", re.M), ("s", re.S), ("v", re.U)) if o.flags & f)
                g = ["re", n[1] or "(?:)", fl]
            elif t == "err":
                _, cls, name, msg, stack, _ = n
                name = name if name in ERROR_NAMES else "Error"
                if msg is None and (cls == "E" or target == "py"):
                    msg = ""
                if stack is None and target == "js":
                    stack = "*"
                if target == "js" and name == "UriError":
                    name = "URIError"
                g = [
                    "err",
                    name,
                    None if msg is None else utf16(msg),
                    None if stack is None else utf16(stack),
                    None if info is None else val(info),
                ]
            elif t == "exc":
                e, g = self.objects[i], []
                while e is not None:
                    lines = traceback.format_exception_only(e)
                    x = ["err", "Error", lines[0].rstrip(), "*", None]
                    if g:
                        g[-1][4] = ["r", len(self.nodes) + len(causes)]
                        causes.append(x)
                    g.append(x)
                    e = e.__cause__
                g = g[0]
            elif t == "prim":
                x = n[1][1]
                if target == "js" and n[1][0] == "i" and not -SAFE <= x <= SAFE:
                    g = ["prim", ["i", digits(x)]]
                else:
                    g = ["prim", prim_graph(n[1], target)]
            elif t == "bigprim":
                g = ["prim", ["i", digits(n[1])]]
            elif t in ("bytes", "bytearray", "mv"):
                g = ["ab", n[1].hex(), None]
            elif t == "ab":
                mx = None if n[2] is None or not resizable else len(n[1]) + n[2]
                g = ["ab", n[1].hex(), mx]
            elif t in ("sab", "abt"):
                g = [t, n[1]]
            elif t == "view":
                size, off, ln = info
                bn = self.nodes[n[2]]
                tracking = False
                if bn[0] in INACCESSIBLE:
                    pass
                elif ln is None:
                    tracking = bn[0] == "ab" and bn[2] is not None and resizable
                    ln = (len(bn[1]) - off * size) // size
                g = ["view", n[1], ["r", n[2]], off * size, ln * size, tracking]
            else:
                raise AssertionError(t)
            out.append(g)
        return {"root": val(self.root), "nodes": out + causes}

    # -- structure

    def edges(self, i: int) -> list[int]:
        """The nodes that node i refers to, in the order they're written."""
        n, info = self.nodes[i], self.info.get(i)
        t = n[0]
        vals: list[tuple] = []
        if t == "obj":
            g = order_props([[prop_key(k), v] for k, v in info])
            vals = [v for _, v in g]
        elif t in ("arr", "sarr"):
            _, els, props = info
            vals = [els[k] for k in sorted(els)] + [v for _, v in order_props([[k, v] for k, v in props])]
        elif t in ("map", "dict"):
            vals = [x for e in info for x in e]
        elif t in ("set", "pyset", "fset", "list", "tuple"):
            vals = list(info)
        elif t == "err" and info is not None:
            vals = [info]
        elif t == "view":
            vals = [("r", n[2])]
        return [v[1] for v in vals if v[0] == "r"]

    def reachable(self) -> list[int]:
        if self.root[0] != "r":
            return []
        order, todo, seen = [], [self.root[1]], set()
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            order.append(i)
            todo.extend(reversed(self.edges(i)))
        return order

    def kinds(self) -> set[str]:
        return {self.nodes[i][0] for i in self.reachable()}

    def shared(self) -> int:
        """How many reachable nodes are referred to more than once."""
        count: dict[int, int] = {}
        for i in self.reachable():
            for j in self.edges(i):
                count[j] = count.get(j, 0) + 1
        return sum(1 for c in count.values() if c > 1)

    def has_cycle(self) -> bool:
        state: dict[int, int] = {}

        def visit(i: int) -> bool:
            state[i] = 1
            for j in self.edges(i):
                if state.get(j) == 1 or (j not in state and visit(j)):
                    return True
            state[i] = 2
            return False

        return self.root[0] == "r" and visit(self.root[1])

    def has_cyclic_cause(self) -> bool:
        """Whether an error is met again while its cause is being written."""
        written: set[int] = set()
        open_errors: set[int] = set()

        def visit(i: int) -> bool:
            if i in written:
                return i in open_errors
            written.add(i)
            is_err = self.nodes[i][0] == "err" and self.info[i] is not None
            if is_err:
                open_errors.add(i)
            for j in self.edges(i):
                if visit(j):
                    return True
            if is_err:
                open_errors.discard(i)
            return False

        return self.root[0] == "r" and visit(self.root[1])


def _kid(k: tuple) -> tuple:
    return k if k[0] != "f" or k[1] == k[1] else ("f", "nan")


def _same_key(a: object, b: object) -> bool:
    """Whether Python's dicts and sets regard two objects as the same key."""
    return a is b or (hash(a) == hash(b) and bool(a == b))
