"""C16: decoding and encoding options change exactly what they say."""

from __future__ import annotations

import array
import ctypes
import io
import mmap
from collections import Counter, OrderedDict
from datetime import datetime, timedelta, timezone
from typing import Any

from vk import gens, refcodec, st
from vk.bytesgen import choice_lists, chooser
from vk.common import (
    FEATURES,
    all_features,
    check_same,
    concrete,
    describe_or_fail,
    dump_all,
    feature_set,
    js_graphs,
)
from vk.core import Case, Stats, check, violated
from vk.gens import Build
from vk.graph import datetime_ms, num, utf16
from vk.refcodec import js_number

RULE = (
    "Generated streams (from the library and from an independent writer with other spellings) "
    "are decoded with the defaults and with generated choices of result types, constants, error "
    "builders, zones, tag readers, steps and kinds of input object; the two results are walked in "
    "parallel, with identities, and may differ only as the choice says. Values are encoded with "
    "added steps, and by reused encoders. Non-trivial: the value contains something that the "
    "choice is about, or the steps see several values."
)
ASSUMPTIONS = [
    "With dict or set as a result type, keys that Python considers equal are one key, and keys that it cannot hash aren't generated.",
    "With dict as the type of arrays, holes may be shown as entries.",
    "Inputs are C-contiguous bytes-like objects.",
]


def stream(x: tuple) -> bytes:
    """The bytes of a generated graph."""
    spec, choices, version = x
    b = Build(spec)
    if choices is None:
        return dump_all(b.value)
    return refcodec.Writer(concrete(b.expected("js")), chooser(choices), version).write()


def streams(**kw: Any) -> Any:
    return st.tuples(
        js_graphs(**{"max_nodes": 8, "fan": 4, **kw}),
        st.one_of(st.none(), choice_lists),
        st.sampled_from([15, 15, 15, 14]),
    )


# ------------------------------------------------------------- result types

CONSTANTS = ["kUndefined", "kNull", "kTrue", "kFalse", "kTheHole"]


class Sentinel:
    def __init__(self, name: str) -> None:
        self.name = name

    def __repr__(self) -> str:
        return f"<{self.name}>"


def types_of() -> dict[str, Any]:
    from v8serialize.jstypes import JSArray, JSError, JSErrorData, JSMap, JSObject, JSSet

    class OMap(JSMap):  # type: ignore[type-arg]
        pass

    class OSet(JSSet):  # type: ignore[type-arg]
        pass

    class OObject(JSObject):  # type: ignore[type-arg]
        pass

    class OArray(JSArray):  # type: ignore[type-arg]
        pass

    class OError:
        pass

    def builder(e: Any) -> Any:
        o = OError()
        o.fields = e  # type: ignore[attr-defined]
        return o, e

    def built_later(e: Any) -> Any:
        # The object to fill in may be another than the result
        r = JSErrorData(e.message, name=e.name, stack=e.stack, cause=e.cause)
        return r, r

    return {
        "map": [None, JSMap, OMap, dict, OrderedDict],
        "set": [None, JSSet, OSet, set],
        "object": [None, JSObject, OObject, dict],
        "array": [None, JSArray, OArray, dict],
        "error": [(None, JSError), (JSError.builder, JSError), (JSErrorData.builder, JSErrorData), (builder, OError), (built_later, JSErrorData)],
    }


TYPES: dict[str, Any] = {}


def result_types() -> dict[str, Any]:
    if not TYPES:
        TYPES.update(types_of())
    return TYPES


TZS = [None, timezone.utc, timezone(timedelta(hours=5, minutes=30)), timezone(-timedelta(hours=11))]


class Config:
    """A choice of options for decoding."""

    def __init__(self, c: tuple) -> None:
        from v8serialize.constants import SerializationTag
        from v8serialize.jstypes import JSArray, JSError, JSMap, JSObject, JSSet

        t = result_types()
        self.kw: dict[str, Any] = {}
        default = {"map": JSMap, "set": JSSet, "object": JSObject, "array": JSArray}
        self.type: dict[str, Any] = {}
        for name, i in zip(("map", "set", "object", "array"), c[0]):
            cls = t[name][i % len(t[name])]
            if cls is not None:
                self.kw[{"map": "jsmap_type", "set": "jsset_type", "object": "js_object_type", "array": "js_array_type"}[name]] = cls
            self.type[name] = cls or default[name]
        builder, self.error = t["error"][c[1] % len(t["error"])]
        if builder:
            self.kw["js_error_builder"] = builder
        self.tz = TZS[c[2] % len(TZS)]
        if self.tz:
            self.kw["default_timezone"] = self.tz
        self.constants = {n: Sentinel(n) for n, on in zip(CONSTANTS, c[3]) if on}
        if self.constants:
            self.kw["js_constants"] = {SerializationTag[n]: v for n, v in self.constants.items()}
        self.default_error = JSError


configs = st.tuples(
    st.tuples(st.integers(0, 4), st.integers(0, 3), st.integers(0, 3), st.integers(0, 3)),
    st.integers(0, 4),
    st.integers(0, 3),
    st.one_of(st.just((False,) * 5), st.tuples(*[st.booleans()] * 5)),
)


def key(k: Any) -> str:
    """The name of a property, however it's spelled."""
    if isinstance(k, float):
        return js_number(k)
    return utf16(str(k))


class Differ:
    """Walks the result with the defaults and one with a configuration."""

    def __init__(self, cfg: Config, s: Stats, wrapped: bool) -> None:
        self.wrapped = wrapped
        self.cfg = cfg
        self.s = s
        self.there: dict[int, Any] = {}
        self.back: dict[int, Any] = {}
        self.keep: list = []
        self.relevant = False

    def compare(self, a: Any, b: Any) -> None:
        self.todo = [(a, b, "$")]
        while self.todo:
            self.pair(*self.todo.pop())

    def pair(self, a: Any, b: Any, path: str) -> None:
        from v8serialize.jstypes import (
            JSArray,
            JSArrayBuffer,
            JSArrayBufferTransfer,
            JSDataView,
            JSError,
            JSHole,
            JSMap,
            JSObject,
            JSRegExp,
            JSSet,
            JSSharedArrayBuffer,
            JSTypedArray,
            JSUndefined,
        )

        cfg = self.cfg
        for name, value in (("kUndefined", JSUndefined), ("kNull", None), ("kTrue", True), ("kFalse", False), ("kTheHole", JSHole)):
            if a is value:
                exp = cfg.constants.get(name, value)
                if name in cfg.constants:
                    self.relevant = True
                # (Booleans may have been Boolean objects, which no constant replaces)
                check(b is exp or (self.wrapped and b is value and isinstance(a, bool)), lambda: f"{path}: {value!r} became {b!r}, expected {exp!r}")
                return
        if isinstance(a, (int, float)):
            check(type(a) is type(b) and num(a) == num(b), lambda: f"{path}: {a!r} became {b!r}")
            return
        if isinstance(a, str):
            check(type(b) is str and a == b, lambda: f"{path}: {a!r} became {b!r}")
            return
        # Objects: the same ones must be the same ones
        immutable = isinstance(a, (datetime, JSRegExp, JSSharedArrayBuffer, JSArrayBufferTransfer))
        if id(a) in self.there:
            check(self.there[id(a)] is b, lambda: f"{path}: an object that was shared no longer is")
            return
        check(immutable or id(b) not in self.back, lambda: f"{path}: two objects have become one")
        self.there[id(a)] = b
        self.back[id(b)] = a
        self.keep += [a, b]
        if isinstance(a, JSMap):
            cls = cfg.type["map"]
            check(type(b) is cls, lambda: f"{path}: a map became a {type(b).__name__}, not a {cls.__name__}")
            items = list(a.items())
            if cls in (dict, OrderedDict):
                self.relevant = True
                constants = {id(v): cfg.constants.get(n, v) for n, v in (("kUndefined", JSUndefined), ("kNull", None), ("kTrue", True), ("kFalse", False))}
                # The keys as Python has them (an error or other object stands for itself)
                as_dict: dict = {}
                for k, v in items:
                    k2 = constants.get(id(k), k)
                    as_dict.setdefault(k2, [k, v])[1] = v
                items = [(k, v) for k, v in as_dict.values()]
            self.entries(items, list(b.items()), path)
        elif isinstance(a, JSSet):
            cls = cfg.type["set"]
            check(type(b) is cls, lambda: f"{path}: a set became a {type(b).__name__}, not a {cls.__name__}")
            if cls is set:
                self.relevant = True
                # Sets of Python have no order
                constants = {id(v): cfg.constants.get(n, v) for n, v in (("kUndefined", JSUndefined), ("kNull", None), ("kTrue", True), ("kFalse", False))}
                want = Counter(ident(e) for e in {constants.get(id(x), x) for x in a})
                got = Counter(ident(e) for e in b)
                check(want == got, lambda: f"{path}: {a!r} became {b!r}")
                return
            got_list = list(b)
            check(len(got_list) == len(a), lambda: f"{path}: {a!r} became {b!r}")
            self.todo += [(x, y, f"{path}<{i}>") for i, (x, y) in enumerate(zip(a, got_list))]
        elif isinstance(a, JSArray):
            cls = cfg.type["array"]
            check(type(b) is cls, lambda: f"{path}: an array became a {type(b).__name__}, not a {cls.__name__}")
            holes = (JSHole, cfg.constants.get("kTheHole", JSHole))
            if cls is dict:
                self.relevant = True
                items = [(k, v) for k, v in b.items() if v not in holes]
                self.props([(k, v) for k, v in a.items()], items, path)
                return
            check(len(a.array) == len(b.array), lambda: f"{path}: the length {len(a.array)} became {len(b.array)}")
            ea = dict(a.array.elements().items())
            eb = {i: x for i, x in b.array.elements().items() if x is not holes[1]}
            check(list(ea) == list(eb), lambda: f"{path}: the elements {list(ea)} became {list(eb)}")
            self.todo += [(ea[i], eb[i], f"{path}[{i}]") for i in ea]
            self.props(list(a.properties.items()), list(b.properties.items()), path)
        elif isinstance(a, JSObject):
            cls = cfg.type["object"]
            check(type(b) is cls, lambda: f"{path}: an object became a {type(b).__name__}, not a {cls.__name__}")
            if cls is dict:
                self.relevant = True
            self.props(list(a.items()), list(b.items()), path, ordered=cls is not dict)
        elif isinstance(a, JSError):
            cls = cfg.error
            check(type(b) is cls, lambda: f"{path}: an error became a {type(b).__name__}, not a {cls.__name__}")
            if cls is not JSError:
                self.relevant = True
            f = getattr(b, "fields", b)
            check(a.name == f.name, lambda: f"{path}: the name {a.name!r} became {f.name!r}")
            check(a.message == (f.message or ""), lambda: f"{path}: the message {a.message!r} became {f.message!r}")
            check(a.stack == f.stack, lambda: f"{path}: the stack {a.stack!r} became {f.stack!r}")
            # No cause and an undefined one are alike, when null isn't replaced
            self.todo.append((a.cause, f.cause, f"{path}.cause")) if not (a.cause is None and f.cause is None) else None
        elif isinstance(a, datetime):
            check(type(b) is datetime, lambda: f"{path}: a date became a {type(b).__name__}")
            check(b.tzinfo is cfg.tz, lambda: f"{path}: the zone of {b!r} isn't {cfg.tz}")
            check(datetime_ms(a) == datetime_ms(b), lambda: f"{path}: {a!r} became {b!r}")
            if cfg.tz:
                self.relevant = True
        elif isinstance(a, JSRegExp):
            check(type(b) is JSRegExp and (a.source, a.flags) == (b.source, b.flags), lambda: f"{path}: {a!r} became {b!r}")
        elif isinstance(a, JSArrayBuffer):
            check(
                type(b) is JSArrayBuffer and bytes(a) == bytes(b) and a.max_byte_length == b.max_byte_length and a.resizable == b.resizable,
                lambda: f"{path}: {a!r} became {b!r}",
            )
        elif isinstance(a, (JSSharedArrayBuffer, JSArrayBufferTransfer)):
            check(type(a) is type(b) and a == b, lambda: f"{path}: {a!r} became {b!r}")
        elif isinstance(a, (JSTypedArray, JSDataView)):
            check(
                type(a) is type(b) and (a.item_offset, a.item_length) == (b.item_offset, b.item_length),
                lambda: f"{path}: {a!r} became {b!r}",
            )
            self.todo.append((a.backing_buffer, b.backing_buffer, f"{path}.buffer"))
        else:
            violated(f"{path}: unexpected {a!r}")

    def entries(self, a: list, b: list, path: str) -> None:
        check(len(a) == len(b), lambda: f"{path}: the entries {a!r} became {b!r}"[:600])
        for i, ((k1, v1), (k2, v2)) in enumerate(zip(a, b)):
            self.todo.append((k1, k2, f"{path}<key {i}>"))
            self.todo.append((v1, v2, f"{path}<{i}>"))

    def props(self, a: list, b: list, path: str, ordered: bool = False) -> None:
        ka = [key(k) for k, _ in a]
        kb = [key(k) for k, _ in b]
        if not ordered:
            # As written, not as an object orders them
            check(sorted(ka) == sorted(kb), lambda: f"{path}: the properties {ka} became {kb}")
        else:
            check(ka == kb, lambda: f"{path}: the properties {ka} became {kb}")
        values = dict(zip(kb, (v for _, v in b)))
        for k, (_, v) in zip(ka, a):
            self.todo.append((v, values[k], f"{path}.{k}"))


def ident(e: Any) -> Any:
    if isinstance(e, Sentinel):
        return ("sentinel", e.name)
    if isinstance(e, float) and e != e:
        return ("nan",)
    return ("value", e)


def unhashable_keys(graph: dict) -> bool:
    """Whether maps or sets have objects as keys."""
    return any(
        (e[0] if n[0] == "map" else e)[0] == "r" for n in graph["nodes"] if n[0] in ("map", "set") for e in n[1]
    )


def run_types(x: tuple, s: Stats) -> None:
    from v8serialize import loads

    src, config, extra = x
    data = stream(src)
    cfg = Config(config)
    default = loads(data)
    if {cfg.type["map"], cfg.type["set"]} & {dict, OrderedDict, set} and unhashable_keys(describe_or_fail(default)):
        s.label("unhashable keys")
        return
    kw = dict(cfg.kw)
    if extra == "nodejs":
        kw["nodejs"] = True
    elif extra == "no nodejs":
        kw["nodejs"] = False
    elif extra == "tag reader":
        from v8serialize import TagReader

        kw = {"decode_steps": [TagReader(**kw)]}
    s.label(extra, *(f"{k}={v.__name__}" for k, v in cfg.type.items()), cfg.error.__name__)
    out = loads(data, **kw)
    d = Differ(cfg, s, any(n[0] == "prim" for n in src[0][1]))
    d.compare(default, out)
    s.nontrivial(d.relevant)


# ------------------------------------------------------------------- inputs

INPUTS: dict[str, Any] = {}


def input_kinds() -> dict[str, Any]:
    from v8serialize.jstypes import JSArrayBuffer

    class Bytes(bytes):
        pass

    class Buf:
        def __init__(self, d: bytes) -> None:
            self.d = d

        def __buffer__(self, flags: int) -> memoryview:
            return memoryview(self.d)

    def mm(d: bytes) -> Any:
        m = mmap.mmap(-1, len(d))
        m.write(d)
        return m

    return {
        "bytes": bytes,
        "bytes subclass": Bytes,
        "bytearray": bytearray,
        "memoryview": memoryview,
        "writable memoryview": lambda d: memoryview(bytearray(d)),
        "slice": lambda d: memoryview(b"\xff\x0f_" + d + b"o{\0")[3 : 3 + len(d)],
        "reversed twice": lambda d: memoryview(d[::-1])[::-1].tobytes(),
        "array B": lambda d: array.array("B", d),
        "array b": lambda d: array.array("b", d),
        "array H": lambda d: array.array("H", d + bytes(len(d) % 2)),
        "array Q": lambda d: array.array("Q", d + bytes(-len(d) % 8)),
        "array d": lambda d: array.array("d", d + bytes(-len(d) % 8)),
        "cast b": lambda d: memoryview(d).cast("b"),
        "cast c": lambda d: memoryview(d).cast("c"),
        "cast I": lambda d: memoryview(d + bytes(-len(d) % 4)).cast("I"),
        "2d": lambda d: memoryview(d + bytes(len(d) % 2)).cast("B", (2, (len(d) + 1) // 2)),
        "ctypes": lambda d: (ctypes.c_ubyte * len(d)).from_buffer_copy(d),
        "ctypes int": lambda d: (ctypes.c_int32 * (-(-len(d) // 4))).from_buffer_copy(d + bytes(-len(d) % 4)),
        "mmap": mm,
        "__buffer__": Buf,
        "JSArrayBuffer": JSArrayBuffer,
        "file": lambda d: io.BytesIO(d),
        "buffered file": lambda d: io.BufferedReader(io.BytesIO(d)),  # type: ignore[arg-type]
        "decodes": bytes,
        "file at a position": bytes,
    }


N_INPUTS = 25


def run_inputs(x: tuple, s: Stats) -> None:
    from v8serialize import DecodeV8SerializeError, Decoder, loads

    src, which, trailing, damage = x
    data = stream(src)
    if damage is not None:
        data = data[: damage % len(data)]
    kinds = input_kinds()
    check(len(kinds) == N_INPUTS, "harness: N_INPUTS")
    name = list(kinds)[which]
    s.label(name)
    data += trailing
    if not data and name in ("2d", "mmap"):
        data = b"\xff"  # these can't be empty
    obj = kinds[name](data)
    # What's decoded from plain bytes (with what is filled up to a multiple)
    plain = data
    if name in ("array H", "array Q", "array d", "cast I", "2d", "ctypes int"):
        plain = bytes(memoryview(obj).cast("B"))

    def decode() -> Any:
        if name == "decodes":
            return Decoder(None).decodes(obj)
        if name in ("file", "buffered file"):
            return Decoder().decode(obj)
        if name == "file at a position":
            f = io.BytesIO(b"\xff\x0f_" + obj)
            f.seek(3)
            return Decoder().decode(f)
        return loads(obj)

    try:
        exp: Any = describe_or_fail(loads(plain, nodejs=None if name not in ("decodes", "file", "buffered file", "file at a position") else False))
    except DecodeV8SerializeError:
        exp = None
    if exp is None:
        s.label("refused")
        try:
            decode()
        except DecodeV8SerializeError:
            return
        violated(f"{name}: bytes that are refused are accepted")
    out = decode()
    check_same(exp, describe_or_fail(out), f"decoded from {name}")
    s.nontrivial(len(exp["nodes"]) > 1)
    # It's not changed, and it doesn't change the result
    if not isinstance(obj, (io.IOBase,)):
        now = obj.d if name == "__buffer__" else bytes(obj[:]) if name == "mmap" else bytes(memoryview(obj).cast("B"))
        check(now[: len(plain)] == plain, f"decoding changed the {name}")
        if name in ("bytearray", "writable memoryview", "array B", "array b", "ctypes", "mmap"):
            if name == "mmap":
                obj[:] = b"\xee" * len(obj)
            else:
                memoryview(obj).cast("B")[:] = b"\xee" * len(memoryview(obj).cast("B"))
            check_same(exp, describe_or_fail(out), f"after changing the {name}, what was decoded from it")


# -------------------------------------------------------------------- steps


class PassFn:
    """Steps that leave everything to the next one."""

    def __init__(self, log: list) -> None:
        self.log = log

    def __call__(self, x: Any, /, ctx: Any, next: Any) -> Any:
        self.log.append(x)
        return next(x)


class PassObj:
    def __init__(self, log: list) -> None:
        self.log = log

    def encode(self, value: Any, /, ctx: Any, next: Any) -> None:
        self.log.append(value)
        next(value)

    def decode(self, tag: Any, /, ctx: Any, next: Any) -> Any:
        self.log.append(tag)
        return next(tag)


def pass_steps(kinds: tuple, log: list) -> list:
    return [PassFn(log) if k == "fn" else PassObj(log) for k in kinds]


step_kinds = st.lists(st.sampled_from(["fn", "obj"]), max_size=3).map(tuple)
CONTAINERS = st.sampled_from(["list", "tuple", "iter", "generator"])


def contained(steps: list, how: str) -> Any:
    if how == "list":
        return steps
    if how == "tuple":
        return tuple(steps)
    if how == "iter":
        return iter(steps)
    return (s for s in steps)


def run_encode(x: tuple, s: Stats) -> None:
    from v8serialize import Encoder, UnhandledValueEncodeV8SerializeError, default_encode_steps, dumps

    specs, feats, before, between, how, version = x
    values = [Build(spec) for spec in specs]
    features = feature_set(feats)
    refs, writer = default_encode_steps
    log1: list = []
    log2: list = []
    steps = [*pass_steps(before, log1), refs, *pass_steps(between, log2), writer]
    encoder = Encoder(encode_steps=contained(steps, how), features=features)
    default = Encoder(features=features, encode_steps=None)
    # Steps that leave everything, or no steps at all, write nothing
    for b in values:
        for some in (pass_steps(before, []), [*pass_steps(before, []), refs]):
            for what, call in (
                ("dumps()", lambda: dumps(b.value, encode_steps=contained(some, how), features=features)),
                ("an encoder", lambda: bytes(Encoder(encode_steps=contained(some, how), features=features).encode(b.value))),
            ):
                got = attempt(call)
                check(type(got) is UnhandledValueEncodeV8SerializeError, lambda: f"{what} with {len(some)} steps that write nothing gives {got!r:.300}")
    for b in values:
        exp = attempt(lambda: dumps(b.value, features=features))
        for what, got in (
            ("dumps() with pass-through steps", attempt(lambda: dumps(b.value, encode_steps=contained(steps, how), features=features))),
            ("a reused encoder with pass-through steps", attempt(lambda: bytes(encoder.encode(b.value)))),
            ("a reused encoder", attempt(lambda: bytes(default.encode(b.value)))),
            ("dumps() without steps", attempt(lambda: dumps(b.value, encode_steps=None, features=features))),
        ):
            check(same_outcome(exp, got), lambda: f"{what} gives {got!r:.600}, not {exp!r:.600}")
        s.label("written" if isinstance(exp, bytes) else type(exp).__name__)
        if isinstance(exp, bytes):
            log1.clear()
            log2.clear()
            dumps(b.value, encode_steps=steps, features=features)
            n1, n2 = len(before), len(between)
            if n1 and n2:
                # Each step sees each value; the later ones not the ones written as references
                check(len(log1) % n1 == 0 and len(log2) % n2 == 0, "steps see different values")
                check(len(log1) // n1 >= len(log2) // n2, "later steps see more values than earlier ones")
            for log, n in ((log1, n1), (log2, n2)):
                for i in range(0, len(log), n or 1):
                    # (nested values come between, but a value comes to all steps at once)
                    group = log[i : i + n]
                    check(all(g is group[0] or type(g) is type(group[0]) for g in group), "steps see different values")
            s.nontrivial(bool(n1 + n2) and len(log1) + len(log2) > n1 + n2)


def attempt(f: Any) -> Any:
    from v8serialize import V8SerializeError

    try:
        return f()
    except V8SerializeError as e:
        return e


def same_outcome(a: Any, b: Any) -> bool:
    if isinstance(a, bytes):
        return isinstance(b, bytes) and a == b
    return type(a) is type(b) and str(a) == str(b)


def run_decode(x: tuple, s: Stats) -> None:
    from v8serialize import Decoder, TagReader, UnhandledTagDecodeV8SerializeError, loads
    from v8serialize.extensions import NodeJsArrayBufferViewHostObjectHandler

    srcs, before, how, again = x
    log: list = []
    reader = TagReader(host_object_deserializer=NodeJsArrayBufferViewHostObjectHandler())
    steps = [*pass_steps(before, log), reader]
    decoder = Decoder(contained(steps, how))
    plain = Decoder()
    for src in srcs:
        data = stream(src)
        exp = describe_or_fail(loads(data))
        check_same(exp, describe_or_fail(loads(data, decode_steps=contained(steps, how))), "with pass-through steps")
        check_same(exp, describe_or_fail(decoder.decodes(data)), "by a reused decoder with pass-through steps")
        check_same(exp, describe_or_fail(decoder.decode(io.BytesIO(data))), "by a reused decoder, from a file")
        check_same(exp, describe_or_fail(plain.decodes(data)), "by a reused decoder")
        check_same(exp, describe_or_fail(loads(data, decode_steps=None)), "without steps")
        # Steps that leave everything, or no steps at all, read nothing
        for what, call in (
            ("loads()", lambda: loads(data, decode_steps=contained(pass_steps(before, []), how))),
            ("a decoder", lambda: Decoder(contained(pass_steps(before, []), how)).decodes(data)),
        ):
            got = attempt(call)
            check(type(got) is UnhandledTagDecodeV8SerializeError, lambda: f"{what} with {len(before)} steps that read nothing gives {got!r:.300}")
        if again:
            # A decoder that failed is as good as before
            try:
                decoder.decodes(data[:-1])
            except Exception:
                s.label("failed in between")
            check_same(exp, describe_or_fail(decoder.decodes(data)), "by a decoder that failed before")
        if before:
            log.clear()
            loads(data, decode_steps=steps)
            n = len(before)
            check(len(log) % n == 0, "steps see different tags")
            for i in range(0, len(log), n):
                check(len({int(t) for t in log[i : i + n]}) == 1, lambda: f"steps see different tags: {log[i:i+n]}")
            s.nontrivial(len(log) > n)


# ------------------------------------------------- steps that change something


class Custom:
    """A value that only an added step can write."""

    def __init__(self, spec: tuple) -> None:
        self.items: list = []


def run_convert(x: tuple, s: Stats) -> None:
    """A step that writes values of other types as objects, wherever they are."""
    from v8serialize import Encoder, UnhandledValueEncodeV8SerializeError, default_encode_steps, dumps, loads
    from v8serialize.jstypes import JSArray, JSMap, JSObject, JSSet

    shape, mode = x

    def build(custom: bool) -> tuple[Any, list]:
        made: list = []
        for kind, kids in shape:
            refs = [made[k % len(made)] for k in kids if made] if made else []
            if kind == "custom":
                o: Any = Custom(()) if custom else JSArray()
                made.append(o)
                for r in refs:
                    (o.items if custom else o.array).append(r)
                continue
            if kind == "obj":
                o = JSObject({f"k{i}": r for i, r in enumerate(refs)})
            elif kind == "arr":
                o = JSArray(refs)
            elif kind == "map":
                o = JSMap([(i, r) for i, r in enumerate(refs)])
            else:
                o = JSSet(refs)
            made.append(o)
        return made[-1] if made else None, made

    def step(value: Any, /, ctx: Any, next: Any) -> None:
        if isinstance(value, Custom):
            if mode == "next":
                # Known by the new array, so that each visit writes another
                next(JSArray(value.items))
            else:
                ctx.stream.write_js_array_dense(value.items, ctx=ctx, identity=value)
        else:
            next(value)

    value, made = build(True)
    plain, _ = build(False)
    has_custom = any(isinstance(o, Custom) for o in reach(value))
    s.label(mode, "custom" if has_custom else "none")
    if has_custom:
        try:
            dumps(value)
        except UnhandledValueEncodeV8SerializeError as e:
            check(isinstance(e.value, Custom), lambda: f"the unhandled value is {e.value!r}")
        else:
            violated("a value that no step handles is written")
    refs, writer = default_encode_steps
    if mode == "own":
        data = dumps(value, encode_steps=[refs, step, writer])
        check(data == dumps(plain), "a step that writes values as arrays writes something else than arrays")
    else:
        data = dumps(value, encode_steps=[step, refs, writer])
        exp = describe_or_fail(plain)
        got = describe_or_fail(loads(data))
        # Arrays stood for are written each time they are met
        arrays = {i for i, n in enumerate(exp["nodes"]) if n[0] == "arr"}
        if not shared_below(plain):
            check_same(exp, got, "with a step that replaces values", arrays)
    s.nontrivial(has_custom and len(made) > 2)


def kids_of(o: Any) -> list:
    from v8serialize.jstypes import JSMap, JSObject, JSSet

    if isinstance(o, Custom):
        return list(o.items)
    if isinstance(o, (JSObject, JSMap)):
        return list(o.values())
    if isinstance(o, JSSet):
        return list(o)
    return []


def reach(o: Any) -> list:
    seen: dict[int, Any] = {}
    todo = [o]
    while todo:
        v = todo.pop()
        if id(v) not in seen:
            seen[id(v)] = v
            todo += kids_of(v)
    return list(seen.values())


def shared_below(o: Any) -> bool:
    n: Counter = Counter()
    for v in reach(o):
        for k in kids_of(v):
            n[id(k)] += 1
    return any(c > 1 for c in n.values())


def run_alter(x: tuple, s: Stats) -> None:
    """Steps and tag readers that change the values of some tags."""
    from v8serialize import DecodeV8SerializeError, Decoder, TagReader, loads
    from v8serialize.constants import SerializationTag
    from v8serialize.decode import TagReaderRegistry

    src, tags, how = x
    data = stream(src)
    strings = ("kOneByteString", "kTwoByteString", "kUtf8String")
    ints = ("kInt32", "kUint32")
    chosen = {SerializationTag[t] for t in tags}
    if any(t in tags for t in strings):
        chosen |= {SerializationTag[t] for t in strings}
    if any(t in tags for t in ints):
        chosen |= {SerializationTag[t] for t in ints}
    seen: list = []
    kinds = {
        SerializationTag.kDouble: float,
        SerializationTag.kBigInt: int,
        SerializationTag.kInt32: int,
        SerializationTag.kUint32: int,
        **{SerializationTag[t]: str for t in strings},
    }

    def mark(tag: Any, v: Any) -> Any:
        check(tag in kinds and type(v) is kinds[tag], lambda: f"{tag.name} was read as {v!r}")
        seen.append((tag, v))
        return v

    if how == "step":

        def step(tag: Any, /, ctx: Any, next: Any) -> Any:
            v = next(tag)
            return mark(tag, v) if tag in chosen else v

        out = loads(data, decode_steps=[step, TagReader()])
    elif how == "reads":

        def step(tag: Any, /, ctx: Any, next: Any) -> Any:
            if tag not in chosen:
                return next(tag)
            read = {
                "kDouble": ctx.stream.read_double,
                "kBigInt": ctx.stream.read_bigint,
                "kInt32": ctx.stream.read_int32,
                "kUint32": ctx.stream.read_uint32,
                "kOneByteString": ctx.stream.read_string_onebyte,
                "kTwoByteString": ctx.stream.read_string_twobyte,
                "kUtf8String": ctx.stream.read_string_utf8,
            }[tag.name]
            return mark(tag, read())

        out = Decoder([step, TagReader()]).decodes(data)
    else:
        registry = TagReaderRegistry()
        base = TagReader()
        for t in chosen:
            registry.register(t, lambda reader, tag, ctx: mark(tag, base.tag_readers.match(tag)(reader, tag, ctx)))  # type: ignore[misc]
        out = loads(data, decode_steps=[TagReader(tag_readers=registry)])
    check_same(describe_or_fail(loads(data)), describe_or_fail(out), f"with a {how} for {sorted(tags)}")
    s.nontrivial(bool(seen))
    s.label(how, *{t.name for t, _ in seen})
    # Exactly the values on the wire with these tags (constants and keys included)
    exp_seen = loads_counting(data, chosen)
    parts = {n[0] for n in describe_or_fail(out)["nodes"]} & {"re", "err", "prim"}
    # (Strings that are parts of regular expressions and such may or may not be seen)
    strings_of_parts = (bool(parts) or b"s" in data) and any(t.name in strings for t in chosen)
    check(strings_of_parts or Counter(t for t, _ in seen) == exp_seen, lambda: f"a {how} for {sorted(tags)} is called for {Counter(t.name for t,_ in seen)}, expected {exp_seen}")
    # Without a step for it, a tag is unhandled
    if how == "step":

        def refuse(tag: Any, /, ctx: Any, next: Any) -> Any:
            if tag in chosen:
                return next(tag)
            return reader.decode(tag, ctx=ctx, next=next)

        reader = TagReader()
        from v8serialize import UnhandledTagDecodeV8SerializeError

        try:
            loads(data, decode_steps=[refuse])
        except UnhandledTagDecodeV8SerializeError as e:
            check(bool(seen) and e.tag == seen[0][0], lambda: f"the unhandled tag is {e.tag!r}, expected {seen[:1]}")
        except DecodeV8SerializeError as e:
            violated(f"an unhandled tag gives {e!r}")
        else:
            check(not seen, "a tag that no step reads is read")


def loads_counting(data: bytes, chosen: set) -> Counter:
    """How often the tags occur, as the independent reader finds."""
    _, reader = refcodec.parse(data)
    n: Counter = Counter()
    for t in chosen:
        n[t] = sum(data[p] == t for p in reader.boundaries)
    return +n


# ------------------------------------------------------- steps that recover


class Part:
    """A part of a value, written by the step below."""

    def __init__(self, kind: str, items: list, catches: bool) -> None:
        self.kind = kind
        self.items = items
        self.catches = catches


class Failed(Exception):
    pass


def run_recover(x: tuple, s: Stats) -> None:
    """A step that catches failures of parts, and writes something else, as if there was no failure."""
    from v8serialize import EncodeV8SerializeError, Encoder, UnhandledValueEncodeV8SerializeError, default_encode_steps, dumps, loads
    from v8serialize.jstypes import JSArray, JSError, JSMap, JSObject

    specs, outer = x
    caught: list = []

    def step(value: Any, /, ctx: Any, next: Any) -> None:
        if isinstance(value, Part):
            start = len(ctx.stream.data)
            at = [start, 0]
            try:
                if value.kind == "props":

                    def items() -> Any:
                        for k, v in value.items:
                            at[0] = len(ctx.stream.data)
                            yield k, v
                            at[1] += 1

                    ctx.stream.write_js_object(items(), ctx=ctx, identity=value)
                elif value.kind == "map":
                    ctx.stream.write_jsmap(value.items, ctx=ctx, identity=value)
                elif value.kind == "error":
                    next(JSError("m", cause=value.items[0][1] if value.items else 0))
                else:
                    next(JSArray([v for _, v in value.items]))
            except EncodeV8SerializeError as e:
                if not value.catches:
                    raise
                caught.append(e)
                if value.kind == "props":
                    # Ended after what was written in full
                    del ctx.stream.data[at[0] :]
                    ctx.stream.write_tag(SerializationTag.kEndJSObject)
                    ctx.stream.write_varint(at[1])
                else:
                    del ctx.stream.data[start:]
                    next({"failed": True})
        else:
            next(value)

    from v8serialize.constants import SerializationTag

    def build(spec: tuple) -> Any:
        if spec[0] != "part":
            return {"bad": object, "dict": lambda: {}, "true": lambda: True, "float16": _float16, "ints": lambda: 7, "strs": lambda: "é"}[spec[0]]()
        return Part(spec[1], [(f"k{i}" if k is None else build(k), build(v)) for i, (k, v) in enumerate(spec[3])], spec[2])

    def model(spec: tuple) -> Any:
        if spec[0] != "part":
            if spec[0] in ("bad", "float16"):
                raise Failed(spec[0])
            return {"dict": JSMap, "true": lambda: True, "ints": lambda: 7, "strs": lambda: "é"}[spec[0]]()
        _, kind, catches, items = spec
        done: list = []
        try:
            for i, (k, v) in enumerate(items):
                if k is None or kind in ("array", "error"):
                    key = f"k{i}"
                elif kind == "map":
                    key = model(k)
                else:
                    if k[0] not in ("ints", "strs"):
                        raise Failed("key")
                    key = model(k)
                done.append((key, model(v)))
                if kind == "error":
                    break
        except Failed:
            if not catches:
                raise
            if kind != "props":
                return JSMap([("failed", True)])
        if kind == "props":
            return JSObject(done)
        if kind == "map":
            return JSMap(done)
        if kind == "error":
            return JSError("m", cause=done[0][1] if done else 0)
        return JSArray([v for _, v in done])

    encoder = Encoder(encode_steps=[step, *default_encode_steps])
    for i, spec in enumerate(specs):
        value = build(("part", "array", False, ((None, spec), (None, ("dict",)), (None, ("true",))))) if outer else build(spec)
        try:
            exp = model(spec)
        except Failed:
            exp = Failed
        try:
            got: Any = loads(bytes(encoder.encode(value)))
        except EncodeV8SerializeError as e:
            check(exp is Failed, lambda: f"a value with failures that a step recovers from is refused: {e!r:.300}")
            s.label("failed")
            continue
        check(exp is not Failed, lambda: f"a value with a part that can't be written gives {got!r}")
        check_same(describe_or_fail(JSArray([exp, JSMap(), True]) if outer else exp), describe_or_fail(got), f"value {i}, written by a step that recovers")
    s.label(*{type(e).__name__ for e in caught})
    s.nontrivial(bool(caught))


def run_cut_errors(x: tuple, s: Stats) -> None:
    """A step that ends errors early when their causes can't be written; these are met again."""
    from v8serialize import EncodeV8SerializeError, default_encode_steps, dumps, loads
    from v8serialize.constants import SerializationTag
    from v8serialize.jstypes import JSArray, JSError

    specs, order, features, by_reference = x
    errors: list = []
    for i, (kind, j) in enumerate(specs):
        cause: Any = object if kind == "bad" else j if kind == "fine" else errors[j % len(errors)] if errors else None
        errors.append(JSError(f"m{i}", cause=cause, stack=f"s{i}"))
    at: dict = {}
    cut: set = set()

    def step(value: Any, /, ctx: Any, next: Any) -> None:
        if type(value) is JSError:
            known = id(value) in at
            if known and by_reference:
                ctx.stream.write_object_reference(obj=value)
                return
            if known:
                next(value)
                return
            at[id(value)] = None
            outer = current[:]
            current[:] = [value]
            try:
                next(value)
            except EncodeV8SerializeError:
                end = at[id(value)]
                if end is None:
                    raise
                cut.add(id(value))
                del ctx.stream.data[end:]
                ctx.stream.write_varint(ord("."))
            finally:
                current[:] = outer
        else:
            next(value)

    def watch(value: Any, /, ctx: Any, next: Any) -> None:
        if current and at.get(id(current[0])) is None and value is current[0].cause:
            at[id(current[0])] = len(ctx.stream.data) - 1  # before the tag of the cause
        next(value)

    current: list = []
    value = JSArray([errors[i % len(errors)] for i in order])
    got = loads(bytes(dumps(value, encode_steps=[watch, step, *default_encode_steps], features=features)))

    seen: dict = {}

    def expect(e: Any) -> Any:
        if type(e) is not JSError:
            return e
        if id(e) not in seen:
            seen[id(e)] = new = JSError(e.message, stack=e.stack)
            if id(e) not in cut:
                new.cause = expect(e.cause)
        return seen[id(e)]

    check_same(describe_or_fail(JSArray([expect(e) for e in value.array])), describe_or_fail(got), "errors, ended early by a step")
    check(cut == {id(e) for e in value.array for e in causes(e) if bad(e.cause)}, lambda: "errors are refused when their causes can be written")
    s.nontrivial(bool(cut) and len(order) > len(set(order)))
    s.label(f"cut {min(3, len(cut))}")


def causes(e: Any) -> list:
    from v8serialize.jstypes import JSError

    out = []
    while type(e) is JSError:
        out.append(e)
        e = e.cause
    return out


def bad(cause: Any) -> bool:
    return cause is object


def _float16() -> Any:
    from v8serialize.jstypes import JSArrayBuffer, JSFloat16Array

    return JSFloat16Array(JSArrayBuffer(b"1234"))


def run_refused_keys(x: tuple, s: Stats) -> None:
    """A step that writes a string for each key that is refused: as if the string had been the key."""
    from v8serialize import EncodeV8SerializeError, default_encode_steps, dumps

    spec, keys, kind, place = x
    b = Build(spec)
    objs = [b.obj(b.resolve(k, None)) for k in keys]
    if any(b.nodes[b.resolve(k, None)[1]][0] == "view" for k in keys if b.resolve(k, None)[0] == "r"):
        s.label("(views are written after their buffers)")
        return
    replaced: list = []

    class Props(list):  # type: ignore[type-arg]
        pass

    def step(value: Any, /, ctx: Any, next: Any) -> None:
        if isinstance(value, Props):
            if kind == "obj":
                ctx.stream.write_js_object(value, ctx=ctx, identity=value)
            elif kind == "dense":
                ctx.stream.write_js_array_dense([], ctx=ctx, properties=value, identity=value)
            else:
                ctx.stream.write_js_array_sparse(value, ctx=ctx, length=9, identity=value)
            return
        start = len(ctx.stream.data)
        try:
            next(value)
        except EncodeV8SerializeError:
            if len(ctx.stream.data) > start:
                raise
            replaced.append(value)
            next("another key")

    def value(keys: list) -> list:
        p = Props((k, v) for k, v in zip(keys, [*objs[1:], None]))
        return [[b.value, p], [p, b.value, objs], [p, p, objs, b.value]][place]

    steps = [step, *default_encode_steps]
    got = attempt(lambda: dumps(value(objs), encode_steps=steps, features=all_features()))
    n = len(replaced)
    good = [k if isinstance(k, (str, int, float)) and not isinstance(k, bool) else "another key" for k in objs]
    exp = attempt(lambda: dumps(value(good), encode_steps=steps, features=all_features()))
    check(same_outcome(exp, got), lambda: f"a step that replaces refused keys gives {got!r:.400}, not {exp!r:.400}")
    s.nontrivial(n > 0)
    s.label(kind, *{type(v).__name__ for v in replaced})


STAND_INS = ["obj", "arr", "map", "set", "list", "date", "re", "err", "exc", "prim", "buf", "bytes", "view"]


def stand_in(value: Any, ctx: Any, kinds: tuple, identity: bool, kept: list) -> Any:
    """A way to write another object instead of a value of one of these kinds, or None."""
    import copy
    import re
    from collections import abc
    from contextlib import contextmanager

    from v8serialize.jstypes import JSArray, JSArrayBuffer, JSArrayBufferTransfer, JSError, JSErrorData, JSMap, JSObject, JSPrimitiveObject, JSRegExp, JSSharedArrayBuffer
    from v8serialize.jstypes.jsbuffers import JSArrayBufferView

    if not identity and type(value).__hash__ not in (None, object.__hash__, BaseException.__hash__):
        return None  # what's equal to these is the same object
    w = ctx.stream
    by = {"identity": value} if identity else {}

    def write(f: Any, other: Any, *args: Any, **kw: Any) -> Any:
        kept.append(other)
        return lambda: f(other, *args, **by, **kw)

    def pairs() -> Any:
        # (another object, that's iterable once)
        return ((k, v) for k, v in value.items())

    if isinstance(value, JSArray):
        if "arr" not in kinds:
            return None
        if "sparse" in kinds or len(value.array) > 5000:
            return write(w.write_js_array_sparse, pairs(), ctx=ctx, length=len(value.array))
        properties = list(value.properties.items())
        if not identity:

            def dense() -> None:
                start = bytes(w.data)
                try:
                    w.write_js_array_dense(value.array, ctx=ctx, properties=properties)
                except ValueError:
                    check(bytes(w.data) == start, "a refused array leaves something in the stream")
                else:
                    violated("an array and properties are written without an identity")
                kept.append(value.array)
                w.write_js_array_dense(value.array, ctx=ctx, properties=properties, identity=value.array)

            return dense
        return write(w.write_js_array_dense, list(value.array), ctx=ctx, properties=iter(properties))
    if isinstance(value, JSObject):
        return write(w.write_js_object, pairs(), ctx=ctx) if "obj" in kinds else None
    if isinstance(value, abc.Mapping):
        return write(w.write_jsmap, pairs(), ctx=ctx) if "map" in kinds else None
    if isinstance(value, abc.Set):
        return write(w.write_jsset, (v for v in value), ctx=ctx) if "set" in kinds else None
    if isinstance(value, (list, tuple)):
        return write(w.write_js_array_dense, list(value), ctx=ctx) if "list" in kinds else None
    if isinstance(value, (JSErrorData, JSError)):
        return write(w.write_js_error, JSErrorData(name=value.name, message=value.message, stack=value.stack, cause=value.cause), ctx=ctx) if "err" in kinds else None
    if isinstance(value, BaseException):
        return write(w.write_js_error, JSErrorData.from_exception(value), ctx=ctx) if "exc" in kinds else None
    if isinstance(value, JSArrayBufferView):
        if "view" not in kinds:
            return None
        other = copy.copy(value)
        kept.append(other)

        def view() -> None:
            ctx.encode_object(value.backing_buffer)
            w.write_js_array_buffer_view(other, **by)

        return view
    if isinstance(value, (JSArrayBuffer, JSSharedArrayBuffer, JSArrayBufferTransfer)):
        return write(w.write_js_array_buffer, copy.copy(value)) if "buf" in kinds else None
    if isinstance(value, datetime):
        return write(w.write_js_date, value + timedelta(0)) if "date" in kinds else None
    if isinstance(value, JSRegExp):
        return write(w.write_js_regexp, JSRegExp(value.source, value.flags)) if "re" in kinds else None
    if isinstance(value, re.Pattern):
        return write(w.write_js_regexp, JSRegExp.from_python_pattern(value)) if "re" in kinds else None
    if isinstance(value, JSPrimitiveObject):
        return write(w.write_js_primitive_object, JSPrimitiveObject(value.value, value.tag)) if "prim" in kinds else None
    return None


def run_stand_ins(x: tuple, s: Stats) -> None:
    """Steps that write other objects in place of values, which stand for them."""
    from v8serialize import default_encode_steps, dumps, loads

    specs, kinds, identity, keep, feats = x
    b = Build(specs)
    features = feature_set(feats)
    used: set = set()
    made: dict[int, Any] = {}
    refs, writer = default_encode_steps

    def step(value: Any, /, ctx: Any, next: Any) -> None:
        if not identity and id(value) in made:
            other = made[id(value)][0]
            if keep:
                ctx.stream.write_object_reference(obj=other)
            else:
                ctx.stream.write_object_reference(serialized_id=ctx.stream.objects.get_serialized_id(other))
            return
        kept: list = []
        f = stand_in(value, ctx, kinds, identity, kept)
        if f is None:
            return next(value)
        used.add(type(value).__name__)
        if not identity:
            made[id(value)] = (kept[0] if kept else value.array, value)
        elif keep:
            made[id(kept[0])] = kept
        kept = []
        f()

    steps = [refs, step, writer] if identity else [step, refs, writer]
    exp = attempt(lambda: dumps(b.value, features=features))
    got = attempt(lambda: dumps(b.value, encode_steps=steps, features=features))
    s.label(*used)
    s.nontrivial(len(used) > 1)
    if not isinstance(exp, bytes) or not isinstance(got, bytes):
        # (errors can be about either object, and come from the stream instead of the steps)
        check(not isinstance(exp, bytes) and not isinstance(got, bytes), lambda: f"with objects that stand for others: {got!r:.400}, not {exp!r:.400}")
        return
    if "arr" in kinds:
        check_same(describe_or_fail(loads(exp)), describe_or_fail(loads(got)), "with objects that stand for others, what's read")
    else:
        check(exp == got, lambda: f"with objects that stand for others: {got!r:.600}, not {exp!r:.600}")


def recoveries() -> Any:
    leaf = st.sampled_from([("bad",), ("dict",), ("true",), ("float16",), ("ints",), ("strs",), ("ints",), ("strs",)])
    parts = leaf
    for fan in (4, 3, 3, 2):
        parts = st.one_of(
            leaf,
            st.tuples(
                st.just("part"),
                st.sampled_from(["props", "props", "props", "map", "array", "error"]),
                st.booleans(),
                st.lists(st.tuples(st.one_of(st.none(), st.none(), leaf), parts), max_size=fan).map(tuple),
            ),
        )
    return st.tuples(st.lists(parts, min_size=1, max_size=3).map(tuple), st.booleans())


# ------------------------------------------------------------- host objects


def run_hosts(x: tuple, s: Stats) -> None:
    """Who reads the host objects of a stream."""
    from v8serialize import DecodeV8SerializeError, TagReader, default_encode_steps, dumps, loads
    from v8serialize.extensions import (
        NodeJsArrayBufferViewHostObjectHandler,
        serialize_js_array_buffer_views_as_nodejs_host_object,
    )

    spec, custom, nodejs, explicit = x
    b = Build(spec)
    refs, writer = default_encode_steps
    data = dumps(b.value, features=all_features(), encode_steps=[refs, serialize_js_array_buffer_views_as_nodejs_host_object, writer])
    seen: list = []
    handler = NodeJsArrayBufferViewHostObjectHandler()

    def read(*, stream: Any) -> Any:
        v = handler.deserialize_host_object(stream=stream)
        seen.append(v)
        return v

    class Handler:
        def deserialize_host_object(self, *, stream: Any) -> Any:
            return read(stream=stream)

    kw: dict = {}
    if custom:
        kw["host_object_deserializer"] = read if custom == "fn" else Handler()
    if nodejs is not None and not (nodejs and custom):
        kw["nodejs"] = nodejs
    # Without their data or a number in Node.js's list, they're written as others are
    hosts = sum(b.nodes[i][1] != "Float16Array" and b.nodes[b.nodes[i][2]][0] not in gens.INACCESSIBLE for i in b.reachable() if b.nodes[i][0] == "view")
    s.label(custom or "default", f"nodejs={kw.get('nodejs')}")
    s.nontrivial(hosts > 0)
    if explicit and not custom and kw.get("nodejs") is None:
        kw = {"decode_steps": [TagReader()]}
    if hosts and not custom and (kw.get("nodejs") is False or "decode_steps" in kw):
        try:
            loads(data, **kw)
        except DecodeV8SerializeError:
            return
        violated(f"host objects are read with {kw}")
    out = describe_or_fail(loads(data, **kw))
    check_same(describe_or_fail(loads(data)), out, f"with {kw}")
    check(len(seen) == (hosts if custom else 0), lambda: f"{hosts} host objects, but the deserializer of {kw} is called {len(seen)} times")


# ------------------------------------------------------------- bad options


def run_refused(x: tuple, s: Stats) -> None:
    """Options that exclude each other are refused, whatever the data."""
    from v8serialize import TagReader, loads
    from v8serialize.extensions import NodeJsArrayBufferViewHostObjectHandler

    src, config, options, only = x
    data = stream(src)
    cfg = Config(config)
    kw = dict(cfg.kw)
    if only is not None:
        kw = {k: v for i, (k, v) in enumerate(kw.items()) if i == only}
    if "nodejs" in options:
        kw["nodejs"] = options[-1] == "nodejs"
    if "host" in options:
        kw["host_object_deserializer"] = NodeJsArrayBufferViewHostObjectHandler()
    bad = bool(kw.get("nodejs")) and "host_object_deserializer" in kw
    if "steps" in options:
        bad = bool(kw)
        kw["decode_steps"] = [TagReader()]
    try:
        out = loads(data, **kw)
    except TypeError:
        if bad:
            s.nontrivial(True)
            s.label("refused")
            return
        default = loads(data)
        if {cfg.type["map"], cfg.type["set"]} & {dict, OrderedDict, set} and unhashable_keys(describe_or_fail(default)):
            return
        raise
    check(not bad, lambda: f"options {kw} are accepted")
    if "steps" in options:
        check_same(describe_or_fail(loads(data)), describe_or_fail(out), "decoded by a default tag reader")
    s.label("accepted")


def run_registries(x: tuple, s: Stats) -> None:
    """Tag reader registries, and copies of them, are independent."""
    from v8serialize import TagReader, loads
    from v8serialize.constants import JS_ARRAY_BUFFER_TAGS, JS_CONSTANT_TAGS, JS_OBJECT_KEY_TAGS, SerializationTag
    from v8serialize.decode import TagReaderRegistry

    constraints = [JS_CONSTANT_TAGS, JS_OBJECT_KEY_TAGS, JS_ARRAY_BUFFER_TAGS]
    tags = sorted(SerializationTag)
    constants = sorted(JS_CONSTANT_TAGS.allowed_tags)
    default_reader = TagReader()
    defaults = {t: default_reader.tag_readers.match(t) for t in tags}
    defaults = {t: f for t, f in defaults.items() if f is not None}
    check(set(constants) <= set(defaults), "constants can't be read")
    pool: list = [TagReaderRegistry()]
    model: list[dict] = [{}]
    readers: list = [None]
    functions: list = []

    def function(k: int) -> Any:
        def f(reader: Any, tag: Any, ctx: Any) -> Any:
            return ("read by", k, tag)

        functions.append(f)
        return f

    for step, (name, i, j) in enumerate(x):
        what = f"step {step} {name}"
        i %= len(pool)
        if name == "copy":
            pool.append(TagReaderRegistry(pool[i]))
            model.append(dict(model[i]))
            readers.append(None)
            s.nontrivial(bool(model[i]))
        elif name == "reader":
            reader = TagReader(tag_readers=pool[i])
            index = dict(reader.tag_readers.index)
            check(set(index) == {*defaults, *model[i]}, lambda: f"{what}: reads other tags")
            check(all(index[t] is f for t, f in model[i].items()), lambda: f"{what}: readers aren't those given")
            check(not any(f in functions for t, f in index.items() if t not in model[i]), lambda: f"{what}: other readers")
            pool.append(reader.tag_readers)
            model.append(index)
            readers.append(reader)
        elif name == "all":
            j %= len(pool)
            pool[i].register_all(pool[j])
            model[i].update(model[j])
        else:
            f = function(len(functions))
            which = constraints[j % 3] if name == "group" else constants[j % len(constants)] if j % 2 else tags[j % len(tags)]
            pool[i].register(which, f)
            for t in which.allowed_tags if name == "group" else [which]:
                model[i][t] = f
        for k, (r, m) in enumerate(zip(pool, model)):
            check(dict(r.index) == m, lambda: f"{what}: registry {k} has another index")
            check(all(r.match(t) is m.get(t) for t in tags), lambda: f"{what}: registry {k} matches otherwise")
    check(all(default_reader.tag_readers.match(t) is f for t, f in defaults.items()), "the default readers changed")
    check(not any(f in functions for f in TagReader().tag_readers.index.values()), "the default readers changed")
    for r, m, reader in zip(pool, model, readers):
        for reader in [TagReader(tag_readers=r)] if reader is None else [reader, TagReader(tag_readers=r)]:
            for t in constants:
                f = m.get(t, defaults[t])
                exp = f(reader, t, None) if f in functions else default_reader.js_constants[t]
                got = loads(bytes([0xFF, 15, t]), decode_steps=[reader])
                check(got is exp or (isinstance(got, tuple) and got == exp), lambda: f"{t.name} is read as {got!r}, expected {exp!r}")
    s.label(f"{len(pool)} registries")


registry_op = st.tuples(st.sampled_from(["copy", "reader", "all", "one", "one", "one", "group"]), st.integers(0, 5), st.integers(0, 40))

CASES = [
    Case("registries", run_registries, lambda: st.lists(registry_op, min_size=2, max_size=8).map(tuple), quick=400, thorough=10_000),
    Case("types", run_types, lambda: st.tuples(streams(), configs, st.sampled_from(["", "", "", "nodejs", "no nodejs", "tag reader"])), quick=5000, thorough=200_000),
    Case(
        "inputs",
        run_inputs,
        lambda: st.tuples(streams(max_nodes=5), st.integers(0, N_INPUTS - 1), st.sampled_from([b"", b"", b"\0", b"_", b"\xff\x0f_", bytes(8)]), st.one_of(st.none(), st.none(), st.none(), st.integers(0, 300))),
        quick=3000,
        thorough=100_000,
    ),
    Case(
        "encode",
        run_encode,
        lambda: st.tuples(
            st.lists(gens.specs(kinds=gens.ALL_KINDS, max_nodes=6, fan=3), min_size=1, max_size=3).map(tuple),
            st.lists(st.sampled_from(FEATURES), max_size=4).map(tuple),
            step_kinds,
            step_kinds,
            CONTAINERS,
            st.none(),
        ),
        quick=2000,
        thorough=60_000,
    ),
    Case("decode", run_decode, lambda: st.tuples(st.lists(streams(max_nodes=5), min_size=1, max_size=3).map(tuple), step_kinds, CONTAINERS, st.booleans()), quick=1500, thorough=50_000),
    Case(
        "convert",
        run_convert,
        lambda: st.tuples(
            st.lists(
                st.tuples(st.sampled_from(["custom", "custom", "obj", "arr", "map", "set"]), st.lists(st.integers(0, 5), max_size=4).map(tuple)),
                max_size=7,
            ).map(tuple),
            st.sampled_from(["own", "next"]),
        ),
        quick=1500,
        thorough=40_000,
    ),
    Case(
        "refused keys",
        run_refused_keys,
        lambda: st.tuples(gens.specs(kinds=gens.ALL_KINDS, max_nodes=6, fan=3, min_nodes=2), st.lists(gens.values, min_size=1, max_size=4), st.sampled_from(["obj", "dense", "sparse"]), st.integers(0, 2)),
        quick=2500,
        thorough=60_000,
    ),
    Case(
        "stand-ins",
        run_stand_ins,
        lambda: st.tuples(
            gens.specs(kinds=gens.ALL_KINDS, max_nodes=8, fan=4, min_nodes=2),
            st.lists(st.sampled_from([*STAND_INS, "sparse"]), min_size=1, max_size=14, unique=True).map(tuple),
            st.booleans(),
            st.booleans(),
            st.lists(st.sampled_from(FEATURES), max_size=4).map(tuple),
        ),
        quick=2000,
        thorough=60_000,
    ),
    Case(
        "cut-errors",
        run_cut_errors,
        lambda: st.tuples(
            st.lists(st.tuples(st.sampled_from(["bad", "bad", "fine", "error"]), st.integers(0, 3)), min_size=1, max_size=4).map(tuple),
            st.lists(st.integers(0, 3), min_size=1, max_size=6).map(tuple),
            st.sampled_from([None, all_features()]),
            st.booleans(),
        ),
        quick=800,
        thorough=20_000,
    ),
    Case("recover", run_recover, recoveries, quick=2000, thorough=60_000),
    Case(
        "alter",
        run_alter,
        lambda: st.tuples(
            streams(max_nodes=6),
            st.lists(st.sampled_from(["kDouble", "kBigInt", "kInt32", "kUint32", "kOneByteString", "kTwoByteString"]), min_size=1, max_size=3).map(tuple),
            st.sampled_from(["step", "reads", "registry"]),
        ),
        quick=2000,
        thorough=60_000,
    ),
    Case(
        "refused",
        run_refused,
        lambda: st.tuples(streams(max_nodes=3), configs, st.lists(st.sampled_from(["nodejs", "host", "steps", "steps"]), max_size=3).map(tuple), st.one_of(st.none(), st.integers(0, 7))),
        quick=1000,
        thorough=20_000,
    ),
    Case(
        "hosts",
        run_hosts,
        lambda: st.tuples(
            gens.specs(kinds=["obj", "arr", "map", "err", "view", "view", "view", "ab"], max_nodes=7, fan=4, min_nodes=2),
            st.sampled_from(["fn", "obj", None]),
            st.sampled_from([None, False, True]),
            st.booleans(),
        ),
        quick=1200,
        thorough=40_000,
    ),
]
