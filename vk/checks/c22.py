"""C22: calls are independent of each other and of history."""

from __future__ import annotations

import os
import sys
import threading
from typing import Any, Callable

from vk import bytesgen, gens, pristine, st
from vk.bytesgen import choice_lists
from vk.common import all_features, check_same, describe_or_fail, js_graphs
from vk.core import Case, Stats, check, violated
from vk.graph import compare, describe

RULE = (
    "Generated calls (serializing, deserializing, comparing and printing values; with shared and "
    "own encoders, decoders and steps; some of which fail, at a generated place) are made one at "
    "a time; then in a generated history, from inside each other's steps and result types, and in "
    "threads that take turns, by a generated schedule, at every step or every few lines of the "
    "library's code. Each must give what it gave alone, and what was serialized must decode to "
    "the value's own description. Decoded values, the input and what Encoder.encode() returned "
    "are changed, which must not change anything else. Non-trivial: at least two different calls "
    "of which one succeeds on a value with two objects or more, or a mutable decoded value."
)
ASSUMPTIONS = [
    "Interleavings are of steps and of lines of the library's code, in up to three threads.",
    "How deep a value may be nested depends on how deep the stack already is; deep values aren't "
    "generated.",
    "js_repr_settings() is for the whole process, by its documentation; it isn't used here.",
]

LIBRARY = os.sep + "v8serialize" + os.sep


class Stop(Exception):
    """Raised by a step, where a call is made to fail."""


class StopBase(BaseException):
    """The same, but not an Exception."""


def error(e: BaseException) -> tuple:
    pos = getattr(e, "position", None)
    return ("error", type(e).__name__, pos)


class Shared:
    """What calls may have in common."""

    def __init__(self) -> None:
        from v8serialize import Decoder, Encoder, TagReader
        from v8serialize.encode import TagWriter, serialize_object_references

        self.encoder = Encoder(features=all_features())
        self.decoder = Decoder()
        self.reader = TagReader()
        self.writer = TagWriter()
        self.references = serialize_object_references


# Calls are described by (kind, argument, how, fail), where fail is None or the
# number of steps after which it fails.


def encode_call(call: tuple, shared: Shared, during: Callable[[], None] | None) -> tuple:
    from v8serialize import dumps
    from v8serialize.encode import Encoder, TagWriter, default_encode_steps, serialize_object_references

    _, spec, how, fail = call
    value = gens.Build(spec).value
    count = [0]

    def step(v: object, /, ctx: Any, next: Any) -> None:
        count[0] += 1
        if during is not None:
            during()
        if fail is not None and count[0] > fail[0]:
            raise (StopBase if fail[1] else Stop)()
        next(v)

    stepped = fail is not None or during is not None
    own = [serialize_object_references, TagWriter()]
    common = [shared.references, shared.writer]
    steps = [own, common, list(default_encode_steps)][how % 3]
    if how >= 6 and not stepped:
        data = bytes(shared.encoder.encode(value))
    elif how >= 3:
        data = bytes(Encoder(encode_steps=[step, *steps], features=all_features()).encode(value))
    else:
        data = dumps(value, encode_steps=[step, *steps] if stepped else steps, features=all_features())
    return ("bytes", data)


def decode_call(call: tuple, shared: Shared, during: Callable[[], None] | None) -> tuple:
    from v8serialize import Decoder, TagReader, loads
    from v8serialize.decode import default_decode_steps
    from v8serialize.jstypes import JSMap, JSObject

    kind, data, how, fail = call
    count = [0]

    def tick() -> None:
        count[0] += 1
        if during is not None:
            during()
        if fail is not None and count[0] > fail[0]:
            raise (StopBase if fail[1] else Stop)()

    def step(tag: Any, /, ctx: Any, next: Any) -> object:
        tick()
        return next(tag)

    def make_map() -> Any:
        tick()
        return JSMap()

    def make_object() -> Any:
        tick()
        return JSObject()

    stepped = fail is not None or during is not None
    if how >= 6 and not stepped:
        out = shared.decoder.decodes(data)
    elif how == 5 and stepped:
        out = loads(data, nodejs=False, jsmap_type=make_map, js_object_type=make_object)
    else:
        steps = [[TagReader()], [shared.reader], list(default_decode_steps)][how % 3]
        if stepped:
            steps = [step, *steps]
        out = Decoder(decode_steps=steps).decodes(data) if how >= 3 else loads(data, decode_steps=steps)
    return ("graph", describe(out))


def call_alone(call: tuple, shared: Shared, during: Callable[[], None] | None = None) -> tuple:
    kind, arg, how, _ = call
    try:
        if kind == "dump":
            return encode_call(call, shared, during)
        if kind == "load":
            return decode_call(call, shared, during)
        if kind == "unhandled":
            # Something in the value can't be serialized
            from v8serialize import dumps

            value = gens.Build(arg).value
            return ("bytes", dumps([value, {"k": value, "bad": object()}, value], features=all_features()))
        if during is not None:
            during()
        if kind == "repr":
            b = gens.Build(arg)
            text = repr(b.value)
            if how % 2:  # printing that's interrupted comes between
                interrupt_printing(b)
                again = repr(b.value)
                check(again == text, lambda: f"printed after printing was interrupted: {again[:500]}, before: {text[:500]}")
            return ("text", text)
        if kind == "eq":
            a, b = gens.Build(arg[0]).value, gens.Build(arg[1]).value
            if how % 2:  # as operands of one that fails, at the end
                try:
                    from v8serialize.jstypes import JSArray

                    _ = JSArray([a, Bad()]) == JSArray([b, Bad()])
                except Stop:
                    pass
            return ("eq", a == b)
        raise AssertionError(kind)
    except (Stop, StopBase) as e:
        return ("stopped", type(e).__name__)
    except RecursionError:
        # The comparison of some cyclic Python lists is
        return ("recursion",)
    except Exception as e:
        return error(e)


class Interrupting:
    def __repr__(self) -> str:
        raise StopBase


def interrupt_printing(b: gens.Build) -> None:
    """Print the value, interrupted somewhere in it."""
    from v8serialize.jstypes import JSMap, JSObject

    for i in sorted(b.reachable()):
        o = b.objects[i]
        if not isinstance(o, (JSObject, JSMap)) or "interrupted" in o:
            continue
        o["interrupted"] = Interrupting()
        try:
            repr(b.value)
        except StopBase:
            pass
        finally:
            del o["interrupted"]


class Bad:
    __hash__ = None  # type: ignore[assignment]

    def __eq__(self, other: object) -> bool:
        raise Stop

    def __repr__(self) -> str:
        raise Stop


def same(a: tuple, b: tuple, noid: Any = ()) -> str | None:
    if a[0] != b[0]:
        return f"{a} and {b}"
    if a[0] == "graph":
        return compare(a[1], b[1])
    return None if a == b else f"{a} and {b}"


def resolve(call: tuple) -> tuple:
    """With the bytes to load."""
    kind, arg, how, fail = call
    if kind == "load":
        v, es = arg
        data = bytesgen.make(v)
        return (kind, bytesgen.apply_edits(data, es) if es else data, how, fail)
    return call


def baseline(calls: tuple, s: Stats) -> tuple[list, list, Shared]:
    """The calls, and what each gives alone."""
    calls = [resolve(c) for c in calls]
    shared = Shared()
    alone = [call_alone(c, shared, (lambda: None) if c[0] in ("dump", "load") else None) for c in calls]
    for c, r in zip(calls, alone):
        s.label(c[0] if r[0] not in ("error", "stopped") else c[0] + " fails")
        if c[0] == "dump" and r[0] == "bytes":
            # As every call before in this process must not have mattered
            b = gens.Build(c[1])
            from v8serialize import loads

            why = compare(b.expected("py"), describe_or_fail(loads(r[1])), noid=b.noid())
            if why and not has_known(c[1]):
                violated(f"the serialized value is another one: {why}")
    good = any(r[0] == "bytes" and len(gens.Build(c[1]).reachable()) > 1 for c, r in zip(calls, alone)) or any(r[0] == "graph" and len(r[1]["nodes"]) > 1 for r in alone)
    s.nontrivial(good and len(set(map(repr, calls))) > 1)
    return calls, alone, shared


def has_known(spec: tuple) -> bool:
    """Whether C01's known finding may apply, which isn't of interest here."""
    from vk.common import has_equal_immutable_keys

    return has_equal_immutable_keys(gens.Build(spec).expected("py"))


# ----------------------------------------------------------------- history


def run_history(case: tuple, s: Stats) -> None:
    specs, order = case
    calls, alone, shared = baseline(specs, s)
    for k, i in enumerate(order):
        i %= len(calls)
        stepped = k % 3 == 0 and calls[i][0] in ("dump", "load")
        got = call_alone(calls[i], shared, (lambda: None) if stepped else None)
        why = same(alone[i], got)
        check(why is None, lambda: f"call {i} gives something else after {[x % len(calls) for x in order[:k]]}: {why}")


def pristine_call(call: tuple) -> tuple:
    return call_alone(call, Shared())


def run_pristine(case: tuple, s: Stats) -> None:
    """What a process gives that has made other calls, and one that hasn't."""
    specs, order = case
    shared = Shared()
    calls = [resolve(c) for c in specs]
    exp = [pristine.call("vk.checks.c22", "pristine_call", c) for c in calls]
    s.nontrivial(len(set(map(repr, calls))) > 1 and sum(r[0] not in ("error", "stopped") for r in exp) > 1)
    for k, i in enumerate(order):
        i %= len(calls)
        s.label(calls[i][0])
        got = call_alone(calls[i], shared)
        why = same(exp[i], got)
        check(why is None, lambda: f"call {i} gives something else after {[x % len(calls) for x in order[:k]]} than alone: {why}")


def run_nested(case: tuple, s: Stats) -> None:
    """Calls made from inside each other's steps."""
    specs, when, depth = case
    calls, alone, shared = baseline(specs, s)
    at = [0]
    made = [0]

    def nest(level: int) -> Callable[[], None] | None:
        def during() -> None:
            at[0] += 1
            if level >= depth or made[0] > 12 or at[0] % when[0]:
                return
            made[0] += 1
            i = when[made[0] % len(when)] % len(calls)
            got = call_alone(calls[i], shared, nest(level + 1))
            why = same(alone[i], got)
            if why is not None:
                problems.append(f"call {i}, made inside another, gives something else: {why}")

        return during

    problems: list[str] = []
    for i, c in enumerate(calls):
        made[0] = 0
        got = call_alone(c, shared, nest(0))
        check(not problems, lambda: problems[0])
        why = same(alone[i], got)
        check(why is None, lambda: f"call {i} gives something else with calls inside: {why}")
    s.label(f"nested {min(made[0], 5)}")


# ----------------------------------------------------------------- threads


class Turns:
    """Threads that take turns, as a schedule has it."""

    def __init__(self, n: int, schedule: tuple) -> None:
        self.lock = threading.Condition()
        self.alive = list(range(n))
        self.current = 0
        self.schedule = schedule
        self.at = 0
        self.left = schedule[0]
        self.free = False
        self.switches = 0

    def begin(self, me: int) -> None:
        with self.lock:
            self._wait(me)

    def _wait(self, me: int) -> None:
        while self.current != me and not self.free:
            if not self.lock.wait(2):
                # The other thread waits for something that isn't a turn
                self.free = True
                self.lock.notify_all()

    def _next(self) -> None:
        self.at += 1
        x = self.schedule[self.at % len(self.schedule)]
        self.left = x
        if self.alive:
            others = [i for i in self.alive if i != self.current] or self.alive
            self.current = others[(self.at + x) % len(others)]
        self.switches += 1
        self.lock.notify_all()

    def step(self, me: int) -> None:
        if self.free or me != self.current:
            return
        self.left -= 1
        if self.left > 0:
            return
        with self.lock:
            self._next()
            self._wait(me)

    def end(self, me: int) -> None:
        with self.lock:
            self.alive.remove(me)
            if self.current == me:
                self._next()
            self.lock.notify_all()


def run_threads(case: tuple, s: Stats) -> None:
    specs, programs, schedule, lines = case
    calls, alone, shared = baseline(specs, s)
    programs = [[i % len(calls) for i in p] for p in programs]
    turns = Turns(len(programs), schedule)
    problems: list[str] = []

    def body(me: int) -> None:
        def tracer(frame: Any, event: str, arg: Any) -> Any:
            if LIBRARY not in frame.f_code.co_filename:
                return None
            return on_line

        def on_line(frame: Any, event: str, arg: Any) -> Any:
            if event == "line":
                turns.step(me)
            return on_line

        turns.begin(me)
        try:
            for i in programs[me]:
                if lines:
                    sys.settrace(tracer)
                try:
                    got = call_alone(calls[i], shared, None if lines else lambda: turns.step(me))
                finally:
                    sys.settrace(None)
                why = same(alone[i], got)
                if why is not None:
                    problems.append(f"call {i} gives something else with threads {programs}: {why}")
        except BaseException as e:
            problems.append(f"thread {me} failed: {type(e).__name__}: {e}")
        finally:
            turns.end(me)

    threads = [threading.Thread(target=body, args=(i,)) for i in range(len(programs))]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    s.label("lines" if lines else "steps", "free" if turns.free else "", f"switches {min(turns.switches // 5 * 5, 50)}")
    check(not problems, lambda: problems[0])


def run_same_value(case: tuple, s: Stats) -> None:
    """One value, in several threads at once."""
    from v8serialize import dumps

    spec, schedule, kinds = case
    value = gens.Build(spec).value
    other = gens.Build(spec).value
    s.nontrivial(len(gens.Build(spec).reachable()) > 1)

    def job(kind: int) -> Any:
        try:
            if kind == 0:
                return dumps(value, features=all_features())
            if kind == 1:
                return repr(value)
            return value == other
        except RecursionError:
            return None

    alone = [job(k) for k in range(3)]
    turns = Turns(len(kinds), schedule)
    problems: list[str] = []

    def body(me: int) -> None:
        def tracer(frame: Any, event: str, arg: Any) -> Any:
            return on_line if LIBRARY in frame.f_code.co_filename else None

        def on_line(frame: Any, event: str, arg: Any) -> Any:
            if event == "line":
                turns.step(me)
            return on_line

        turns.begin(me)
        try:
            sys.settrace(tracer)
            try:
                got = job(kinds[me])
            finally:
                sys.settrace(None)
            if got != alone[kinds[me]]:
                problems.append(f"{['serializing', 'repr()', '=='][kinds[me]]} gives {got!r}, not {alone[kinds[me]]!r}, with {kinds} at once")
        except BaseException as e:
            problems.append(f"thread {me} failed: {type(e).__name__}: {e}")
        finally:
            turns.end(me)

    threads = [threading.Thread(target=body, args=(i,)) for i in range(len(kinds))]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    check(not problems, lambda: problems[0])


# ---------------------------------------------------------------- aliasing


def mutate(root: object) -> int:
    """Change everything reachable that can be changed."""
    from v8serialize.jstypes import JSArray, JSArrayBuffer, JSError, JSMap, JSObject, JSSet
    from v8serialize.jstypes.jsbuffers import JSArrayBufferView

    seen: dict[int, object] = {}
    todo = [root]
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen[id(o)] = o
        if isinstance(o, (JSObject, JSMap)):
            todo += list(o.keys()) + list(o.values())
        elif isinstance(o, JSSet):
            todo += list(o)
        elif isinstance(o, JSError):
            todo.append(o.cause)
        elif isinstance(o, JSArrayBufferView):
            todo.append(o.backing_buffer)
    n = 0
    for o in seen.values():
        if isinstance(o, JSArray):
            if len(o.array) < 1000:
                o.array.append("changed")
            o["changed"] = 1
            o[0] = "changed"
        elif isinstance(o, JSObject):
            for k in list(o):
                o[k] = "changed"
            o["changed"] = 1
        elif isinstance(o, JSMap):
            for k in list(o):
                o[k] = "changed"
            o["changed"] = 1
        elif isinstance(o, JSSet):
            o.clear()
            o.add("changed")
        elif isinstance(o, JSError):
            o.message = "changed"
            o.cause = "changed"
        elif isinstance(o, JSArrayBuffer):
            try:
                with memoryview(o.data) as m:
                    m[:] = bytes(255 - x for x in m)
            except TypeError:
                continue  # it's read-only
        else:
            continue
        n += 1
    return n


def run_aliasing(case: tuple, s: Stats) -> None:
    from v8serialize import Decoder, TagReader, loads
    from v8serialize.encode import Encoder, TagWriter, serialize_object_references
    from v8serialize.extensions import NodeJsArrayBufferViewHostObjectHandler as Handler
    from v8serialize.extensions import serialize_js_array_buffer_views_as_nodejs_host_object as views

    spec, host, kind, shared = case
    value = gens.Build(spec).value
    steps = [serialize_object_references, *([views] if host else []), TagWriter()]
    encoder = Encoder(encode_steps=steps, features=all_features())
    first = encoder.encode(value)
    data = bytes(first)
    first[:] = bytes(len(first))
    first.clear()
    second = encoder.encode(value)
    check(bytes(second) == data, "changing what encode() returned changes what it returns next")
    mutable = bytearray(data)
    inp = {"bytearray": mutable, "memoryview": memoryview(mutable), "readonly": memoryview(mutable).toreadonly(), "slice": memoryview(mutable)[:]}[kind]
    decoder = Decoder(decode_steps=[TagReader(host_object_deserializer=Handler())])
    load = decoder.decodes if shared else loads
    out = load(inp)
    before = describe(out)
    # The input no longer matters
    mutable[:] = bytes(255 - x for x in mutable)
    check_same(before, describe(out), "the value, after its input has changed,")
    mutable[:] = data
    twin = load(inp)
    check_same(before, describe(twin), "the value decoded again")
    n = mutate(out)
    s.nontrivial(n > 0)
    s.label(kind, "host objects" if host else "plain")
    check_same(before, describe(twin), "the value, after another decoded from the same input has changed,")
    check(bytes(mutable) == data, "changing the decoded value changes the input")
    check_same(before, describe(load(inp)), "the value decoded after another has changed")
    # And none of it matters to what was serialized
    check(bytes(encoder.encode(value)) == data, "changing decoded values changes what is serialized")
    n = mutate_value(value)
    check(bytes(second) == data, "changing a value changes what was serialized before")


def mutate_value(value: object) -> int:
    """As mutate(), also for Python's containers at the top."""
    if isinstance(value, (bytearray, list)):
        value *= 2
        value.clear()
    elif isinstance(value, (dict, set)):
        value.clear()
    return mutate(value)


def run_readers(case: tuple, s: Stats) -> None:
    """Changes to one TagReader don't matter to another."""
    from v8serialize import Decoder, TagReader, loads
    from v8serialize.constants import JS_CONSTANT_TAGS
    from v8serialize.constants import SerializationTag as T
    from v8serialize.decode import TagReaderRegistry

    v, tags, how = case
    data = bytesgen.make(v)
    before = describe_or_fail(loads(data))
    s.nontrivial(len(before["nodes"]) > 1)
    chosen = [list(T)[t % len(T)] for t in tags]
    registry = TagReaderRegistry()
    for t in chosen:
        registry.register(t, lambda r, tag, ctx: Stop)
    if how == 0:
        TagReader(tag_readers=registry)
    elif how == 1:
        TagReader().tag_readers.register_all(registry)
    elif how == 2:
        r = TagReader()
        for t in chosen:
            r.tag_readers.register(t, lambda r, tag, ctx: Stop)
    elif how == 3:
        constants = TagReader().js_constants
        constants.update({t: Stop for t in constants})  # type: ignore[attr-defined]
    else:
        # What is passed isn't changed, and can be changed afterwards
        kept: dict = {T.kNull: "null"} if tags[0] % 2 else {}
        options: dict = dict(kept)
        steps: list = [TagReader(js_constants=options)]
        decoder = Decoder(steps)
        loads(data, js_constants=options)
        first = describe_or_fail(decoder.decodes(data))
        check(options == kept, lambda: f"the js_constants passed became {options}")
        check(len(steps) == 1, lambda: f"the steps passed became {steps}")
        reader = steps[0]
        options.update({t: Stop for t in JS_CONSTANT_TAGS.allowed_tags})
        for what, got in (
            ("TagReader", loads(data, decode_steps=[reader])),
            ("Decoder", decoder.decodes(data)),
        ):
            check_same(first, describe_or_fail(got), f"a {what}, after the dict that it was given has changed,")
        steps.clear()
        check_same(first, describe_or_fail(decoder.decodes(data)), "a Decoder, after the list that it was given has changed,")
    check_same(before, describe_or_fail(loads(data)), "the value, after another TagReader has changed,")
    check_same(before, describe_or_fail(loads(data, decode_steps=[TagReader()])), "the value, after another TagReader has changed,")


# ----------------------------------------------------------------- cases

KINDS = ["obj", "arr", "map", "set", "dict", "list", "tuple", "date", "re", "err", "exc", "prim", "bigprim", "bytes", "bytearray", "ab", "view", "sarr"]
small = st.plain(gens.specs(KINDS, max_nodes=6, fan=3))
# Values that are equal or look the same, but aren't
alike = st.sampled_from([("i", 1), ("f", 1.0), ("b", True), ("i", 0), ("f", 0.0), ("f", -0.0), ("b", False), ("s", "1"), ("s", ""), ("n",)])
alike_nodes = st.one_of(
    st.lists(alike, min_size=1, max_size=2).map(lambda vs: ("tuple", tuple(vs))),
    st.lists(alike, min_size=1, max_size=2).map(lambda vs: ("tuple", (*vs, ("r", 1)))),
    st.tuples(st.just("prim"), alike.filter(lambda v: v[0] != "n")),
    st.tuples(st.just("bigprim"), st.integers(0, 1)),
    st.tuples(st.just("date"), st.integers(0, 1), st.integers(0, 3)),
    st.tuples(st.just("re"), st.just("a"), st.sampled_from(["", "g", "i"])),
    st.tuples(st.just("pat"), st.just("a"), st.sampled_from([0, 2])),
    st.tuples(st.just("bytes"), st.sampled_from([b"", b"1"])),
    st.tuples(st.just("ab"), st.sampled_from([b"", b"1"]), st.none(), st.booleans()),
)
alike_values = st.builds(
    lambda kind, nodes, vs: (("r", 0), ((kind, *([0] if kind == "list" else []), tuple([("r", i + 1) for i in range(len(nodes))] + vs)), *nodes)),
    st.sampled_from(["list", "tuple"]),
    st.lists(alike_nodes, min_size=1, max_size=5),
    st.lists(alike, max_size=3),
)
twins = st.one_of(
    alike_values,
    alike_values,
    st.builds(lambda kind, v: (("r", 0), ((kind, (v,)),)), st.sampled_from(["tuple", "fset"]), alike),
    alike.map(lambda v: (v, ())),
)
fail = st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 12), st.booleans()))
how = st.integers(0, 8)
t = st.tuples
dump = t(st.just("dump"), st.one_of(small, small, small, twins), how, fail)
load = t(st.just("load"), t(st.plain(bytesgen.valid), st.one_of(st.just(()), st.just(()), bytesgen.edits)), how, fail)
call = st.one_of(
    dump,
    dump,
    load,
    load,
    t(st.just("unhandled"), small, how, st.none()),
    t(st.just("repr"), small, how, st.none()),
    t(st.just("eq"), st.one_of(small.map(lambda x: (x, x)), t(small, small)), how, st.none()),
)
calls = st.lists(call, min_size=2, max_size=5).map(tuple)
schedules = st.lists(st.one_of(st.integers(1, 2), st.integers(1, 6)), min_size=1, max_size=10).map(tuple)
long_schedules = st.lists(st.one_of(st.integers(3, 40), st.integers(20, 400)), min_size=1, max_size=10).map(tuple)
programs = st.lists(st.lists(st.integers(0, 5), min_size=1, max_size=4).map(tuple), min_size=2, max_size=3).map(tuple)

CASES = [
    Case("history", run_history, lambda: t(calls, st.lists(st.integers(0, 5), min_size=2, max_size=10).map(tuple)), quick=2500, thorough=60000),
    Case("pristine", run_pristine, lambda: t(st.lists(st.one_of(call, t(st.just("dump"), twins, how, st.none())), min_size=2, max_size=6).map(tuple), st.lists(st.integers(0, 5), min_size=2, max_size=10).map(tuple)), quick=1500, thorough=40000),
    Case("nested", run_nested, lambda: t(calls, st.lists(st.integers(1, 6), min_size=1, max_size=6).map(tuple), st.integers(1, 3)), quick=1500, thorough=60000),
    Case("threads-steps", run_threads, lambda: t(calls, programs, schedules, st.just(False)), quick=1500, thorough=50000),
    Case("threads-lines", run_threads, lambda: t(calls, programs, long_schedules, st.just(True)), quick=700, thorough=30000),
    Case("same-value", run_same_value, lambda: t(small, long_schedules, st.lists(st.integers(0, 2), min_size=2, max_size=3).map(tuple)), quick=800, thorough=30000),
    Case("aliasing", run_aliasing, lambda: t(js_graphs(kinds=[*KINDS, "ab", "view", "view"]), st.booleans(), st.sampled_from(["bytearray", "memoryview", "readonly", "slice"]), st.booleans()), quick=3000, thorough=80000),
    Case("readers", run_readers, lambda: t(bytesgen.valid, st.lists(st.integers(0, 60), min_size=1, max_size=4).map(tuple), st.integers(0, 4)), quick=2000, thorough=20000),
]
assert choice_lists
