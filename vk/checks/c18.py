"""C18: errors keep name, message, stack and cause across the boundary."""

from __future__ import annotations

import traceback
from typing import Any

from vk import gens, refcodec, st
from vk.bytesgen import choice_lists, chooser
from vk.common import (
    all_features,
    check_same,
    concrete,
    describe_or_fail,
    feature_set,
    graph_noid,
    has_equal_immutable_keys,
    no_float16,
    v8_has_f16,
)
from vk.core import Case, HarnessError, Stats, check, violated
from vk.graph import describe, js_to_py, utf16
from vk.node import v8_deserialize, v8_serialize

RULE = (
    "Generated values rich in errors (each kind, absent fields, causes of every type, shared and "
    "cyclic) are written, read by an independent reader, by V8 and by the library with each "
    "builder; written by an independent writer in the field orders of both older and newer V8, "
    "and by V8, and read; and Python exceptions that were really raised (with causes, contexts, "
    "groups, notes) are converted and serialized. Non-trivial: an error with a cause, a stack, "
    "an absent field, or an exception with another one linked."
)
ASSUMPTIONS = [
    "Only the two orders of fields that versions of V8 write are understood.",
    "The stack text of an exception is compared exactly for its header and frames (as traceback "
    "extracts them); contexts and group members by their presence, order and label.",
    "JSError, which has a message always, stands for an absent message as an empty one.",
]

NAMES = {  # name: how JavaScript calls it
    "Error": "Error",
    "EvalError": "EvalError",
    "RangeError": "RangeError",
    "ReferenceError": "ReferenceError",
    "SyntaxError": "SyntaxError",
    "TypeError": "TypeError",
    "UriError": "URIError",
}
TAGS = {"EvalError": "E", "RangeError": "R", "ReferenceError": "F", "SyntaxError": "S", "TypeError": "T", "UriError": "U"}
KINDS = ["err", "err", "err", "err", "obj", "arr", "map", "set", "date", "re", "prim", "ab", "view", "list", "exc"]


def error_specs(**kw: Any) -> Any:
    kw.setdefault("sources", st.sampled_from(gens.JS_SAFE_SOURCES))
    return gens.specs(kw.pop("kinds", KINDS), **kw)


def interesting(graph: dict) -> bool:
    return any(n[0] == "err" and (n[4] is not None or n[3] is not None or n[2] is None) for n in graph["nodes"])




# ----------------------------------------------------- written by the library


def restyle(b: gens.Build, style: tuple) -> None:
    """Set what's in the errors in another way, which mustn't matter."""
    from v8serialize.constants import JSErrorName

    k = 0
    for i, o in enumerate(b.objects):
        if b.nodes[i][0] != "err":
            continue
        how = style[k % len(style)]
        k += 1
        if how & 1 and o.name in NAMES:
            o.name = JSErrorName(o.name)
        if how & 2:
            o.message, o.stack = o.message, o.stack
        if how & 4 and b.nodes[i][1] == "E":
            o.args = ("something else", 3)


def run_js(case: tuple, s: Stats) -> None:
    from v8serialize import dumps, loads
    from v8serialize import IllegalCyclicReferenceV8SerializeError as Illegal
    from v8serialize.jstypes import JSError, JSErrorData

    spec, style = case
    if not v8_has_f16():
        spec = no_float16(spec)
    b = gens.Build(spec)
    restyle(b, style)
    exp = b.expected("js")
    s.nontrivial(interesting(exp))
    cyclic = b.has_cyclic_cause()
    if cyclic:
        s.label("cyclic cause")
    for n in exp["nodes"]:
        if n[0] == "err":
            s.label(f"{n[1]} {'m' if n[2] is not None else ''}{'s' if n[3] not in (None, '*') else ''}{'c' if n[4] is not None else ''}")
    if any(n[0] == "map" for n in exp["nodes"]) and has_equal_immutable_keys(exp):
        return  # See map-equal-immutable-keys in KNOWN_FINDINGS.txt
    data = dumps(b.value, features=all_features())
    noid = b.noid()

    # What's written
    graph, reader = refcodec.parse(data)
    wire = {"root": exp["root"], "nodes": [wire_node(b, i, n) for i, n in enumerate(exp["nodes"])]}
    check_same(wire, graph, "what an independent reader finds", noid=noid)
    # What V8 sees
    reply = v8_deserialize(data)
    check("error" not in reply, lambda: f"V8 can't read it: {reply}")
    check_same(exp, reply["graph"], "what V8 sees", noid=noid)
    # What the library reads, with either class
    py = b.expected("py")
    got = loads(data)
    check_same(py, describe_or_fail(got), "the decoded value", noid=noid)
    check_classes(got, JSError)
    plain = loads(data, js_error_builder=JSErrorData.builder)
    exact = {"root": py["root"], "nodes": [n if n[0] != "err" else with_message(b, i, n) for i, n in enumerate(py["nodes"])]}
    check_same(exact, describe_or_fail(plain), "the value decoded with JSErrorData", noid=noid)
    check_classes(plain, JSErrorData)
    # Without cyclic causes
    less = feature_set(["RegExpUnicodeSets", "ResizableArrayBuffers", "Float16Array"])
    try:
        other = dumps(b.value, features=less)
    except Illegal:
        check(cyclic, "a value without a cyclic cause is refused without CircularErrorCause")
    else:
        check(not cyclic, "an error that is part of its cause is written without CircularErrorCause")
        check(other == data, lambda: f"CircularErrorCause changes what is written: {other.hex()} {data.hex()}")


def wire_node(b: gens.Build, i: int, n: list) -> list:
    """A node of the expected graph with its absent fields, as in the format."""
    if n[0] != "err":
        return n
    n = with_message(b, i, n)
    if i < len(b.nodes) and b.nodes[i][0] == "err":
        stack = b.nodes[i][4]
        n = [*n[:3], None if stack is None else utf16(stack), n[4]]
    return [n[0], "URIError" if n[1] == "UriError" else n[1], *n[2:]]


def with_message(b: gens.Build, i: int, n: list) -> list:
    spec = b.nodes[i] if i < len(b.nodes) else ("exc",)  # or the cause of one
    if spec[0] != "err":
        return n
    msg = spec[3]
    if msg is None and spec[1] == "E":
        msg = ""
    return ["err", n[1], None if msg is None else utf16(msg), *n[3:]]


def check_classes(value: object, cls: type) -> None:
    """All errors that can be reached are instances of the class."""
    from v8serialize.jstypes import JSError, JSErrorData, JSMap, JSObject, JSSet

    todo, seen = [value], set()
    while todo:
        v = todo.pop()
        if id(v) in seen:
            continue
        seen.add(id(v))
        if isinstance(v, (JSError, JSErrorData)):
            check(type(v) is cls, lambda: f"an error is decoded as {type(v)}, not {cls}")
            check(isinstance(v.name, str), "a name isn't a string")
            todo.append(v.cause)
        elif isinstance(v, JSMap):
            todo.extend(v.keys())
            todo.extend(v.values())
        elif isinstance(v, JSObject):
            todo.extend(v.values())
        elif isinstance(v, JSSet):
            todo.extend(v)


# --------------------------------------------------------- written by others


def run_orders(case: tuple, s: Stats) -> None:
    from v8serialize import loads
    from v8serialize.jstypes import JSErrorData

    spec, style, choices, version = case
    if not v8_has_f16():
        spec = no_float16(spec)
    b = gens.Build(spec)
    exp = b.expected("js")
    graph = {"root": exp["root"], "nodes": [wire_node(b, i, n) for i, n in enumerate(exp["nodes"])]}
    graph = concrete(graph)
    if version == 13 and any(n[0] == "ab" and n[2] is not None for n in graph["nodes"]):
        version = 14  # Older ones have no resizable buffers
    w = refcodec.Writer(graph, chooser(choices), version)
    data = bytes(w.write())
    s.nontrivial(interesting(graph))
    s.label(*(f for f in w.features if "order" in f))
    check_same(read_as(graph, False), describe_or_fail(loads(data)), "the decoded value")
    got = loads(data, js_error_builder=JSErrorData.builder)
    check_same(read_as(graph, True), describe_or_fail(got), "the value decoded with JSErrorData")


def read_as(graph: dict, absent: bool) -> dict:
    """What a graph of JavaScript values is read as.

    absent: whether errors can lack a message.
    """
    out = js_to_py(graph)
    if absent:
        for n, m in zip(graph["nodes"], out["nodes"]):
            if n[0] == "err":
                m[2] = None if n[2] is None else utf16(n[2])
    return out


def run_builders(case: tuple, s: Stats) -> None:
    """A builder sees the fields, and its objects are what references mean."""
    from v8serialize import loads
    from v8serialize.jstypes import JSErrorData

    (name, msg, stack, cause), order, wide = case
    nodes = [["err", NAMES[name], msg and utf16(msg), stack and utf16(stack), None], ["obj", []]]
    if msg == "":
        nodes[0][2] = ""
    if stack == "":
        nodes[0][3] = ""
    if cause == "self":
        nodes[0][4] = ["r", 0]
    elif cause == "shared":
        nodes[0][4] = ["r", 1]
    elif cause == "value":
        nodes[0][4] = ["d", "3ff8000000000000"]
    elif cause == "null":
        nodes[0][4] = ["n"]
    elif cause == "holder":
        nodes[1][1].append(["e", ["r", 0]])
        nodes[0][4] = ["r", 1]
    graph = {"root": ["r", 2], "nodes": [*nodes, ["arr", 2, [[0, ["r", 0]], [1, ["r", 0]]], []]]}
    data = bytes(refcodec.Writer(graph, chooser(tuple([order] if not wide else [order, 1, order])), 15).write())
    seen: list = []
    made: list = []

    class Mine:
        pass

    def builder(initial: Any) -> tuple:
        seen.append((str(initial.name), initial.message))
        mine = Mine()
        fields = JSErrorData(initial.message, name=initial.name, stack=initial.stack, cause=initial.cause)
        made.append((mine, fields))
        return mine, fields

    out = loads(data, js_error_builder=builder)
    s.nontrivial(cause is not None or stack is not None)
    s.label(f"cause {cause}")
    check(len(made) == 1, f"the builder is called {len(made)} times for an error")
    mine, fields = made[0]
    check(seen == [(name, None if msg is None else utf16(msg))], lambda: f"the builder is given {seen}, expected {name!r} {msg!r}")
    check(out[0] is mine and out[1] is mine, "what the builder returns isn't what takes the error's place")
    check((fields.name, fields.message, fields.stack) == (name, msg, stack), lambda: f"fields are {fields!r}")
    if cause == "self":
        check(fields.cause is mine, "an error's reference to itself isn't the object of the builder")
    elif cause == "holder":
        check(fields.cause["e"] is mine, "a cause's reference to the error isn't the object of the builder")
    elif cause == "value":
        check(fields.cause == 1.5, lambda: f"the cause is {fields.cause!r}")
    elif cause == "shared":
        check(type(fields.cause).__name__ == "JSObject", lambda: f"the cause is {fields.cause!r}")
    else:
        check(fields.cause is None, lambda: f"the cause is {fields.cause!r}")


def run_v8(case: tuple, s: Stats) -> None:
    from v8serialize import loads
    from v8serialize.jstypes import JSErrorData

    spec, style = case
    if not v8_has_f16():
        spec = no_float16(spec)
    b = gens.Build(spec)
    g = concrete(b.expected("js"))
    # Fields that aren't there
    k = 0
    for i, n in enumerate(g["nodes"]):
        if n[0] == "err":
            how = style[k % len(style)]
            k += 1
            if how & 1:
                n[2] = None
            if how & 2:
                n[3] = None
    reply = v8_serialize(g)
    if "error" in reply:
        raise HarnessError(f"V8 can't make the value: {reply} {g}")
    data, saw = bytes.fromhex(reply["data"]), reply["graph"]
    s.nontrivial(interesting(saw))
    check_same(read_as(saw, False), describe_or_fail(loads(data)), "the decoded value")
    got = loads(data, js_error_builder=JSErrorData.builder)
    check_same(read_as(saw, True), describe_or_fail(got), "the value decoded with JSErrorData")
    # And back again
    from v8serialize import dumps

    again = v8_deserialize(dumps(got, features=all_features()))
    check("error" not in again, lambda: f"V8 can't read what it wrote when written again: {again}")
    check_same(saw_again(saw), again["graph"], "what V8 sees after a round trip", noid=graph_noid(saw))


def saw_again(graph: dict) -> dict:
    """Wrapper objects are unwrapped and BigInts may become numbers."""
    out = []
    for n in graph["nodes"]:
        if n[0] == "err" and n[3] is None:
            n = [*n[:3], "*", n[4]]
        if n[0] == "err" and n[4] == ["n"]:
            n = [*n[:4], None]
        out.append(n)
    return {"root": graph["root"], "nodes": out}


# -------------------------------------------------------------- the name table


def run_names(name: Any, s: Stats) -> None:
    from v8serialize import dumps, loads
    from v8serialize.constants import JSErrorName, SerializationErrorTag
    from v8serialize.jstypes import JSErrorData

    exp = name if name in NAMES else "Error"
    s.nontrivial(name != "Error")
    got = JSErrorName.for_error_name(name)
    data = dumps(JSErrorData("m", name=name))
    back = loads(data)
    if name == "URIError" and s.is_known("uri-error-name"):
        return
    if name == "URIError":
        exp = "URIError"
    check(str(got.value) == exp and isinstance(got, JSErrorName), lambda: f"{name!r} is said to become {got!r}")
    check(back.name == exp, lambda: f"{name!r} comes back as {back.name!r}")
    tag = got.error_tag
    check((None if tag is None else chr(tag)) == TAGS.get(exp), lambda: f"{name!r} has the tag {tag!r}")
    if tag is not None:
        check(JSErrorName.for_error_tag(tag) is got, lambda: f"{tag!r} doesn't mean {got!r}")
    for t in SerializationErrorTag:
        if chr(t) not in TAGS.values():
            check(JSErrorName.for_error_tag(t) is JSErrorName.Error, lambda: f"{t!r} has an error name")
    js = v8_deserialize(data)
    check(js.get("graph", {}).get("nodes", [[0, 0]])[0][1] == NAMES[exp], lambda: f"{name!r} is seen by V8 as {js}")


def probe_uri_error() -> bool:
    from v8serialize import dumps, loads
    from v8serialize.jstypes import JSErrorData

    written = dumps(JSErrorData("m", name="URIError"))
    read = loads(bytes.fromhex("ff0f72556d2201612e"))
    return b"rU" not in written and read.name == "UriError"


# ----------------------------------------------------------- Python exceptions


class Odd(Exception):
    def __str__(self) -> str:
        raise RuntimeError("no")


class Lines(Exception):
    def __str__(self) -> str:
        return "one\ntwo  \n\nthree\n"


class Named(Exception):
    pass


class OddSyntax(SyntaxError):
    pass


Named.__qualname__ = "Outer.Named☃"


def make(kind: str, text: str, children: list) -> BaseException:
    from v8serialize.jstypes import JSError

    if kind == "Odd":
        return Odd(text)
    if kind == "Lines":
        return Lines()
    if kind == "Named":
        return Named(text, 1)
    if kind == "syntax":
        cls = (SyntaxError, IndentationError, OddSyntax)[len(text) % 3]
        return cls("bad", ("f.py", 3, 2, text + "\n", 3, 4))
    if kind == "key":
        return KeyError(text)
    if kind == "empty":
        return ValueError()
    if kind == "js":
        return JSError(text, name="TypeError", stack="s", cause=None)
    if kind == "exit":
        return SystemExit(3)
    if kind == "unicode":
        return UnicodeDecodeError("utf-8", b"\xff", 0, 1, text)
    if kind == "name":
        return NameError(text, name="pritn")
    if kind == "group":
        return BaseExceptionGroup(text, [c if isinstance(c, BaseException) else ValueError() for c in children] or [ValueError("x")])
    return ValueError(text)


def thrower(e: BaseException, cause: Any, depth: int) -> None:
    if depth > 0:
        thrower(e, cause, depth - 1)
    if cause is False:
        raise e from None
    if cause is not None:
        raise e from cause
    raise e


def throw_at(e: BaseException, cause: Any, place: tuple) -> None:
    """Raise from code that says it's elsewhere."""
    name, filename, line, indent, lost = place
    source = "\n" * line + (f"if 1:\n{' ' * indent}" if indent else "") + "boom()"
    code = compile(source, filename, "exec").replace(co_name=name)
    if lost:
        # Entries of code 15 (no location), each for up to 8 code units
        units = len(code.co_code) // 2
        code = code.replace(co_linetable=bytes(0xF8 | min(8, units - k) - 1 for k in range(0, units, 8)))
    exec(code, {"boom": lambda: thrower(e, cause, 0)})


def raised(plan: tuple) -> BaseException:
    """An exception that has been raised as planned."""
    kind, text, depth, notes, cause, context, children, hide = plan
    kids = [raised(c) for c in children] if kind == "group" else []
    c: Any = None if cause is None else raised(cause)
    e = make(kind, text, kids)
    for n in notes:
        e.add_note(n)
    if hide and c is None:
        c = False
    if depth == 0 and context is None:
        # Never raised
        if c is False:
            e.__suppress_context__ = True
        elif c is not None:
            e.__cause__ = c
        return e
    try:
        throw = throw_at if isinstance(depth, tuple) else thrower
        if context is None:
            throw(e, c, depth)
        else:
            ctx = raised(context)
            try:
                raise ctx
            except BaseException:
                throw(e, c, depth)
    except BaseException as x:
        assert x is e
    # Only what's planned: which exception was being handled here doesn't count
    return e


def frames(e: BaseException) -> list[str]:
    out = []
    for f in reversed(traceback.TracebackException.from_exception(e).stack):
        col = "<unknown>" if f.colno is None else f.colno
        line = "<unknown>" if f.lineno is None else f.lineno
        out.append(f"    at {f.name} ({f.filename}:{line}:{col})")
    return out


def header(e: BaseException) -> str:
    return "".join(traceback.TracebackException.from_exception(e).format_exception_only())


CONTEXT = "The above exception occurred while handling another exception:"


def check_text(e: BaseException, data: Any, what: str) -> None:
    lines = list(traceback.TracebackException.from_exception(e).format_exception_only())
    check(data.name == "Error", lambda: f"{what}: the name is {data.name!r}")
    first = lines[0]
    if isinstance(e, SyntaxError):
        # Lines that show where it is come first
        first = next(ln for ln in lines if ln.startswith(type(e).__qualname__) or ln.startswith(f"{type(e).__module__}.{type(e).__qualname__}"))
    check(data.message == first.rstrip(), lambda: f"{what}: the message is {data.message!r}, expected {first.rstrip()!r}")
    own = header(e) + "".join(f + "\n" for f in frames(e))
    stack = data.stack
    check(isinstance(stack, str), lambda: f"{what}: the stack is {stack!r}")
    check((stack + "\n").startswith(own.rstrip() + "\n"), lambda: f"{what}: the stack doesn't start with\n{own}\nbut is\n{stack}")
    check(stack == stack.rstrip(), "the stack ends with blanks")
    rest = (stack + "\n")[len(own.rstrip()) :]
    # Members of groups, then contexts
    if isinstance(e, BaseExceptionGroup):
        rest = check_group(e, rest, (), what)
    contexts = []
    c = e
    while c.__context__ is not None and not c.__suppress_context__:
        c = c.__context__
        contexts.append(c)
    for c in contexts:
        at = rest.find(CONTEXT)
        check(at >= 0, lambda: f"{what}: the context {c!r} isn't in the stack\n{stack}")
        rest = rest[at + len(CONTEXT) :].lstrip("\n")
        head = (header(c) + "".join(f + "\n" for f in frames(c))).rstrip()
        check(rest.startswith(head), lambda: f"{what}: the context\n{head}\nisn't in the stack\n{stack}")
        rest = rest[len(head) :]
        if isinstance(c, BaseExceptionGroup):
            rest = check_group(c, rest, (), what)
    check(CONTEXT not in rest, lambda: f"{what}: there are more contexts in the stack\n{stack}")
    check("\n    at " not in rest and "↳" not in rest, lambda: f"{what}: there is more in the stack\n{stack}\nafter {rest!r}")


def check_group(e: BaseExceptionGroup, rest: str, path: tuple, what: str) -> str:
    for k, sub in enumerate(e.exceptions, 1):
        label = f"  ↳ {'.'.join(map(str, (*path, k)))}: "
        at = rest.find(label)
        check(at >= 0, lambda: f"{what}: there is no {label!r} for {sub!r} in\n{rest}")
        check("    at " not in rest[:at] and "↳" not in rest[:at], lambda: f"{what}: there is something before {label!r} in\n{rest}")
        rest = rest[at + len(label) :]
        first = header(sub).split("\n")[0]
        check(rest.startswith(first.rstrip()), lambda: f"{what}: {label!r} isn't followed by {first!r} in\n{rest}")
        rest = rest[len(first) :]
        for f in frames(sub):
            at = rest.find(f)
            check(at >= 0, lambda: f"{what}: the frame {f!r} of {sub!r} isn't in\n{rest}")
            check("↳" not in rest[:at], lambda: f"{what}: the frame {f!r} is in the wrong place")
            rest = rest[at + len(f) :]
        if isinstance(sub, BaseExceptionGroup):
            rest = check_group(sub, rest, (*path, k), what)
        c = sub
        while c.__context__ is not None and not c.__suppress_context__:
            c = c.__context__
            at = rest.find(CONTEXT)
            check(at >= 0, lambda: f"{what}: the context {c!r} of a member isn't in\n{rest}")
            rest = rest[at + len(CONTEXT) :]
            for f in frames(c):
                at = rest.find(f)
                check(at >= 0, lambda: f"{what}: the frame {f!r} of a member's context isn't in\n{rest}")
                rest = rest[at + len(f) :]
            if isinstance(c, BaseExceptionGroup):
                rest = check_group(c, rest, (), what)
    return rest


def run_exception(case: tuple, s: Stats) -> None:
    from v8serialize import dumps, loads
    from v8serialize.jstypes import JSErrorData

    plan, shape = case
    e = raised(plan)
    linked = plan[4] is not None or plan[5] is not None or plan[0] == "group"
    s.nontrivial(linked or bool(plan[2]) or bool(plan[3]))
    s.label(plan[0])
    data = JSErrorData.from_exception(e)
    check(type(data) is JSErrorData, lambda: f"converted to {type(data)}")
    exc, d, depth = e, data, 0
    while True:
        check_text(exc, d, f"the exception{' cause' * depth}")
        if exc.__cause__ is None:
            check(d.cause is None, lambda: f"there is a cause {d.cause!r}")
            break
        check(type(d.cause) is JSErrorData, lambda: f"the cause is {d.cause!r}")
        exc, d, depth = exc.__cause__, d.cause, depth + 1
    if depth:
        s.label("cause")
    if e.__context__ is not None:
        s.label("context")
    if plan[0] == "js":
        return  # (These are serialized as themselves)
    value = [e, {"e": e}, {e: 1}, [e, [e]]][shape]
    get = [lambda v: v, lambda v: v["e"], lambda v: [*v][0], lambda v: v[0]][shape]
    out = dumps(value)
    got = get(loads(out, js_error_builder=JSErrorData.builder))
    if shape == 3:
        both = loads(out)
        check(both[0] is both[1][0], "an exception met twice is decoded as two errors")
    d1, d2 = data, got
    while True:
        check([x and utf16(x) for x in (d1.name, d1.message, d1.stack)] == [x and utf16(x) for x in (d2.name, d2.message, d2.stack)], lambda: f"serialized as {d2!r}, not {d1!r}")
        check((d1.cause is None) == (d2.cause is None), lambda: f"serialized with the cause {d2.cause!r}, not {d1.cause!r}")
        if d1.cause is None:
            break
        d1, d2 = d1.cause, d2.cause
    # V8 sees the same
    js = v8_deserialize(dumps(e))
    check("graph" in js, lambda: f"V8 can't read the exception: {js}")
    check_same(describe(data, raw=True), js["graph"], "what V8 sees")


def run_cycles(case: tuple, s: Stats) -> None:
    """Causes and contexts that form cycles: conversion ends, and says what it can."""
    from v8serialize import dumps, loads
    from v8serialize.jstypes import JSErrorData

    n, causes, contexts = case
    es = [ValueError(f"e{i}") for i in range(n)]
    for i, c in enumerate(causes[:n]):
        if c is not None:
            es[i].__cause__ = es[c % n]
    for i, c in enumerate(contexts[:n]):
        if c is not None:
            es[i].__context__ = es[c % n]
            es[i].__suppress_context__ = False
    s.nontrivial(any(c is not None for c in causes[:n]))
    got = loads(dumps(es[0]), js_error_builder=JSErrorData.builder)
    tbe = traceback.TracebackException.from_exception(es[0])
    own = JSErrorData.from_traceback_exception(tbe)
    for data in (got, own):
        t: Any = tbe
        chain = 0
        while True:
            exp = next(iter(t.format_exception_only())).rstrip()
            check(data.message == exp, lambda: f"the message is {data.message!r}, expected {exp!r}")
            check(data.stack.startswith(exp), lambda: f"the stack is {data.stack!r}")
            check((data.cause is None) == (t.__cause__ is None), lambda: f"the cause of {exp} is {data.cause!r}, not {t.__cause__}")
            if data.cause is None:
                break
            data, t = data.cause, t.__cause__
            chain += 1
            check(chain <= n, "the chain of causes doesn't end")


text = st.one_of(gens.strings.filter(lambda t: "\n" not in t and "\r" not in t), st.text("ab ", max_size=5))
note = st.sampled_from(["note", "two\nlines", "", "☃"])
kind = st.sampled_from(["value", "value", "value", "Odd", "Lines", "Named", "syntax", "key", "empty", "js", "exit", "unicode", "name", "group", "group"])


places = st.tuples(
    st.sampled_from(["<module>", "f", "☃", "a b", ""]),
    st.sampled_from(["x.py", "<string>", "", "a b.py", "☃.py", "/x/(y):1", "C:\\x.py"]),
    st.integers(0, 3),
    st.integers(0, 3),
    st.sampled_from([False, False, False, True]),
)


def plans(depth: int) -> Any:
    sub = st.none() if depth <= 0 else st.one_of(st.none(), st.none(), plans(depth - 1))
    kids = st.just(()) if depth <= 0 else st.lists(plans(depth - 1), min_size=1, max_size=3).map(tuple)
    k = kind if depth > 0 else kind.filter(lambda x: x != "group")
    return st.tuples(k, text, st.one_of(st.integers(0, 3), st.integers(0, 3), places), st.lists(note, max_size=2).map(tuple), sub, sub, kids, st.booleans())


fields = st.tuples(
    st.sampled_from([*NAMES]),
    st.one_of(st.none(), gens.valid_strings),
    st.one_of(st.none(), gens.valid_strings),
    st.sampled_from([None, "self", "shared", "value", "null", "holder"]),
)
style = st.lists(st.integers(0, 7), min_size=1, max_size=6).map(tuple)
names = st.one_of(st.sampled_from([*NAMES, "URIError", "error", "AggregateError", "", "Message", "toString", "Errorx"]), st.text(max_size=6))

KNOWN_PROBES = {"uri-error-name": probe_uri_error}

CASES = [
    Case("written", run_js, lambda: st.tuples(error_specs(), style), quick=5000, thorough=120000),
    Case("orders", run_orders, lambda: st.tuples(error_specs(kinds=[k for k in KINDS if k not in ("list", "exc")]), style, choice_lists, st.sampled_from([13, 14, 15])), quick=5000, thorough=120000),
    Case("builders", run_builders, lambda: st.tuples(fields, st.integers(0, 1), st.booleans()), quick=3000, thorough=40000),
    Case("from-v8", run_v8, lambda: st.tuples(error_specs(kinds=[k for k in KINDS if k not in ("list", "exc", "prim")]), style), quick=4000, thorough=100000),
    Case("names", run_names, lambda: names, fixed=lambda: [*NAMES, "URIError"], quick=1500, thorough=20000),
    Case("exceptions", run_exception, lambda: st.tuples(plans(3), st.integers(0, 3)), quick=4000, thorough=80000),
    Case("exception-cycles", run_cycles, lambda: st.tuples(st.integers(1, 4), st.lists(st.one_of(st.none(), st.integers(0, 3)), min_size=4, max_size=4).map(tuple), st.lists(st.one_of(st.none(), st.integers(0, 3)), min_size=4, max_size=4).map(tuple)), quick=2000, thorough=20000),
]
