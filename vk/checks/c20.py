"""C20: stream primitives, and every valid wire form, as the format says."""

from __future__ import annotations

import math
import struct
from datetime import datetime, timedelta, timezone
from typing import Any

from vk import bytesgen, gens, refcodec, st
from vk.bytesgen import choice_lists, chooser, varint
from vk.common import check_same, concrete, describe_or_fail, js_graphs
from vk.core import Case, HarnessError, Stats, check, violated
from vk.graph import compare, d, describe, js_to_py, undouble
from vk.node import v8_deserialize

RULE = (
    "Sequences of stream elements are written one by one and compared with bytes made "
    "independently, then read back, whole, cut short and with the wrong tag; objects of each kind are written and read with the stream's own methods too. Graphs are written "
    "by an independent writer in every version and spelling of the format and decoded. Byte "
    "strings, valid, damaged and from a grammar, are read by V8, by an independent reader and by "
    "the library. Non-trivial: two or more elements; a value of two or more objects or not in the "
    "spelling V8 would use; a byte string V8 accepts that isn't just a constant."
)
ASSUMPTIONS = [
    "The installed Node.js 22 (V8 12.4) stands for V8; what it accepts must be accepted only if "
    "it is well formed by the strict independent reader too (V8 ignores some nonsense, such as "
    "varints too long, invalid UTF-8 and flags it doesn't know).",
    "Property keys written as doubles that Python spells differently (C11's known finding), Maps "
    "and Sets with equal numbers and BigInts (C04's) and the digits of a date below milliseconds "
    "aside.",
]

EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)


# ---------------------------------------------------------------- elements


def zigzag(n: int) -> bytes:
    return varint(2 * n if n >= 0 else -2 * n - 1)


def bigint(n: int, size: int) -> bytes:
    return varint(size << 1 | (n < 0)) + abs(n).to_bytes(size, "little")


def utf16le(s: str) -> bytes:
    return b"".join(struct.pack("<H", ord(c)) if ord(c) < 0x10000 else struct.pack("<HH", 0xD800 + (ord(c) - 0x10000 >> 10), 0xDC00 + (ord(c) & 0x3FF)) for c in s)


class Element:
    """What one write must add to a stream that has `at` bytes, and how it reads."""

    def __init__(self, op: tuple, at: int) -> None:
        from v8serialize.constants import SerializationTag as T
        from v8serialize.jstypes import JSPrimitiveObject
        from v8serialize.jstypes._v8 import V8SharedObjectReference

        name, x, tagged = op
        if name in ("bigint", "primbig"):
            x = int(x, 16)  # (Spelled so that large ones can be shown)
        self.op = op
        self.tagged = tagged
        self.is_object = False
        tag = {
            "double": T.kDouble, "onebyte": T.kOneByteString, "twobyte": T.kTwoByteString, "utf8": T.kUtf8String,
            "bigint": T.kBigInt, "int32": T.kInt32, "uint32": T.kUint32,
        }.get(name)  # fmt: skip
        kw = {} if tagged else {"tag": None}
        self.tag = tag if tagged else None
        rkw = {"tag": tagged}
        lead = bytes([tag]) if tagged and tag is not None else b""
        if name == "varint":
            self.bytes, self.write, self.read = varint(x), lambda s: s.write_varint(x), lambda s: s.read_varint()
        elif name == "zigzag":
            self.bytes, self.write, self.read = zigzag(x), lambda s: s.write_zigzag(x), lambda s: s.read_zigzag()
        elif name == "double":
            self.bytes = lead + struct.pack("<d", x)
            self.write, self.read = lambda s: s.write_double(x, **kw), lambda s: s.read_double(**rkw)
            x = float(x)
        elif name == "onebyte":
            self.bytes = lead + varint(len(x)) + bytes(map(ord, x))
            self.write, self.read = lambda s: s.write_string_onebyte(x, **kw), lambda s: s.read_string_onebyte(**rkw)
        elif name == "twobyte":
            units = utf16le(x)
            body = varint(len(units))
            pad = b"\0" if tagged and (at + 1 + len(body)) % 2 else b""
            self.bytes = pad + lead + body + units
            self.write, self.read = lambda s: s.write_string_twobyte(op[1], **kw), lambda s: s.read_string_twobyte(**rkw)
            x = refcodec.utf16(x)
            # Pairs of surrogates become the character
            x = x.encode("utf-16-le", "surrogatepass").decode("utf-16-le", "surrogatepass")
        elif name == "utf8":
            u = x.encode()
            self.bytes = lead + varint(len(u)) + u
            self.write, self.read = lambda s: s.write_string_utf8(x, **kw), lambda s: s.read_string_utf8(**rkw)
        elif name == "bigint":
            self.bytes = None  # its size is not prescribed
            self.lead = lead
            self.write, self.read = lambda s: s.write_bigint(x, **kw), lambda s: s.read_bigint(**rkw)
        elif name == "int32":
            self.bytes = lead + zigzag(x)
            self.write, self.read = lambda s: s.write_int32(x, **kw), lambda s: s.read_int32(**rkw)
        elif name == "uint32":
            self.bytes = lead + varint(x)
            self.write, self.read = lambda s: s.write_uint32(x, **kw), lambda s: s.read_uint32(**rkw)
        elif name == "constant":
            c = [T.kUndefined, T.kNull, T.kTrue, T.kFalse, T.kTheHole][x]
            self.tag = c
            self.bytes = bytes([b"_0TF-"[x]])
            self.write, self.read = lambda s: s.write_constant(c), lambda s: s.read_tag(c)
            x = c
        elif name == "header":
            self.tag = T.kVersion
            self.bytes = b"\xff\x0f"
            self.write, self.read = lambda s: s.write_header(), lambda s: s.read_header()
            x = 15
        elif name == "date":
            self.tag = T.kDate
            us, off = x
            self.bytes = b"D" + struct.pack("<d", us / 1000)
            x = EPOCH + timedelta(microseconds=us)
            dt = x.astimezone(timezone(timedelta(minutes=off)))
            self.write = lambda s: s.write_js_date(dt)
            self.read = lambda s: s.read_js_date(tz=timezone.utc, tag=True).object
            self.is_object = True
        elif name == "prim":
            self.tag = {bool: T.kTrueObject if x is True else T.kFalseObject, float: T.kNumberObject, str: T.kStringObject}[type(x)]
            if isinstance(x, bool):
                self.bytes = b"y" if x else b"x"
            elif isinstance(x, float):
                self.bytes = b"n" + struct.pack("<d", x)
            else:
                self.bytes = None
                self.lead = b"s"
            o = JSPrimitiveObject(x)
            self.write = lambda s: s.write_js_primitive_object(o)
            self.read = lambda s: s.read_js_primitive_object()[1].value
            self.is_object = True
        elif name == "primbig":
            self.tag = T.kBigIntObject
            o = JSPrimitiveObject(x, tag=T.kBigIntObject)
            self.bytes, self.lead = None, b"z"
            self.write = lambda s: s.write_js_primitive_object(o)
            self.read = lambda s: s.read_js_primitive_object()[1].value
            self.is_object = True
        elif name == "shared":
            self.tag = T.kSharedObject
            self.bytes = b"p" + varint(x)
            ref = V8SharedObjectReference(x)
            self.write = lambda s: s.write_v8_shared_object_reference(ref)
            self.read = lambda s: s.read_v8_shared_object_reference(tag=True)[1].shared_value_id
            self.is_object = True
        else:
            raise AssertionError(name)
        self.value = x

    def expect(self, got: bytes) -> str | None:
        """What is wrong with the bytes written, if anything."""
        if self.bytes is not None:
            return None if got == self.bytes else f"wrote {got.hex()}, not {self.bytes.hex()}"
        name, x, _ = self.op
        if not got.startswith(self.lead):
            return f"wrote {got.hex()}, which doesn't start with {self.lead.hex()}"
        r = refcodec.Reader(b"\0" + got)
        r.pos = 1 + len(self.lead)
        try:
            if name in ("bigint", "primbig"):
                back: Any = int(r.bigint(), 0)
                x = int(x, 16)
            else:
                # Two-byte strings must be aligned, where they are in the stream
                back, x = refcodec.utf16(_string(r, got)), refcodec.utf16(x)
        except refcodec.Malformed as e:
            return f"wrote {got.hex()}: {e}"
        if back != x or r.pos != len(r.data):
            return f"wrote {got.hex()}, which is {back!r} and ends at {r.pos - 1}"
        return None


def _string(r: refcodec.Reader, got: bytes) -> str:
    t = r.tag()
    n = r.varint()
    return r.need(n).decode({'"': "latin-1", "S": "utf-8", "c": "utf-16-le"}[t], "surrogatepass" if t == "c" else "strict")


def same(a: Any, b: Any) -> bool:
    if isinstance(a, float) and isinstance(b, float):
        return struct.pack("<d", a) == struct.pack("<d", b) or (math.isnan(a) and math.isnan(b))
    return type(a) is type(b) and a == b


def run_elements(case: tuple, s: Stats) -> None:
    from v8serialize import DecodeV8SerializeError
    from v8serialize.constants import SerializationTag as T
    from v8serialize.decode import ReadableTagStream
    from v8serialize.encode import WritableTagStream

    lead, ops, kind, pads, wrong = case
    out = WritableTagStream(bytearray(lead))
    done: list[tuple[Element, int, int]] = []
    objects = 0
    s.nontrivial(len(ops) > 1)
    for op in ops:
        at = out.pos
        check(at == len(out.data), "pos is not the end of the data")
        e = Element(op, at)
        before = bytes(out.data)
        s.label(op[0])
        e.write(out)
        got = bytes(out.data)
        check(got[:at] == before, lambda: f"{op} changed what was written before it")
        why = e.expect(got[at:])
        check(why is None, lambda: f"{op} at {at}: {why}")
        if e.bytes is None and op[0] == "prim" and (cpos := got[at:].find(b"c")) == 1 + (len(got) - at > 1 and got[at + 1] == 0):
            n_at = at + cpos + 1
            n_end = n_at
            while got[n_end] & 0x80:
                n_end += 1
            check((n_end + 1) % 2 == 0, lambda: f"the two-byte string of {op} at {at} isn't aligned: {got[at:].hex()}")
        done.append((e, at, out.pos))
        objects += e.is_object
    data = {"bytes": bytes, "bytearray": bytearray, "memoryview": memoryview}[kind](bytes(out.data))
    inp = ReadableTagStream(data, pos=len(lead))
    for e, start, end in done:
        check(inp.pos == start, lambda: f"reads at {inp.pos}, not {start}")
        check(not inp.eof, "at the end of the data too early")
        if e.tag is not None:
            check(inp.peak_tag() is e.tag and inp.pos == start, lambda: f"peak_tag() is {inp.peak_tag()} before {e.op}")
            check(inp.read_tag(consume=False) is e.tag, lambda: f"read_tag() doesn't find {e.tag}")
            check(inp.read_tag(e.tag, consume=False) is e.tag, lambda: f"read_tag({e.tag}) doesn't find it")
            check(data[inp.pos] == e.tag and not any(data[start : inp.pos]), "read_tag() isn't at the tag")
            bad = [t for t in T if t is not e.tag and t is not T.kPadding][wrong % (len(T) - 2)]
            at = inp.pos
            try:
                inp.read_tag(bad)
                violated(f"{bad} is found where there is {e.tag}")
            except DecodeV8SerializeError as err:
                check(err.position == at == inp.pos, lambda: f"the error is at {err.position}, not {at}")
            inp.pos = start
        got = e.read(inp)
        check(same(got, e.value), lambda: f"{e.op} reads as {got!r}, not {e.value!r}")
        check(inp.pos == end, lambda: f"after {e.op} the position is {inp.pos}, not {end}")
    check(inp.eof, "not at the end of the data")
    # Each is an error when its end is missing
    for e, start, end in done:
        cut = start + pads % (end - start)
        part = ReadableTagStream(data[:cut], pos=start)
        try:
            got = e.read(part)
        except DecodeV8SerializeError as err:
            check(start <= err.position <= cut, lambda: f"the error is at {err.position} of {cut}")
        else:
            violated(f"{e.op} reads as {got!r} from {bytes(data[start:cut]).hex()}")
    # Padding may be before tags
    e, start, end = done[pads % len(done)]
    if e.tag is not None:
        zeros = b"\0" * (1 + pads % 5 if pads % 7 else 6 + pads % 150)
        part = ReadableTagStream(zeros + bytes(data[start:end]))
        check(part.peak_tag() is e.tag and part.pos == 0, "peak_tag() doesn't ignore padding")
        check(same(e.read(part), e.value) and part.eof, "padding changes what is read")
        nothing = ReadableTagStream(zeros)
        check(nothing.peak_tag() is None, "peak_tag() finds something in padding")
        try:
            nothing.read_tag()
            violated("read_tag() finds something in padding")
        except DecodeV8SerializeError:
            pass
    assert objects >= 0


def run_refused(case: tuple, s: Stats) -> None:
    """Elements that can't be written leave the stream as it was."""
    from v8serialize.constants import JS_ARRAY_BUFFER_TAGS, JS_CONSTANT_TAGS, JS_OBJECT_KEY_TAGS, JS_STRING_TAGS, ArrayBufferViewTag
    from v8serialize.encode import EncodeV8SerializeError, WritableTagStream

    lead, (name, x), tagged, con = case
    out = WritableTagStream(bytearray(lead))
    s.nontrivial(True)
    s.label(name)
    constraint = None
    if name == "constrained":
        constraint = [JS_ARRAY_BUFFER_TAGS, JS_CONSTANT_TAGS, JS_OBJECT_KEY_TAGS, JS_STRING_TAGS][con]
        e = Element(x, len(lead))
        tag = e.tag
        write = e.write
        if tag is None:
            return
        ok = tag in constraint
        with out.constrain_tags(constraint):
            check(out.allowed_tags is constraint, "allowed_tags isn't the constraint")
            try:
                write(out)
                check(ok, lambda: f"{tag} is written where {constraint} are allowed")
                check(e.expect(bytes(out.data)[len(lead) :]) is None, "wrong bytes with a constraint")
            except EncodeV8SerializeError:
                check(not ok, lambda: f"{tag} is refused where {constraint} are allowed")
                check(bytes(out.data) == lead, "a refused element changed the stream")
        check(out.allowed_tags is None, "the constraint remains")
        return
    kw = {} if tagged else {"tag": None}
    if name in ("sparse", "smaller", "regexp", "float16"):
        from types import SimpleNamespace

        from v8serialize.constants import JSRegExpFlag, SerializationFeature as F
        from v8serialize.encode import DefaultEncodeContext
        from v8serialize.jstypes import JSRegExp

        everything = F.RegExpUnicodeSets | F.ResizableArrayBuffers | F.CircularErrorCause | F.Float16Array
        lacks = {"regexp": F.RegExpUnicodeSets, "float16": F.Float16Array}.get(name, F.CircularErrorCause)
        out = WritableTagStream(bytearray(lead), features=everything & ~lacks)
        ctx = DefaultEncodeContext(stream=out)
    write = {
        "sparse": lambda: out.write_js_array_sparse([], ctx, length=x),
        "smaller": lambda: out.write_js_array_buffer(SimpleNamespace(data=b"a" * (x + 1), max_byte_length=con % (x + 1), resizable=True)),
        "regexp": lambda: out.write_js_regexp(JSRegExp("a", JSRegExpFlag.UnicodeSets | JSRegExpFlag(x & ~16))),
        "float16": lambda: out.write_js_array_buffer_view(SimpleNamespace(view_tag=ArrayBufferViewTag.kFloat16Array, byte_offset=x, byte_length=2, is_length_tracking=False, is_backing_buffer_resizable=False)),
        "varint": lambda: out.write_varint(x),
        "int32": lambda: out.write_int32(x, **kw),
        "uint32": lambda: out.write_uint32(x, **kw),
        "onebyte": lambda: out.write_string_onebyte(x, **kw),
        "double": lambda: out.write_double(x, **kw),
    }[name]
    try:
        write()
    except EncodeV8SerializeError:
        check(bytes(out.data) == lead, "a refused element changed the stream")
        return
    violated(f"{name} {x!r} is written as {bytes(out.data[len(lead):]).hex()}")


# ------------------------------------------------------- objects in streams


def text(x: str) -> bytes:
    """A string, spelled in any way."""
    return b"<<s" + x.encode("latin-1") + b">>"


def integer(x: int) -> bytes:
    return b"<<i%d>>" % x


def matches(got: bytes, exp: bytes) -> bool:
    """Whether these are the bytes expected, with strings spelled in any way."""
    at = 0
    for n, part in enumerate(exp.split(b"<<")):
        if n:
            word, part = part.split(b">>")
            kind, word = word[:1], word[1:]
            u = word.decode("latin-1")
            wide = utf16le(u)
            ways = [b'"' + varint(len(word)) + word, b"S" + varint(len(u.encode())) + u.encode(), b"c" + varint(len(wide)) + wide, b"\0c" + varint(len(wide)) + wide]
            if kind == b"i":
                ways = [b"I" + zigzag(int(word)), b"N" + struct.pack("<d", int(word))]
                if int(word) >= 0:
                    ways.append(b"U" + varint(int(word)))
            way = next((w for w in ways if got.startswith(w, at)), None)
            if way is None:
                return False
            at += len(way)
        if not got.startswith(part, at):
            return False
        at += len(part)
    return at == len(got)


SCALARS = [
    (0, integer(0)), (1, integer(1)), (-1, integer(-1)), (300, integer(300)), (1.5, b"N" + struct.pack("<d", 1.5)), (True, b"T"), (False, b"F"),
    (None, b"0"), ("", text("")), ("a", text("a")), ("\xff", text("\xff")), ("length", text("length")),
]  # fmt: skip
KEYS = [(k, b) for k, b in SCALARS if type(k) in (int, str) and k != -1]
OBJ_KINDS = ["map", "set", "object", "dense", "sparse", "error", "regexp", "buffer", "view", "host", "prim"]


class Box:
    """An identity for what is written or read."""


def run_objects(case: tuple, s: Stats) -> None:
    """Each kind of object, written and read with the stream's own methods."""
    from v8serialize import DecodeV8SerializeError
    from v8serialize.constants import ArrayBufferViewTag, JSRegExpFlag, SerializationFeature, SerializationTag as T
    from v8serialize.decode import DefaultDecodeContext, ReadableTagStream
    from v8serialize.encode import DefaultEncodeContext, WritableTagStream
    from v8serialize.jstypes import JSArrayBuffer, JSErrorData, JSPrimitiveObject, JSRegExp, JSUint8Array

    first, xs, lead, by_id, cut, wrong = case
    name = OBJ_KINDS[first]
    s.label(name)
    s.nontrivial(len(xs) > 1)
    box: Any = Box()
    boxes = {"W": box}

    def val(i: int) -> tuple[Any, bytes]:
        """A value and its bytes; the object itself is possible too."""
        if i >= len(SCALARS):
            return boxes["W"], b"^" + varint(lead)
        return SCALARS[i]

    keys = [KEYS[k % len(KEYS)] for k, _ in xs]
    if name in ("map", "set"):
        keys = [val(k) for k, _ in xs]
    vals = [val(v) for _, v in xs]
    items = [(k[0], v[0]) for k, v in zip(keys, vals)]
    flat = b"".join(k[1] + v[1] for k, v in zip(keys, vals))
    n = len(xs)
    count = varint(n)

    out = WritableTagStream(features=SerializationFeature.CircularErrorCause)
    ctx = DefaultEncodeContext(stream=out)
    before = [Box() for _ in range(lead)]
    for b in before:
        out.write_jsset([], ctx, identity=b)
    at = out.pos
    check(bytes(out.data) == b"',\0" * lead, "wrong empty sets")
    word = "".join(str(k[0]) for k in keys)
    body = text(word)
    if name == "map":
        out.write_jsmap(iter(items), ctx, identity=box)
        exp = b";" + flat + b":" + varint(2 * n)
    elif name == "set":
        out.write_jsset(iter([k for k, _ in items]), ctx, identity=box)
        exp = b"'" + b"".join(k[1] for k in keys) + b"," + count
    elif name == "object":
        out.write_js_object(iter(items), ctx, identity=box)
        exp = b"o" + flat + b"{" + count
    elif name == "dense":
        half = n // 2
        out.write_js_array_dense([v for _, v in items[:half]], ctx, properties=iter(items[half:]), identity=box)
        rest = b"".join(k[1] + v[1] for k, v in zip(keys[half:], vals[half:]))
        exp = b"A" + varint(half) + b"".join(v[1] for v in vals[:half]) + rest + b"$" + varint(n - half) + varint(half)
    elif name == "sparse":
        size = [n, 1000, 2**32 - 1][wrong % 3]
        out.write_js_array_sparse(iter(items), ctx, length=size, identity=box)
        exp = b"a" + varint(size) + flat + b"@" + count + varint(size)
    elif name == "error":
        v = vals[0] if vals else (None, b"")
        e = JSErrorData(message=word, stack=None, cause=v[0])
        out.write_js_error(e, ctx, identity=box)
        exp = b"rm" + body + (b"c" + v[1] if v[0] is not None else b"") + b"."
    elif name == "regexp":
        word = word or "x"
        body = text(word)
        out.write_js_regexp(JSRegExp(word, JSRegExpFlag(wrong % 64)), identity=box)
        exp = b"R" + body + varint(wrong % 64)
    elif name in ("buffer", "view"):
        data = bytes(k % 256 for k, _ in xs)
        buf = JSArrayBuffer(data)
        out.write_js_array_buffer(buf, identity=box if name == "buffer" else None)
        exp = b"B" + count + data
        if name == "view":
            off = wrong % (n + 1)
            out.write_js_array_buffer_view(JSUint8Array(buf, off, n - off), identity=box)
            exp += b"VB" + varint(off) + varint(n - off) + b"\0"
    elif name == "host":
        out.write_host_object(box, serializer=lambda *, stream, value: stream.write_uint32(wrong, tag=None))
        exp = b"\\" + varint(wrong)
    else:
        w = [True, False, 1.5, "abc", ""][wrong % 5]
        out.write_js_primitive_object(JSPrimitiveObject(w), identity=box)
        exp = {True: b"y", False: b"x", 1.5: b"n" + struct.pack("<d", 1.5), "abc": b"s" + text("abc"), "": b"s" + text("")}[w]
    ident = lead + (name == "view")
    if by_id:
        out.write_object_reference(serialized_id=ident)
    else:
        out.write_object_reference(obj=box)
    exp += b"^" + varint(ident)
    check(matches(bytes(out.data[at:]), exp), lambda: f"{name} is written as {bytes(out.data[at:]).hex()}, not {exp.hex()}")
    size_before = len(out.data)
    for kw in ({"serialized_id": ident + 1 + cut % 9}, {"obj": Box()}):
        try:
            out.write_object_reference(**kw)
            violated(f"a reference to nothing is written: {kw}")
        except Exception as err:
            from v8serialize import V8SerializeError

            check(isinstance(err, V8SerializeError), lambda: f"{err!r} for a reference to nothing")
        check(len(out.data) == size_before, "a refused reference was written")

    # Reading it with the tag included
    data = bytes(out.data)

    def read(inp: Any, which: str, dctx: Any, me: Any, tag: bool = True) -> Any:
        if which == "map":
            return list(inp.read_jsmap(dctx, identity=me, tag=tag))
        if which == "set":
            return list(inp.read_jsset(dctx, identity=me, tag=tag))
        if which == "object":
            return list(inp.read_js_object(dctx, identity=me, tag=tag))
        if which == "dense":
            return list(inp.read_js_array_dense(dctx, identity=me, tag=tag))
        if which == "sparse":
            r = inp.read_js_array_sparse(dctx, identity=me, tag=tag)
            return r.length, list(r.items)
        if which == "error":
            return inp.read_js_error(dctx, error=lambda e: (me, e), tag=tag)
        if which == "regexp":
            return inp.read_js_regexp(dctx, tag=tag)
        if which in ("buffer", "view"):
            kw: Any = {
                "array_buffer": lambda *, data, max_byte_length, resizable: ("AB", bytes(data), resizable),
                "shared_array_buffer": lambda *, buffer_id: ("SAB", buffer_id),
                "array_buffer_transfer": lambda *, transfer_id: ("T", transfer_id),
            }
            return inp.read_js_array_buffer(**kw, tag=None if tag else inp.read_tag())
        if which == "host":
            return inp.read_host_object(lambda *, stream: (me, stream.read_uint32()), tag=tag)
        return inp.read_js_primitive_object(tag=None if tag else inp.read_tag())

    for tag in (True, False):
        inp = ReadableTagStream(data)
        dctx = DefaultDecodeContext(stream=inp)
        for _ in range(lead):
            check(list(inp.read_jsset(dctx, identity=Box(), tag=True)) == [], "an empty set has members")
        me: Any = Box()
        if not tag and name not in ("buffer", "view", "prim"):
            inp.read_tag()
        got = read(inp, name, dctx, me, tag)
        mine = [(me if k is box else k, me if v is box else v) for k, v in items]
        if name in ("map", "object"):
            ok = alike(got, mine)
        elif name == "set":
            ok = alike(got, [k for k, _ in mine])
        elif name == "dense":
            ok = alike(got, [(i, v) for i, (_, v) in enumerate(mine[:half])] + mine[half:])
        elif name == "sparse":
            ok = alike(got, (size, mine))
        elif name == "error":
            ok = got[0] == ident and got[1] is me
        elif name == "regexp":
            me, ok = got[1], got == (ident, JSRegExp(word, JSRegExpFlag(wrong % 64)))
        elif name == "buffer":
            me, ok = got, got == ("AB", bytes(k % 256 for k, _ in xs), False)
        elif name == "view":
            ok = got == ("AB", bytes(k % 256 for k, _ in xs), False)
            args = []

            def make(**kw: Any) -> Any:
                args.append(kw)
                return me

            if not tag:
                inp.read_tag()
            ok = ok and inp.read_js_array_buffer_view(got, array_buffer_view=make, tag=tag) is me
            ok = ok and args == [{"buffer": got, "format": ArrayBufferViewTag.kUint8Array, "byte_offset": off, "byte_length": n - off}]
        elif name == "host":
            me, ok = got, got == (me, wrong)
        else:
            me, ok = got[1], got[0] == ident and same(got[1].value, w)
        check(ok, lambda: f"{name} {data.hex()} reads as {got!r}")
        check(not inp.eof, "at the end before the reference")
        if not tag:
            inp.read_tag(T.kObjectReference)
        ref = inp.read_object_reference(tag=tag)
        check(ref[0] == ident and ref[1] is me, lambda: f"the reference to {name} reads as {ref!r}")
        check(inp.eof, "not at the end")

    # Another kind isn't there
    other = OBJ_KINDS[cut % len(OBJ_KINDS)]
    if other != name and {other, name} != {"buffer", "view"}:
        inp = ReadableTagStream(data, pos=at)
        try:
            got = read(inp, other, DefaultDecodeContext(stream=inp), Box())
            violated(f"a {name} is read as a {other}: {got!r}")
        except DecodeV8SerializeError as err:
            check(err.position == at == inp.pos, lambda: f"the error is at {err.position}, not {at}")


def alike(a: Any, b: Any) -> bool:
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(map(alike, a, b))
    return same(a, b) or a is b


def run_limits(case: tuple, s: Stats) -> None:
    """Numbers of up to so many bits."""
    from v8serialize import DecodeV8SerializeError
    from v8serialize.decode import ReadableTagStream

    n, extra, name, bits = case
    body = bytearray(varint(n))
    for _ in range(extra):  # spelled with more bytes than necessary
        body[-1] |= 0x80
        body.append(0)
    s.nontrivial(n > 127 or extra > 0)
    s.label(name)
    inp = ReadableTagStream(bytes(body))
    value: int = n
    # What fits must be read; what has more bytes than 32 bits need may be refused
    fits = True
    if name == "varint":
        read = lambda: inp.read_varint()  # noqa: E731
        must = True
    elif name == "varint bits":
        read = lambda: inp.read_varint(max_bits=bits)  # noqa: E731
        groups = -(-bits // 7)
        must = len(body) <= groups
        fits = n < 1 << 7 * groups
    elif name == "uint32":
        read = lambda: inp.read_uint32()  # noqa: E731
        fits = n < 2**32
        must = fits and len(body) <= 5
    else:
        read = lambda: inp.read_int32()  # noqa: E731
        value = n >> 1 if n % 2 == 0 else -(n >> 1) - 1
        fits = n < 2**32
        must = fits and len(body) <= 5
    try:
        got = read()
    except DecodeV8SerializeError:
        check(not must, lambda: f"{name} {value} ({bytes(body).hex()}) is refused")
        return
    check(fits, lambda: f"{name} {value} is read as {got}, which is out of range")
    check(type(got) is int and got == value and inp.eof, lambda: f"{name} {value} is read as {got}")


# -------------------------------------------------------------- wire forms


class Speller(refcodec.Writer):
    """Also spells numbers with more bytes than necessary."""

    def varint(self, n: int) -> None:
        size = max(1, -(-n.bit_length() // 7))
        extra = self.choose(12) - 7
        if 0 < extra <= 5 - size and not self.exact:
            self.features.add("long varint")
            for _ in range(size + extra - 1):
                self.out.append(n & 0x7F | 0x80)
                n >>= 7
            self.out.append(n)
        else:
            super().varint(n)

    exact = False

    def string(self, s: str, keyed: bool = False) -> None:
        # Padding depends on the length's size
        self.exact = True
        super().string(s, keyed)
        self.exact = False

    def bigint_body(self, text: str) -> None:
        v = int(text, 0)
        m = abs(v)
        n = (m.bit_length() + 7) // 8
        n = [(n + 7) // 8 * 8, n, n + 1, n + 9][self.choose(4)]
        self.features.add("bigint size")
        self.varint(n << 1 | (v < 0))
        self.out += m.to_bytes(n, "little")


def run_wire(case: tuple, s: Stats) -> None:
    from v8serialize import loads

    spec, choices, version, kind, rest = case
    b = gens.Build(spec)
    g = concrete(b.expected("js"))
    if version == 13 and any(n[0] == "ab" and n[2] is not None for n in g["nodes"]):
        version = 14  # Older ones have no resizable buffers
    w = Speller(g, chooser(choices), version)
    data = bytes(w.write())
    s.nontrivial(len(b.reachable()) > 1 or len(w.features) > 1)
    s.label(f"version {version}", *w.features)
    graph, _ = refcodec.parse(data)
    if compare(g, graph):
        raise HarnessError(f"the independent reader and writer disagree: {compare(g, graph)}")
    js = v8_deserialize(data)
    if "graph" in js:  # (V8 12.4 has no Float16Array and only one order of error fields)
        check_same(g, js["graph"], "what V8 sees")
    else:
        s.label("V8 can't read it")
        if not any(n[0] == "view" and n[1] == "Float16Array" for n in g["nodes"]) and "error field order 1" not in w.features and not any("sab" == n[0] or "abt" == n[0] for n in g["nodes"]) and not any(n[0] == "re" and "l" in n[2] for n in g["nodes"]):
            raise HarnessError(f"V8 can't read {data.hex()}: {js}")
    inp = {"bytes": bytes, "bytearray": bytearray, "memoryview": memoryview}[kind](data)
    check_same(js_to_py(g), describe_or_fail(loads(inp)), "the decoded value")
    assert not rest


# ----------------------------------------------------------- as V8 reads it


def normal(g: dict) -> dict:
    """Without what this comparison leaves aside."""

    def key(k: str) -> str:
        try:
            return refcodec.js_number(float(k)) if len(k) < 400 and "_" not in k and k.strip() == k else k
        except ValueError:
            return k

    nodes = []
    for n in g["nodes"]:
        if n[0] == "date":
            x = undouble(n[1])
            n = ["date", d(float(math.trunc(x)) + 0.0)[1] if math.isfinite(x) else n[1]]
        elif n[0] == "obj":
            n = ["obj", [[key(k), v] for k, v in n[1]]]
        elif n[0] == "arr":
            n = ["arr", n[1], n[2], [[key(k), v] for k, v in n[3]]]
        nodes.append(n)
    return {"root": g["root"], "nodes": nodes}


def odd_source(n: list) -> bool:
    return n[0] == "re" and (n[1] == "" or any(c in n[1] for c in "/\n\r\u2028\u2029"))


def mixes(g: dict) -> bool:
    for n in g["nodes"]:
        if n[0] in ("map", "set"):
            keys = [e[0] if n[0] == "map" else e for e in n[1]]
            nums = {undouble(k[1]) for k in keys if k[0] == "d"}
            if any(k[0] == "i" and int(k[1], 0) in nums for k in keys):
                return True
            # Wrapper objects are decoded as what they wrap
            prims = [g["nodes"][k[1]][1] if k[0] == "r" and g["nodes"][k[1]][0] == "prim" else k for k in keys]
            if prims != keys and len({repr(p) for p in prims}) < len(prims):
                return True
            nums |= {undouble(p[1]) for p in prims if p[0] == "d"}
            if any(p[0] == "i" and int(p[1], 0) in nums for p in prims):
                return True
    return False


def repeats(g: dict) -> bool:
    return any(len({k for k, _ in ps}) < len(ps) for n in g["nodes"] if n[0] in ("obj", "arr") for ps in [n[-1]])


def run_as_v8(case: tuple, s: Stats) -> None:
    from v8serialize import DecodeV8SerializeError, loads

    how, x = case
    data = x if how == "grammar" else bytesgen.apply_edits(bytesgen.make(x[0]), x[1])
    s.label(how)
    if data[1:2] not in (b"\r", b"\x0e", b"\x0f"):
        return
    js = v8_deserialize(data)
    if "graph" not in js:
        s.label("V8 refuses it")
        return
    s.nontrivial(len(data) > 4)
    try:
        out = loads(data, nodejs=False)
    except DecodeV8SerializeError as e:
        s.label("only V8 reads it")
        try:
            g, reader = refcodec.parse(data)
        except refcodec.Malformed:
            return
        if reader.overlong:
            return
        if any(n[0] == "date" and not abs(undouble(n[1])) < 6e13 for n in g["nodes"]) or b"?" in data:
            return  # dates no datetime represents; object counts
        if mixes(js["graph"]):
            return
        violated(f"{data.hex()} is well formed and V8 reads it, but: {e}")
    s.label("both read it")
    exp, got = normal(js_to_py(js["graph"])), normal(describe(out))
    if any(odd_source(n) for n in got["nodes"]) or mixes(js["graph"]) or repeats(exp) or repeats(got):
        return
    why = compare(exp, got)
    check(why is None, lambda: f"{data.hex()} is not what V8 reads: {why}")


# ----------------------------------------------------------------- cases

ints = gens.ints
latin = st.lists(st.sampled_from([chr(c) for c in (0, 9, 32, 34, 65, 97, 99, 127, 128, 200, 255)]), max_size=12).map("".join)
sizes = st.sampled_from([0, 1, 63, 64, 100, 127, 128, 129, 200, 8191, 8192, 16383, 16384])
longs = st.tuples(sizes, st.sampled_from(["a", "é", "\0"])).map(lambda x: x[0] * x[1])
wide = st.one_of(gens.strings, gens.strings, st.tuples(sizes, st.sampled_from(["a", "é", "𝄞", "\ud800", "…"])).map(lambda x: x[0] * x[1]))
valid_text = st.one_of(gens.valid_strings, longs)
naturals = st.one_of(st.integers(0, 300), st.sampled_from([x for x in bytesgen.INTERESTING if x >= 0]), st.integers(0, 2**70), st.integers(0, 40).map(lambda k: 2 ** (7 * k)), st.integers(1, 40).map(lambda k: 2 ** (7 * k) - 1))
bits32 = st.one_of(st.integers(0, 300), st.integers(0, 2**32 - 1), st.integers(0, 31).map(lambda k: 2**k), st.integers(1, 32).map(lambda k: 2**k - 1))
signed = st.one_of(naturals, naturals.map(lambda n: -n))
YEAR = 365 * 86400 * 10**6
micros = st.one_of(st.integers(-10**8, 10**8), st.integers(-(2**52), 2**52), st.integers(-1000 * YEAR // 1000, 7000 * YEAR // 1000).map(lambda n: n * 1000))
yes = st.booleans()
t = st.tuples

bigs = st.one_of(ints, signed, st.tuples(st.sampled_from([63, 511, 512, 4095, 4096, 32768, 65535, 65536, 140000]), st.sampled_from([-1, 0, 1]), yes).map(lambda x: (2 ** (8 * x[0] if x[0] < 9999 else x[0]) + x[1]) * (1 if x[2] else -1))).map(hex)

op = st.one_of(
    t(st.just("varint"), naturals, st.just(False)),
    t(st.just("zigzag"), signed, st.just(False)),
    t(st.just("double"), gens.floats, yes),
    t(st.just("double"), st.integers(-(2**53), 2**53), yes),
    t(st.just("onebyte"), st.one_of(latin, longs), yes),
    t(st.just("twobyte"), wide, yes),
    t(st.just("twobyte"), wide, yes),
    t(st.just("utf8"), valid_text, yes),
    t(st.just("bigint"), bigs, yes),
    t(st.just("int32"), bits32.map(lambda n: n - 2**32 if n >= 2**31 else n), yes),
    t(st.just("uint32"), bits32, yes),
    t(st.just("constant"), st.integers(0, 4), st.just(True)),
    t(st.just("header"), st.none(), st.just(True)),
    t(st.just("date"), t(micros, st.integers(-1439, 1439)), st.just(True)),
    t(st.just("prim"), st.one_of(yes, gens.floats, wide), st.just(True)),
    t(st.just("primbig"), bigs, st.just(True)),
    t(st.just("shared"), bits32, st.just(True)),
)
kinds = st.sampled_from(["bytes", "bytearray", "memoryview"])
big = st.one_of(st.integers(1, 300), st.integers(1, 2**40), st.integers(0, 80).map(lambda k: 2**k))

CASES = [
    Case("elements", run_elements, lambda: t(st.binary(max_size=3), st.lists(op, min_size=1, max_size=8).map(tuple), kinds, st.integers(0, 400), st.integers(0, 100)), quick=12000, thorough=300000),
    Case(
        "refused",
        run_refused,
        lambda: t(
            st.binary(max_size=3),
            st.one_of(
                t(st.just("varint"), big.map(lambda n: -n)),
                t(st.just("int32"), st.one_of(big.map(lambda n: 2**31 - 1 + n), big.map(lambda n: -(2**31) - n))),
                t(st.just("uint32"), st.one_of(big.map(lambda n: 2**32 - 1 + n), big.map(lambda n: -n))),
                t(st.just("onebyte"), t(latin, st.sampled_from(["Ā", "𝄞", "\ud800", "\uffff"]), latin).map("".join)),
                t(st.just("double"), st.sampled_from([1, -1]).map(lambda k: k * 10**309)),
                t(st.just("constrained"), op),
                t(st.just("constrained"), op),
                t(st.just("sparse"), st.one_of(big.map(lambda n: 2**32 - 1 + n), big.map(lambda n: -n))),
                t(st.just("smaller"), st.integers(3, 9)),
                t(st.just("regexp"), st.integers(0, 63)),
                t(st.just("float16"), st.integers(0, 4)),
            ),
            yes,
            st.integers(0, 3),
        ),
        quick=4000,
        thorough=80000,
    ),
    Case(
        "objects",
        run_objects,
        lambda: t(st.integers(0, len(OBJ_KINDS) - 1), st.lists(t(st.integers(0, 13), st.integers(0, 13)), max_size=6).map(tuple), st.sampled_from([0, 0, 1, 3]), yes, st.integers(0, 400), st.integers(0, 300)),
        quick=5000,
        thorough=100000,
    ),
    Case("limits", run_limits, lambda: t(naturals, st.one_of(st.just(0), st.integers(0, 6)), st.sampled_from(["varint", "varint bits", "uint32", "int32"]), st.integers(1, 70)), quick=6000, thorough=120000),
    Case("wire", run_wire, lambda: t(js_graphs(), choice_lists, st.sampled_from([13, 13, 14, 15]), kinds, st.none()), quick=8000, thorough=150000),
    Case(
        "as-v8",
        run_as_v8,
        lambda: st.one_of(
            t(st.just("grammar"), bytesgen.grammar),
            t(st.just("edited"), t(bytesgen.valid, st.one_of(bytesgen.edits, bytesgen.edit.map(lambda e: (e,))))),
            t(st.just("edited"), t(bytesgen.valid, bytesgen.edit.map(lambda e: (e,)))),
        ),
        quick=12000,
        thorough=300000,
    ),
]
