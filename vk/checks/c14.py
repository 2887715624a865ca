"""C14: buffers and views read and write as JavaScript typed arrays do."""

from __future__ import annotations

import array
import math
import struct
from typing import Any

from vk import gens, st
from vk.core import Case, Stats, check, violated
from vk.graph import d
from vk.node import bridge

RULE = (
    "Generated histories of creating buffers of every kind and views of every type on them, "
    "resizing, reading, writing, byte-swapped DataView access and copies made by serializing: "
    "after every step all buffers and all views are compared with a model that has one bytearray "
    "per buffer and uses the struct module. The histories that JavaScript can express run in "
    "Node.js's V8 too. Non-trivial: an element was written through one view while another view "
    "shows the same buffer, or a view's range was changed by a resize."
)
ASSUMPTIONS = [
    "Little-endian machine, as the library requires.",
    "Elements out of the range of their type are refused (as the code documents), not wrapped.",
    "A number too large for a 32-bit or 16-bit float is refused or stored as infinity.",
    "Data passed with copy_data=False isn't resized by others while the buffer exists.",
]

FMT = {
    "Int8Array": "b", "Uint8Array": "B", "Uint8ClampedArray": "B", "Int16Array": "h", "Uint16Array": "H",
    "Int32Array": "i", "Uint32Array": "I", "Float16Array": "e", "Float32Array": "f", "Float64Array": "d",
    "BigInt64Array": "q", "BigUint64Array": "Q", "DataView": "B",
}  # fmt: skip
TAGS = list(FMT)
DV = {
    "bigint64": "q", "biguint64": "Q", "float16": "e", "float32": "f", "float64": "d", "int16": "h", "int32": "i",
    "uint16": "H", "uint32": "I", "int8": "b", "uint8": "B",
}  # fmt: skip
DV_NAMES = list(DV)
JS_DV = {"bigint64": "BigInt64", "biguint64": "BigUint64"}


class Buf:
    def __init__(self, kind: str, data: bytes, max_: int, resizable: bool, readonly: bool) -> None:
        self.kind, self.data, self.max = kind, bytearray(data), max_
        self.resizable, self.readonly = resizable, readonly
        # The memory that a buffer made with copy_data=False wraps
        self.source: Any = None
        self.released_by_close = False

    def wraps(self, source: Any, memory: bool = False) -> Buf:
        self.source, self.released_by_close = source, memory
        return self


class View:
    def __init__(self, buf: Buf, b: int, tag: str, off: int, length: int | None, ro: bool) -> None:
        self.buf, self.b, self.tag, self.off, self.length, self.ro = buf, b, tag, off, length, ro
        self.size = gens.VIEW_SIZES[tag]

    def range(self) -> tuple[bool, int, int]:
        """Whether in range, the byte offset and byte length."""
        total = len(self.buf.data)
        start = self.off * self.size
        if self.length is None:
            if start > total:
                return False, 0, 0
            return True, start, (total - start) // self.size * self.size
        if start + self.length * self.size > total:
            return False, 0, 0
        return True, start, self.length * self.size

    def bytes(self) -> bytes:
        _, a, n = self.range()
        return bytes(self.buf.data[a : a + n])

    def values(self) -> list:
        x = self.bytes()
        return list(struct.unpack(f"<{len(x) // self.size}{FMT[self.tag]}", x))

    @property
    def readonly(self) -> bool:
        return self.ro or self.buf.readonly

    @property
    def tracking(self) -> bool:
        return self.length is None and self.buf.resizable


def eq_numbers(a: list, b: list) -> bool:
    return len(a) == len(b) and all(
        type(x) is type(y) and (x == y or (x != x and y != y)) and math.copysign(1, x) == math.copysign(1, y) or (x != x and y != y)
        for x, y in zip(a, b)
    )


def compare(objs: list, views: list, bufs: list[Buf], model: list[View], what: str) -> None:
    for i, (o, m) in enumerate(zip(objs, bufs)):
        if m.kind in ("sab", "abt"):
            continue
        with memoryview(o.data if m.kind == "ab" else o) as mv:
            got = mv.tobytes()
        check(got == m.data, lambda: f"{what}: buffer {i} is {got.hex()}, expected {m.data.hex()}")
        check(m.source is None or m.source == m.data, lambda: f"{what}: buffer {i} wraps {bytes(m.source).hex()}, expected {m.data.hex()}")
        if m.kind == "ab":
            check(bytes(o) == m.data and len(memoryview(o)) == len(m.data), f"{what}: buffer {i} as a Python buffer")
            check(o.max_byte_length == m.max and o.resizable is m.resizable, f"{what}: buffer {i} has other limits")
            with o.data as mv:
                check(mv.readonly is m.readonly, f"{what}: buffer {i} has readonly {mv.readonly}")
                check(mv.format == "B" and mv.itemsize == 1, f"{what}: buffer {i} has data of format {mv.format}")
    for i, (o, v) in enumerate(zip(views, model)):
        ok, off, n = v.range()
        exp = (ok, off, n, v.tracking, v.buf.resizable)
        act = (o.is_in_range, o.byte_offset, o.byte_length, o.is_length_tracking, o.is_backing_buffer_resizable)
        check(act == exp, lambda: f"{what}: view {i} ({v.tag}) has (in range, offset, length, tracking, resizable) {act}, expected {exp}")
        with o.get_buffer_as_memoryview() as mv:
            got = mv.tobytes()
            check(got == v.bytes(), lambda: f"{what}: view {i} ({v.tag}) shows {got.hex()}, expected {v.bytes().hex()}")
            check(mv.readonly is v.readonly or v.buf.kind in ("sab", "abt"), f"{what}: view {i} has readonly {mv.readonly}")
            check(mv.format == "B" and mv.ndim == 1, f"{what}: view {i} has bytes of format {mv.format}")
        with o.get_buffer() as data:
            check(len(data) == n // v.size, lambda: f"{what}: view {i} ({v.tag}) has {len(data)} elements")
            if v.tag == "DataView":
                check(bytes(data.buffer) == v.bytes() and bytes(data) == v.bytes(), f"{what}: view {i} (DataView)")
            else:
                got2 = data.tolist()
                check(eq_numbers(got2, v.values()), lambda: f"{what}: view {i} ({v.tag}) has elements {got2}, expected {v.values()}")
                check(eq_numbers([data[k] for k in range(len(data))], got2), f"{what}: view {i}, by index")
        with o.get_buffer(readonly=True) as data:
            mv = data.buffer if v.tag == "DataView" else data
            check(mv.readonly, f"{what}: view {i} isn't readonly when asked for")


# -------------------------------------------------------------- generation

blob = st.one_of(
    st.binary(max_size=24),
    st.binary(min_size=8, max_size=8),
    st.binary(min_size=16, max_size=16),
    st.integers(0, 24).map(lambda n: bytes(range(n))),
    st.integers(8, 24).map(lambda n: bytes(range(200, 200 + n))),
)
number = st.one_of(
    st.integers(0, 127),
    st.integers(0, 127),
    st.integers(-128, 127),
    st.integers(-3, 300),
    st.sampled_from([127, 128, -128, -129, 255, 256, 32767, 32768, 65535, 65536, 2**31 - 1, 2**31, -(2**31), 2**32 - 1, 2**32, 2**63 - 1, 2**63, -(2**63), 2**64 - 1, 2**64]),
    st.sampled_from([0.5, -0.0, 1.1, 65504.0, 65520.0, 1e5, 1e39, -1e300, 3.4028234663852886e38, 3.4028235677973366e38, 5e-324, math.inf, -math.inf, math.nan, 1e-8, 6e-8]),
    st.floats(),
)
some_view = st.integers(0, 7)
# An index: from 1000 up, it's made to fit
place = st.one_of(st.integers(1000, 1024), st.integers(1000, 1024), st.integers(1000, 1024), st.integers(-4, 26))
js_place = st.one_of(st.integers(1000, 1024), st.integers(1000, 1024), st.integers(0, 20))
some_buf = st.integers(0, 3)
new_buf = st.one_of(
    st.tuples(st.just("ab"), blob, st.one_of(st.none(), st.integers(0, 16), st.integers(0, 16)), st.sampled_from([0, 0, 0, 1, 2]), st.integers(0, 2)),
    st.tuples(st.just("ab"), blob, st.integers(0, 16), st.just(0), st.just(0)),
    st.tuples(st.sampled_from(["bytearray", "bytearray", "bytes", "mv", "mvH", "shared", "sharedrs", "sharedrs", "sharedro", "sharedmv", "sab", "abt", "length"]), blob),
)
view_op = st.tuples(
    st.just("view"),
    some_buf,
    st.one_of(st.sampled_from(TAGS), st.sampled_from(TAGS), st.just("DataView")),
    st.one_of(st.integers(0, 3), st.integers(0, 3), st.integers(-1, 20)),
    st.one_of(st.none(), st.none(), st.integers(0, 3), st.integers(0, 8), st.integers(-1, 20)),
    st.sampled_from([None, None, None, None, None, None, True]),
    st.integers(0, 3),
    st.sampled_from(["fit", "fit", "fit", "fit", "fit", 0, 0, 0, 1]),
)
op = st.one_of(
    view_op,
    st.tuples(st.just("resize"), some_buf, st.one_of(st.integers(0, 16), st.integers(-1, 40))),
    st.tuples(st.just("resize"), some_buf, st.one_of(st.integers(0, 16), st.integers(-1, 40))),
    st.tuples(st.just("set"), some_view, place, number),
    st.tuples(st.just("set"), some_view, place, number),
    st.tuples(st.just("dvset"), some_view, st.integers(0, len(DV_NAMES) - 1), place, number, st.sampled_from([None, False, True, 1, 0])),
    st.tuples(st.just("dvget"), some_view, st.integers(0, len(DV_NAMES) - 1), place, st.sampled_from([None, False, True, 1, 0])),
    st.tuples(st.just("raw"), some_buf, st.integers(0, 24), st.integers(0, 255)),
    st.tuples(st.just("both"), some_view, some_view, st.integers(0, 3), number),
    st.tuples(st.just("inside"), some_view, st.integers(0, 24)),
    st.tuples(st.just("fail"), some_view),
    st.tuples(st.just("close"), some_buf),
    st.tuples(st.just("clone")),
    st.tuples(st.just("equal"), some_view, some_view),
)
history = st.tuples(
    st.lists(new_buf, min_size=1, max_size=3).map(tuple),
    st.lists(view_op, min_size=1, max_size=3).map(tuple),
    st.lists(op, min_size=1, max_size=10).map(tuple),
)


def make_buffer(n: tuple) -> tuple[Any, Buf]:
    from v8serialize.jstypes import JSArrayBuffer, JSArrayBufferTransfer, JSSharedArrayBuffer

    kind, data = n[0], n[1]
    if kind == "ab":
        _, _, extra, mode, form = n
        source: Any = [bytes, bytearray, memoryview][form](data)
        mx = None if extra is None else len(data) + extra
        if mx is not None:
            o = JSArrayBuffer(source, max_byte_length=mx)
            m = Buf("ab", data, mx, True, False)
        elif mode == 2:
            o = JSArrayBuffer(source, resizable=True)
            m = Buf("ab", data, len(data), True, False)
        else:
            o = JSArrayBuffer(source, readonly=bool(mode))
            m = Buf("ab", data, len(data), False, bool(mode))
        # The data was copied
        if form == 1 and source:
            source[0] ^= 255
        return o, m
    if kind == "bytearray":
        return bytearray(data), Buf(kind, data, 0, True, False)
    if kind == "bytes":
        return bytes(bytearray(data)), Buf(kind, data, 0, False, True)
    if kind == "mv":
        return memoryview(bytearray(data)), Buf(kind, data, 0, False, False)
    if kind == "mvH":
        data = data[: len(data) & ~1]
        return memoryview(array.array("H", data)), Buf(kind, data, 0, False, False)
    if kind == "shared":
        source = bytearray(data)
        return JSArrayBuffer(source, copy_data=False), Buf("ab", data, len(data), False, False).wraps(source)
    if kind == "sharedrs":
        source = bytearray(data)
        mx = len(data) + len(data) % 3 * 5
        return JSArrayBuffer(source, max_byte_length=mx, copy_data=False), Buf("ab", data, mx, True, False).wraps(source)
    if kind == "sharedro":
        source = bytearray(data)
        return JSArrayBuffer(source, copy_data=False, readonly=True), Buf("ab", data, len(data), False, True).wraps(source, True)
    if kind == "sharedmv":
        source = bytearray(data)
        with memoryview(source) as mv:
            return JSArrayBuffer(mv, copy_data=False), Buf("ab", data, len(data), False, False).wraps(source, True)
    if kind == "length":
        k = len(data)
        return JSArrayBuffer(byte_length=k, max_byte_length=k + 8), Buf("ab", bytes(k), k + 8, True, False)
    cls = JSSharedArrayBuffer if kind == "sab" else JSArrayBufferTransfer
    return cls(3), Buf(kind, b"", 0, False, True)  # type: ignore[arg-type]


def creation_error(b: Buf, size: int, off: int, length: int | None) -> str | None:
    """What JavaScript's constructors refuse: offsets in bytes."""
    if off % size or (length is not None and length % size):
        return "item size"
    if off < 0 or (length is not None and length < 0):
        return "negative"
    if b.kind in ("sab", "abt"):
        return None
    total = len(b.data)
    if length is None:
        if not b.resizable and total % size:
            return "bounds"
        return "bounds" if off > total else None
    return "bounds" if off + length > total else None


def fit(off: int, length: int | None, size: int, total: int) -> tuple[int, int | None]:
    """The offset and length (in items) of a view that is in range."""
    items = total // size
    off = off % (items + 1)
    return off, None if length is None else length % (items - off + 1)


def placed(at: int, n: int) -> int:
    return at if at < 1000 else (at - 1000) % max(n, 1)


def pack(fmt: str, x: Any) -> bytes | None:
    """The bytes of an element, or None if it has none."""
    if isinstance(x, float) and fmt[-1] not in "efd":
        return None
    try:
        return struct.pack(fmt, x)
    except (struct.error, OverflowError):
        return None


def overflows(fmt: str, x: Any) -> bytes | None:
    """The infinity which a finite number may become."""
    c = fmt[-1]
    if c not in "ef" or (isinstance(x, float) and not math.isfinite(x)):
        return None
    return struct.pack(fmt, math.copysign(math.inf, x))


def run_history(x: tuple, s: Stats) -> None:
    from v8serialize import SerializationFeature, dumps, loads
    from v8serialize.constants import ArrayBufferViewTag
    from v8serialize.jstypes import (
        ArrayBufferViewStructFormat,
        BoundsJSArrayBufferError,
        ByteLengthJSArrayBufferError,
        ItemSizeJSArrayBufferError,
        create_view,
    )
    from v8serialize import jstypes

    made, first, ops = x
    objs: list = []
    bufs: list[Buf] = []
    views: list = []
    model: list[View] = []
    for n in made:
        o, m = make_buffer(n)
        objs.append(o)
        bufs.append(m)
    compare(objs, views, bufs, model, "at first")
    useful = False

    for step, op in enumerate((*first, *ops)):
        what = f"after step {step} {op}"
        name = op[0]
        if name in ("set", "dvset", "dvget", "both", "inside", "fail", "equal"):
            if not views:
                continue
            v = op[1] % len(views)
            view, m = views[v], model[v]
        if name == "view":
            _, b, tag, off, length, ro, via, odd = op
            b %= len(bufs)
            size = gens.VIEW_SIZES[tag]
            cls = getattr(jstypes, "JS" + tag)
            if odd == "fit":
                off, length = fit(off, length, size, len(bufs[b].data))
                odd = 0
            if via == 0:
                # The constructor counts items, and allows what's out of range
                err: Any = "negative" if off < 0 or (length is not None and length < 0) else None
                off, length = off * size, None if length is None else length * size
                f = lambda: cls(objs[b], off // size, None if length is None else length // size, ro)  # noqa: E731
            else:
                off = off * size + odd
                length = None if length is None else length * size + (odd if step % 2 else 0)
                err = creation_error(bufs[b], size, off, length)
                kw: dict = {"byte_offset": off, "byte_length": length, "readonly": ro}
                if via == 1:
                    f = lambda: cls.from_bytes(objs[b], **kw)  # noqa: E731
                elif via == 2:
                    f = lambda: create_view(objs[b], ArrayBufferViewTag["k" + tag], **kw)  # noqa: E731
                else:
                    f = lambda: create_view(objs[b], ArrayBufferViewStructFormat[tag], **kw)  # noqa: E731
            exc = {None: (), "item size": ItemSizeJSArrayBufferError, "bounds": BoundsJSArrayBufferError, "negative": ValueError}[err]
            try:
                got = f()
            except exc:
                s.label(f"create:{err}")
                continue
            check(err is None, lambda: f"{what}: was created, but should be refused ({err})")
            check(type(got) is cls, lambda: f"{what}: made a {type(got)}")
            check(got.backing_buffer is objs[b], "another buffer")
            views.append(got)
            model.append(View(bufs[b], b, tag, off // size, None if length is None else length // size, bool(ro)))
            s.label(f"view:{tag}", f"on:{bufs[b].kind}")
        elif name == "resize":
            b = op[1] % len(bufs)
            m2, n = bufs[b], op[2]
            before = [w.range() for w in model]
            if m2.kind == "bytearray":
                if n < 0:
                    continue
                if n > len(objs[b]):
                    objs[b].extend(bytes(n - len(objs[b])))
                else:
                    del objs[b][n:]
            elif m2.kind != "ab":
                continue
            else:
                ok = m2.resizable and 0 <= n <= m2.max
                try:
                    objs[b].resize(n)
                except ByteLengthJSArrayBufferError:
                    check(not ok, lambda: f"{what}: refused")
                    s.label("resize:refused")
                    compare(objs, views, bufs, model, what)
                    continue
                check(ok, lambda: f"{what}: was resized, but that should be refused")
            if n < len(m2.data):
                del m2.data[n:]
            else:
                m2.data.extend(bytes(n - len(m2.data)))
            if [w.range() for w in model] != before:
                useful = True
                s.label("resize:changes a view")
        elif name == "set":
            _, _, at, val = op
            at = placed(at, m.range()[2] // m.size)
            if m.tag == "DataView":
                continue
            fmt = "<" + FMT[m.tag]
            ok, start, size_ = m.range()
            n = size_ // m.size
            data = pack(fmt, val)
            allowed = m.readonly is False and -n <= at < n and data is not None
            alternative = overflows(fmt, val) if not m.readonly and -n <= at < n and data is None else None
            where = start + (at % n) * m.size if n else 0
            try:
                with view.get_buffer() as mv:
                    mv[at] = val
            except (IndexError, ValueError, TypeError, OverflowError) as e:
                check(not allowed, lambda: f"{what}: failed with {e!r}")
                s.label("set:refused")
            else:
                check(allowed or alternative is not None, lambda: f"{what}: should be refused")
                bufs[m.b].data[where : where + m.size] = data if data is not None else alternative  # type: ignore[assignment]
                s.label("set:written")
                if sum(w.b == m.b for w in model) > 1:
                    useful = True
        elif name in ("dvset", "dvget"):
            dvs = [k for k in range(len(views)) if model[k].tag == "DataView"]
            if not dvs:
                continue
            v = dvs[op[1] % len(dvs)]
            view, m = views[v], model[v]
            kind = DV_NAMES[op[2]]
            little = op[-1]
            fmt = ("<" if little else ">") + DV[kind]
            at = placed(op[3], m.range()[2] - struct.calcsize(fmt) + 1)
            args = [] if little is None or kind.endswith("int8") else [little]
            width = struct.calcsize(fmt)
            _, start, n = m.range()
            inside = 0 <= at and at + width <= n
            if name == "dvget":
                try:
                    with view.get_buffer() as data_view:
                        got = getattr(data_view, "get_" + kind)(at, *args)
                except BoundsJSArrayBufferError:
                    check(not inside, lambda: f"{what}: refused")
                    s.label("dvget:refused")
                    continue
                check(inside, lambda: f"{what}: read {got}, but should be refused")
                exp = struct.unpack_from(fmt, m.bytes(), at)[0]
                check(eq_numbers([got], [exp]), lambda: f"{what}: read {got!r}, expected {exp!r}")
                s.label("dvget:read")
                continue
            data = pack(fmt, op[4])
            alternative = overflows(fmt, op[4]) if data is None and inside and not m.readonly else None
            try:
                with view.get_buffer() as data_view:
                    getattr(data_view, "set_" + kind)(at, op[4], *args)
            except BoundsJSArrayBufferError:
                check(not inside, lambda: f"{what}: refused")
                s.label("dvset:refused")
            except (struct.error, TypeError, OverflowError, ValueError) as e:
                check(inside and (data is None or m.readonly), lambda: f"{what}: failed with {e!r}")
                s.label("dvset:refused value")
            else:
                check(inside and not m.readonly and (data or alternative), lambda: f"{what}: should be refused")
                bufs[m.b].data[start + at : start + at + width] = data or alternative  # type: ignore[assignment]
                s.label("dvset:written")
                if sum(w.b == m.b for w in model) > 1:
                    useful = True
        elif name == "raw":
            b = op[1] % len(bufs)
            m2 = bufs[b]
            if m2.source is not None and op[2] < len(m2.data):
                # Written by someone else
                m2.source[op[2]] = m2.data[op[2]] = op[3]
                continue
            if m2.readonly or m2.kind in ("sab", "abt") or op[2] >= len(m2.data):
                continue
            with memoryview(objs[b].data if m2.kind == "ab" else objs[b]).cast("B") as mv:
                mv[op[2]] = op[3]
            m2.data[op[2]] = op[3]
        elif name == "both":
            # Two views in use at once
            w = op[2] % len(views)
            other, m2 = views[w], model[w]
            with view.get_buffer() as a, other.get_buffer() as c:
                data = pack("<" + FMT[m.tag], op[4])
                if m.tag != "DataView" and not m.readonly and data is not None and op[3] < len(a):
                    a[op[3]] = op[4]
                    _, start, _ = m.range()
                    bufs[m.b].data[start + op[3] * m.size :][: m.size]
                    bufs[m.b].data[start + op[3] * m.size : start + op[3] * m.size + m.size] = data
                    got = bytes(c.buffer) if m2.tag == "DataView" else c.tolist()
                    exp2: Any = m2.bytes() if m2.tag == "DataView" else m2.values()
                    check(
                        got == exp2 if m2.tag == "DataView" else eq_numbers(got, exp2),  # type: ignore[arg-type]
                        lambda: f"{what}: the other view sees {got}, expected {exp2}",
                    )
        elif name == "inside":
            # A buffer can't be resized while its memory is in use (or can it?)
            m2 = bufs[m.b]
            n = op[2]
            if m2.kind != "ab" or not m2.resizable or n > m2.max:
                continue
            with view.get_buffer():
                try:
                    objs[m.b].resize(n)
                except BufferError:
                    s.label("inside:refused")
                    continue
            if n < len(m2.data):
                del m2.data[n:]
            else:
                m2.data.extend(bytes(n - len(m2.data)))
        elif name == "fail":
            # An exception while a view is in use changes nothing
            try:
                with view.get_buffer():
                    raise KeyError("stop")
            except KeyError:
                pass
            else:
                violated(f"{what}: the exception was lost")
        elif name == "close":
            # This only concerns buffers that wrap a memoryview
            b = op[1] % len(bufs)
            if bufs[b].kind == "ab" and not bufs[b].released_by_close:
                with objs[b] as entered:
                    check(entered is objs[b], "another buffer")
        elif name == "clone":
            if not all(m.kind == "ab" and not m.readonly for m in bufs) or not all(w.range()[0] for w in model):
                continue
            if any(w.ro for w in model):
                continue
            feats = SerializationFeature.ResizableArrayBuffers | SerializationFeature.Float16Array
            out = loads(dumps([objs, views], features=feats))
            objs = list(out[0].values())
            views = list(out[1].values())
            for m2 in bufs:
                m2.source, m2.released_by_close = None, False
            for w in model:
                if w.length is None and not w.buf.resizable:
                    w.length = (len(w.buf.data) - w.off * w.size) // w.size
            check(all(w.backing_buffer is objs[k.b] for w, k in zip(views, model)), f"{what}: other buffers")
            s.label("clone")
        else:
            other = op[2] % len(views)
            a, c = model[v], model[other]
            if "DataView" in (a.tag, c.tag) and a.tag != c.tag:
                continue
            exp = a.values() == c.values()
            got = view == views[other]
            if v == other:
                exp = True
            check(got is exp, lambda: f"{what}: == gives {got!r}, expected {exp}")
            check((view != views[other]) is (not exp), f"{what}: != doesn't agree")
        compare(objs, views, bufs, model, what)
    s.nontrivial(useful)


# ------------------------------------------------------------- with Node.js

JS_TAGS = [t for t in TAGS if t != "Float16Array"]
js_int = st.integers(0, 255)
js_view = st.tuples(
    st.just("view"),
    st.integers(0, 1),
    st.one_of(st.sampled_from(JS_TAGS), st.sampled_from(JS_TAGS), st.just("DataView")),
    st.one_of(st.integers(0, 3), st.integers(0, 20)),
    st.one_of(st.none(), st.integers(0, 8), st.integers(0, 20)),
    st.sampled_from(["fit", "fit", "fit", "fit", 0, 0, 1]),
)
js_ops = st.one_of(
    js_view,
    js_view,
    st.tuples(st.just("resize"), st.integers(0, 1), st.integers(0, 32)),
    st.tuples(st.just("resize"), st.integers(0, 1), st.integers(0, 16)),
    st.tuples(st.just("set"), some_view, js_place, number),
    st.tuples(st.just("set"), some_view, js_place, number),
    st.tuples(st.just("dvset"), some_view, st.integers(0, len(DV_NAMES) - 1), js_place, number, st.booleans()),
    st.tuples(st.just("dvget"), some_view, st.integers(0, len(DV_NAMES) - 1), js_place, st.booleans()),
)
js_history = st.tuples(
    st.lists(st.tuples(blob, st.one_of(st.none(), st.integers(0, 16), st.integers(0, 16))), min_size=1, max_size=2).map(tuple),
    st.tuples(st.lists(js_view, min_size=1, max_size=3), st.lists(js_ops, min_size=1, max_size=10)).map(lambda x: (*x[0], *x[1])),
)


def js_value(big: bool, x: Any) -> list:
    if big:
        return ["i", str(x)]
    return d(float(x))


def show(x: Any, big: bool) -> Any:
    return str(x) if big else d(float(x))[1]


def run_node(x: tuple, s: Stats) -> None:
    from v8serialize import jstypes
    from v8serialize.jstypes import (
        BoundsJSArrayBufferError,
        ByteLengthJSArrayBufferError,
        ItemSizeJSArrayBufferError,
        JSArrayBuffer,
    )

    made, ops = x
    bufs: list = []
    views: list = []
    tags: list[str] = []
    script: list = []
    results: list = []

    def state() -> list:
        out = []
        for v, tag in zip(views, tags):
            with v.get_buffer() as data:
                els = None if tag == "DataView" else [show(e, "Big" in tag) for e in data.tolist()]
            out.append([v.byte_offset, v.byte_length, els])
        return [[bytes(b).hex() for b in bufs], out]

    for data, extra in made:
        mx = None if extra is None else len(data) + extra
        bufs.append(JSArrayBuffer(data, max_byte_length=mx))
        script.append(["buf", data.hex(), mx])
        results.append([None, state()])
    changed = False
    for op in ops:
        # JavaScript has one NaN
        op = tuple(math.nan if e != e else e for e in op)
        res: Any = None
        name = op[0]
        if name == "view":
            _, b, tag, off, length, odd = op
            b %= len(bufs)
            size = gens.VIEW_SIZES[tag]
            if odd == "fit":
                off, length = fit(off, length, size, len(bytes(bufs[b])))
                odd = 0
            off = off * size + odd
            script.append(["view", b, tag, off, length])
            cls = getattr(jstypes, "JS" + tag)
            try:
                v = cls.from_bytes(bufs[b], byte_offset=off, byte_length=None if length is None else length * size)
            except (BoundsJSArrayBufferError, ItemSizeJSArrayBufferError):
                res = "error"
            else:
                views.append(v)
                tags.append(tag)
        elif name == "resize":
            b = op[1] % len(bufs)
            script.append(["resize", b, op[2]])
            try:
                bufs[b].resize(op[2])
                changed = changed or bool(views)
            except ByteLengthJSArrayBufferError:
                res = "error"
        elif not views:
            continue
        elif name == "set":
            v = op[1] % len(views)
            tag = tags[v]
            if tag == "DataView":
                continue
            if pack("<" + FMT[tag], op[3]) is None:  # JavaScript wraps, clamps, ...
                continue
            with views[v].get_buffer() as mv:
                at = placed(op[2], len(mv))
                script.append(["set", v, at, js_value("Big" in tag, op[3])])
                if at < len(mv):
                    mv[at] = op[3]
        else:
            dvs = [k for k, t in enumerate(tags) if t == "DataView"]
            kind = DV_NAMES[op[2]]
            if not dvs or kind == "float16":
                continue
            v = dvs[op[1] % len(dvs)]
            js_kind = JS_DV.get(kind, kind.capitalize())
            args = [] if kind.endswith("int8") else [op[-1]]
            try:
                with views[v].get_buffer() as mv:
                    at = placed(op[3], len(mv) - struct.calcsize("<" + DV[kind]) + 1)
                    if name == "dvget":
                        script.append(["dvget", v, js_kind, at, op[4]])
                        res = show(getattr(mv, "get_" + kind)(at, *args), "big" in kind)
                    else:
                        if pack("<" + DV[kind], op[4]) is None:
                            continue
                        script.append(["dvset", v, js_kind, at, js_value("big" in kind, op[4]), op[5]])
                        getattr(mv, "set_" + kind)(at, op[4], *args)
            except BoundsJSArrayBufferError:
                res = "error"
        s.label(f"{name}:{'error' if res == 'error' else 'ok'}")
        results.append([res, state()])
    out = bridge.call("bufs", ops=script)["out"]
    check(len(out) == len(results), "harness: lengths differ")
    for op, js, py in zip(script, out, results):
        check(js == py, lambda: f"after {op}: V8 has {js}, the library {py}")
    s.nontrivial(changed or len(views) > 1)


# ----------------------------------------------------------- making buffers


def run_create(x: tuple, s: Stats) -> None:
    """The arguments of JSArrayBuffer."""
    from v8serialize.jstypes import ByteLengthJSArrayBufferError, JSArrayBuffer

    form, data, by_length, max_, resizable, copy, readonly = x
    kw: dict = {}
    source: Any = None
    if by_length:
        args: list = [len(data)] if form % 2 else []
        if not form % 2:
            kw["byte_length"] = len(data)
        content = bytes(len(data))
    else:
        source = [bytes(bytearray(data)), bytearray(data), memoryview(bytearray(data)), array.array("B", data)][form]
        args = [source]
        content = data
    for k, v in (("max_byte_length", max_), ("resizable", resizable), ("copy_data", copy), ("readonly", readonly)):
        if v is not None:
            kw[k] = v
    can_resize = bool(resizable) or max_ is not None
    limit = len(content) if max_ is None else max_
    wraps = copy is False and not by_length
    errors: list = []
    if can_resize and readonly:
        errors.append(ValueError)
    if wraps and can_resize and form != 1:
        errors.append(ValueError)
    if len(content) > limit:
        errors.append(ByteLengthJSArrayBufferError)
    try:
        b = JSArrayBuffer(*args, **kw)
    except ValueError as e:
        check(any(isinstance(e, t) for t in errors), lambda: f"failed with {e!r}, expected {errors}")
        s.label("refused")
        return
    check(not errors, lambda: f"was made, expected {errors}")
    with b.data as mv:
        check(mv.tobytes() == content, lambda: f"has {mv.tobytes().hex()}")
        ro = bool(readonly) or (wraps and form == 0)
        check(mv.readonly is ro, lambda: f"readonly is {mv.readonly}, expected {ro}")
    check(b.max_byte_length == limit and b.resizable is can_resize, lambda: f"limits {b.max_byte_length}, {b.resizable}")
    if source is not None and form != 0 and data:
        if isinstance(source, memoryview):
            source[0] ^= 255
        else:
            source[0] ^= 255
        exp = bytes(source) if wraps else content
        check(bytes(b) == exp, lambda: f"is {bytes(b).hex()} after the source changed, expected {exp.hex()}")
    if isinstance(source, memoryview):
        source.release()  # doesn't take the buffer's data away
        check(len(bytes(b)) == len(content), "lost its data")
    elif source is not None:
        before = bytes(b)
        with b as entered:
            check(entered is b and bytes(b) == before, "with: another buffer")
        if not wraps or isinstance(source, bytes):
            check(bytes(b) == before, "closing loses the data")
        check(len(source) == len(data), "closing changes the source")
    s.nontrivial(bool(kw) and bool(data))
    s.label("made")


def run_backport(x: tuple, s: Stats) -> None:
    """The Float16Array for Pythons whose memoryview can't do it."""
    from v8serialize.jstypes import jsbuffers

    cls = getattr(jsbuffers, "BackportJSFloat16Array", None)
    if cls is None:
        return
    data, off, length, writes, ro, fails = x
    buf = bytearray(data)
    off, length = fit(off, length, 2, len(data))
    end = len(data) & ~1 if length is None else (off + length) * 2
    view = cls(buf, off, length, ro)
    exp = list(struct.unpack(f"<{end // 2 - off}e", data[off * 2 : end]))
    if any(e != e for e in exp):
        return  # a NaN's payload may change
    want = bytearray(data)
    try:
        with view.get_buffer() as mv:
            check(eq_numbers(mv.tolist(), exp), lambda: f"reads {mv.tolist()}, expected {exp}")
            check(mv.readonly is bool(ro), "readonly")
            for at, val in writes:
                if not exp or ro:
                    break
                at %= len(exp)
                mv[at] = val
                want[off * 2 + at * 2 :][:2]
                want[off * 2 + at * 2 : off * 2 + at * 2 + 2] = struct.pack("<e", mv[at])
                s.nontrivial(True)
            if fails:
                raise KeyError
    except KeyError:
        check(fails, "raised")
        check(buf in (want, data), lambda: f"is {buf.hex()} after an exception")
        return
    check(buf == want, lambda: f"is {buf.hex()}, expected {want.hex()}")
    buf.append(0)  # its memory isn't held any more


KINDS = {"b": ("SignedInt", 1), "B": ("UnsignedInt", 1), "h": ("SignedInt", 2), "H": ("UnsignedInt", 2), "i": ("SignedInt", 4), "I": ("UnsignedInt", 4), "e": ("Float", 2), "f": ("Float", 4), "d": ("Float", 8), "q": ("SignedInt", 8), "Q": ("UnsignedInt", 8)}


def run_formats(x: tuple, s: Stats) -> None:
    """Finding view types and data formats by tag, type and size."""
    from v8serialize import jstypes
    from v8serialize.constants import ArrayBufferViewTag
    from v8serialize.jstypes import create_view
    from v8serialize.jstypes.jsbuffers import ArrayBufferViewStructFormat, DataFormat, DataType

    by, tag_n, kind, size, data, off, length = x
    if by < 2:
        name = TAGS[tag_n]
        tag: Any = ArrayBufferViewTag["k" + name]
        cls = getattr(jstypes, "JS" + name)
        check(cls.view_tag is tag, lambda: f"JS{name}.view_tag is {cls.view_tag}")
        found = ArrayBufferViewStructFormat(tag)
        check(found.view_type is cls and found.view_tag is tag, lambda: f"{tag!r} is {found!r}")
        check(ArrayBufferViewStructFormat(found) is found, "by itself")
        fmt = tag if by == 0 else found
        names, want = [name], FMT[name]
    else:
        exists = kind == "Bytes" and size == 1 or (kind, size) in KINDS.values()
        try:
            fmt = DataFormat.resolve(data_type=DataType[kind], byte_length=size)
        except ValueError:
            check(not exists, lambda: f"no {kind} of {size} bytes")
            s.label("no such format")
            return
        check(exists, lambda: f"{kind} of {size} bytes is {fmt!r}")
        check(fmt.byte_length == size and fmt.data_type is DataType[kind], lambda: f"{kind} of {size} bytes is {fmt!r}")
        check(struct.calcsize(fmt.format) == size, lambda: f"{fmt!r} has {struct.calcsize(fmt.format)} bytes")
        if kind == "Bytes":
            names, want = ["DataView"], "B"
        else:
            want = next(f for f, k in KINDS.items() if k == (kind, size))
            raw = (data * 8 + bytes(8))[:size]
            check(eq_numbers([struct.unpack("<" + want, raw)[0]], [struct.unpack(fmt.format, raw)[0]]), lambda: f"{fmt!r} reads differently")
            names = [n for n, f in FMT.items() if f == want and n != "DataView"]
        found = ArrayBufferViewStructFormat(fmt)
        check(found.view_type in [getattr(jstypes, "JS" + n) for n in names], lambda: f"{fmt!r} is {found!r}")
        if by == 3:
            fmt = found
    n = struct.calcsize(want)
    data = (data * n)[: len(data) // n * n]
    off = off * n if off * n <= len(data) else 0
    length = None if length is None or off + length * n > len(data) else length * n
    kw = {} if length is None else {"byte_length": length}
    view = create_view(jstypes.JSArrayBuffer(data), fmt, byte_offset=off, **kw)
    check(type(view) in [getattr(jstypes, "JS" + n) for n in names], lambda: f"create_view({fmt!r}) is a {type(view)}")
    check(view.byte_offset == off, lambda: f"is at {view.byte_offset}, expected {off}")
    shown = data[off:] if length is None else data[off : off + length]
    with view.get_buffer() as mv:
        got = bytes(mv) if names == ["DataView"] else mv.tolist()
    exp = shown if names == ["DataView"] else list(struct.unpack(f"<{len(shown) // n}{want}", shown))
    check(got == exp if names == ["DataView"] else eq_numbers(got, exp), lambda: f"shows {got!r}, expected {exp!r}")
    s.nontrivial(bool(shown))


CASES = [
    Case(
        "formats",
        run_formats,
        lambda: st.tuples(
            st.integers(0, 3),
            st.integers(0, len(TAGS) - 1),
            st.sampled_from(["SignedInt", "UnsignedInt", "Float", "Bytes"]),
            st.one_of(st.sampled_from([1, 2, 4, 8]), st.integers(0, 17)),
            st.binary(max_size=17),
            st.integers(0, 3),
            st.one_of(st.none(), st.integers(0, 3)),
        ),
        quick=2500,
        thorough=40_000,
    ),
    Case(
        "backport",
        run_backport,
        lambda: st.tuples(
            blob,
            st.integers(0, 12),
            st.one_of(st.none(), st.integers(0, 12)),
            st.lists(st.tuples(st.integers(0, 12), st.sampled_from([0.0, 1.0, -2.5, 65504.0, 6e-8, -0.0, math.inf, 0.1])), max_size=3).map(tuple),
            st.sampled_from([None, None, True]),
            st.sampled_from([False, False, False, True]),
        ),
        quick=800,
        thorough=20_000,
    ),
    Case("history", run_history, lambda: history, quick=20_000, thorough=400_000),
    Case("node", run_node, lambda: js_history, quick=4000, thorough=60_000),
    Case(
        "create",
        run_create,
        lambda: st.tuples(
            st.integers(0, 3),
            st.binary(max_size=9),
            st.sampled_from([False, False, True]),
            st.one_of(st.none(), st.integers(0, 16)),
            st.sampled_from([None, None, False, True]),
            st.sampled_from([None, True, False, False]),
            st.sampled_from([None, None, False, True]),
        ),
        quick=2500,
        thorough=60_000,
    ),
]
