"""An independent reader and writer of the V8 serialization format.

Written from V8's value-serializer.cc, without the library's help.  The reader
turns bytes into a graph (see graph.py), notes what constructs were used and
rejects anything that isn't well formed.  The writer turns a graph into bytes,
making the choices the format leaves open as told by a choice function.
"""

from __future__ import annotations

import struct
from dataclasses import dataclass, field
from typing import Any, Callable

from .graph import d, digits, undouble, utf16

FLAG_BITS = {"g": 1, "i": 2, "m": 4, "y": 8, "u": 16, "s": 32, "l": 64, "d": 128, "v": 256}
VIEW_TAGS = {
    "b": ("Int8Array", 1), "B": ("Uint8Array", 1), "C": ("Uint8ClampedArray", 1),
    "w": ("Int16Array", 2), "W": ("Uint16Array", 2), "d": ("Int32Array", 4),
    "D": ("Uint32Array", 4), "h": ("Float16Array", 2), "f": ("Float32Array", 4),
    "F": ("Float64Array", 8), "q": ("BigInt64Array", 8), "Q": ("BigUint64Array", 8),
    "?": ("DataView", 1),
}  # fmt: skip
TAG_OF_VIEW = {name: (tag, size) for tag, (name, size) in VIEW_TAGS.items()}
ERROR_PROTOS = {
    "E": "EvalError", "R": "RangeError", "F": "ReferenceError",
    "S": "SyntaxError", "T": "TypeError", "U": "URIError",
}  # fmt: skip
TAG_OF_ERROR = {name: tag for tag, name in ERROR_PROTOS.items()}
# Node.js's numbering of view types in host objects
NODE_VIEWS = [
    "Int8Array", "Uint8Array", "Uint8ClampedArray", "Int16Array", "Uint16Array",
    "Int32Array", "Uint32Array", "Float32Array", "Float64Array", "DataView",
    "FastBuffer", "BigInt64Array", "BigUint64Array",
]  # fmt: skip


def js_number(x: float) -> str:
    """JavaScript's Number::toString (ECMA-262 6.1.6.1.20), radix 10."""
    if x != x:
        return "NaN"
    if x in (float("inf"), float("-inf")):
        return "Infinity" if x > 0 else "-Infinity"
    if x == 0:
        return "0"
    sign = "-" if x < 0 else ""
    mantissa, exp = f"{abs(x)!r}e0".split("e")[:2]
    whole, _, frac = mantissa.partition(".")
    ds = (whole + frac).lstrip("0")
    n = int(exp) + len(whole) - (len(whole + frac) - len(ds)) if whole.strip("0") == "" else int(exp) + len(whole)
    ds = ds.rstrip("0")
    k = len(ds)
    if k <= n <= 21:
        return sign + ds + "0" * (n - k)
    if 0 < n <= 21:
        return sign + ds[:n] + "." + ds[n:]
    if -6 < n <= 0:
        return sign + "0." + "0" * -n + ds
    e = ("+" if n > 0 else "-") + str(abs(n - 1))
    return sign + ds[0] + ("." + ds[1:] if k > 1 else "") + "e" + e


class Malformed(Exception):
    pass


@dataclass
class Reader:
    data: bytes
    pos: int = 0
    version: int = 15
    nodes: list[list] = field(default_factory=list)
    uses: set[str] = field(default_factory=set)
    open_errors: set[int] = field(default_factory=set)
    boundaries: list[int] = field(default_factory=list)
    host: bool = False  # whether host objects are Node.js views
    depth: int = 0
    overlong: bool = False  # whether a varint has more bytes than any of 32 bits needs

    # -- elements

    def need(self, n: int) -> bytes:
        if n < 0 or self.pos + n > len(self.data):
            raise Malformed(f"{n} bytes wanted at {self.pos}, {len(self.data) - self.pos} left")
        out = self.data[self.pos : self.pos + n]
        self.pos += n
        return out

    def byte(self) -> int:
        return self.need(1)[0]

    def varint(self, bits: int = 32) -> int:
        v = shift = 0
        while True:
            b = self.byte()
            v |= (b & 0x7F) << shift
            if b < 0x80:
                break
            shift += 7
        self.overlong |= shift > 28
        if v >= 1 << bits:
            raise Malformed(f"varint {v:#x} does not fit {bits} bits")
        return v

    def double(self) -> float:
        return struct.unpack("<d", self.need(8))[0]

    def peek(self) -> str | None:
        """Skip padding and return the next tag, without consuming it."""
        while self.pos < len(self.data) and self.data[self.pos] == 0:
            self.pos += 1
        return chr(self.data[self.pos]) if self.pos < len(self.data) else None

    def tag(self) -> str:
        t = self.peek()
        if t is None:
            raise Malformed("a tag is missing")
        self.boundaries.append(self.pos)
        self.pos += 1
        return t

    def header(self) -> None:
        if self.byte() != 0xFF:
            raise Malformed("no header")
        self.version = self.varint()
        if not 13 <= self.version <= 15:
            raise Malformed(f"version {self.version}")

    def str_body(self, t: str) -> str:
        n = self.varint()
        if t == '"':
            return self.need(n).decode("latin-1")
        if t == "c":
            if n % 2:
                raise Malformed("odd two-byte string length")
            if self.pos % 2:
                raise Malformed("two-byte string data is not aligned")
            return self.need(n).decode("utf-16-le", "surrogatepass")
        if t == "S":
            try:
                return self.need(n).decode("utf-8")
            except UnicodeDecodeError as e:
                raise Malformed("invalid UTF-8") from e
        raise Malformed(f"{t!r} is not a string tag")

    def string(self) -> str:
        return self.str_body(self.tag())

    def bigint(self) -> str:
        bits = self.varint()
        n = bits >> 1
        v = int.from_bytes(self.need(n), "little")
        if bits & 1 and v == 0:
            raise Malformed("negative zero BigInt")
        return digits(-v if bits & 1 else v)

    # -- values

    def new(self, *node: Any) -> list:
        self.nodes.append(list(node))
        return ["r", len(self.nodes) - 1]

    def value(self) -> list:
        self.depth += 1
        if self.depth > 400:
            raise Malformed("too deep for this reader")
        try:
            v = self._value()
            if v[0] == "r" and self.nodes[v[1]][0] in ("ab", "sab", "abt") and self.peek() == "V":
                self.tag()
                v = self.view(v)
            return v
        finally:
            self.depth -= 1

    def _value(self) -> list:
        t = self.tag()
        simple = {"_": ["u"], "0": ["n"], "T": ["t"], "F": ["f"]}
        if t in simple:
            return simple[t]
        if t == "I":
            z = self.varint()
            return d((z >> 1) ^ -(z & 1))
        if t == "U":
            return d(self.varint())
        if t == "N":
            return d(self.double())
        if t == "Z":
            return ["i", self.bigint()]
        if t in '"cS':
            return ["s", utf16(self.str_body(t))]
        if t == "^":
            i = self.varint()
            if i >= len(self.nodes):
                raise Malformed(f"reference to object {i} of {len(self.nodes)}")
            if i in self.open_errors:
                self.uses.add("CircularErrorCause")
            return ["r", i]
        if t == "?":
            self.varint()
            return self.value()
        if t == "o":
            r = self.new("obj", [])
            n = self.props(self.nodes[r[1]][1], "{")
            if self.varint() != n:
                raise Malformed("wrong number of properties")
            return r
        if t == "A":
            length = self.varint()
            if length > len(self.data) - self.pos:
                raise Malformed("array is longer than the data")
            r = self.new("arr", length, [], [])
            node = self.nodes[r[1]]
            for i in range(length):
                if self.peek() == "-":
                    self.tag()
                else:
                    node[2].append([i, self.value()])
            n = self.props(node[3], "$")
            if self.varint() != n or self.varint() != length:
                raise Malformed("wrong trailer of dense array")
            return r
        if t == "a":
            length = self.varint()
            r = self.new("arr", length, [], [])
            ps: list = []
            n = self.props(ps, "@")
            if self.varint() != n or self.varint() != length:
                raise Malformed("wrong trailer of sparse array")
            node = self.nodes[r[1]]
            for k, v in ps:
                if k.isascii() and k.isdigit() and len(k) <= 10 and str(int(k)) == k and int(k) < length:
                    node[2].append([int(k), v])
                else:
                    node[3].append([k, v])
            if [k for k, _ in node[2]] != sorted({k for k, _ in node[2]}):
                node[2] = [[k, v] for k, v in sorted(dict(map(tuple, node[2])).items())]
            return r
        if t == "D":
            return self.new("date", d(self.double())[1])
        if t in "yx":
            return self.new("prim", ["t"] if t == "y" else ["f"])
        if t == "n":
            return self.new("prim", d(self.double()))
        if t == "z":
            return self.new("prim", ["i", self.bigint()])
        if t == "s":
            return self.new("prim", ["s", utf16(self.string())])
        if t == "R":
            src = utf16(self.string())
            bits = self.varint()
            if bits >= 512:
                raise Malformed("unknown RegExp flags")
            fl = "".join(sorted(c for c, b in FLAG_BITS.items() if bits & b))
            if "v" in fl:
                self.uses.add("RegExpUnicodeSets")
                if "u" in fl:
                    raise Malformed("RegExp with flags u and v")
            return self.new("re", src, fl)
        if t == ";":
            r = self.new("map", [])
            es = self.nodes[r[1]][1]
            while self.peek() != ":":
                k = self.value()
                es.append([k, self.value()])
            self.tag()
            if self.varint() != 2 * len(es):
                raise Malformed("wrong Map length")
            return r
        if t == "'":
            r = self.new("set", [])
            ms = self.nodes[r[1]][1]
            while self.peek() != ",":
                ms.append(self.value())
            self.tag()
            if self.varint() != len(ms):
                raise Malformed("wrong Set length")
            return r
        if t == "B":
            n = self.varint()
            return self.new("ab", self.need(n).hex(), None)
        if t == "~":
            n, top = self.varint(), self.varint()
            if n > top:
                raise Malformed("buffer is longer than its maximum")
            self.uses.add("ResizableArrayBuffers")
            return self.new("ab", self.need(n).hex(), top)
        if t == "u":
            return self.new("sab", self.varint())
        if t == "t":
            return self.new("abt", self.varint())
        if t == "r":
            return self.error()
        if t == "\\" and self.host:
            return self.host_view()
        raise Malformed(f"unexpected tag {t!r} at {self.pos - 1}")

    def props(self, out: list, end: str) -> int:
        seen: dict[str, list] = {}
        n = 0
        while self.peek() != end:
            t = self.tag()
            if t == "I":
                z = self.varint()
                k = str((z >> 1) ^ -(z & 1))
            elif t == "U":
                k = str(self.varint())
            elif t == "N":
                x = self.double()
                k = js_number(x)
            else:
                k = utf16(self.str_body(t))
            if self.peek() == end:
                raise Malformed("property without a value")
            v = self.value()
            n += 1
            if k in seen:
                raise Malformed(f"repeated property {k!r}")
            seen[k] = [k, v]
            out.append(seen[k])
        self.tag()
        return n

    def view(self, buf: list) -> list:
        t = chr(self.byte())
        if t not in VIEW_TAGS:
            raise Malformed(f"unknown view type {t!r}")
        name, size = VIEW_TAGS[t]
        off, length = self.varint(), self.varint()
        flags = self.varint() if self.version >= 14 else 0
        node = self.nodes[buf[1]]
        if flags > 3:
            raise Malformed("unknown view flags")
        tracking, backed = bool(flags & 1), bool(flags & 2)
        resizable = node[0] == "ab" and node[2] is not None
        if node[0] == "ab":
            if backed != resizable or (tracking and not resizable):
                raise Malformed(f"view flags {flags} do not agree with its buffer")
        if flags:
            self.uses.add("ResizableArrayBuffers")
        if name == "Float16Array":
            self.uses.add("Float16Array")
        if off % size or (length % size and not tracking):
            raise Malformed("view is not aligned")
        if node[0] == "ab":
            have = len(node[1]) // 2
            if off > have or (not tracking and off + length > have):
                raise Malformed("view is out of bounds of its buffer")
            if tracking:
                length = (have - off) // size * size
        return self.new("view", name, buf, off, length, tracking)

    def host_view(self) -> list:
        kind = self.varint()
        if kind >= len(NODE_VIEWS):
            raise Malformed("unknown Node.js view type")
        n = self.varint()
        data = self.need(n)
        name = NODE_VIEWS[kind]
        r = self.new("view", "Uint8Array" if name == "FastBuffer" else name, None, 0, n, False)
        # The buffer has no identity of its own
        self.nodes[r[1]][2] = ["host", data.hex()]
        return r

    def error(self) -> list:
        r = self.new("err", "Error", None, None, None)
        i = r[1]
        node = self.nodes[i]
        seen = set()
        while True:
            t = chr(self.byte())
            if t == ".":
                break
            if t in ERROR_PROTOS:
                node[1] = ERROR_PROTOS[t]
                t = "proto"
            elif t == "m":
                node[2] = utf16(self.string())
            elif t == "s":
                node[3] = utf16(self.string())
            elif t == "c":
                self.open_errors.add(i)
                node[4] = self.value()
                self.open_errors.discard(i)
            else:
                raise Malformed(f"unknown error field {t!r}")
            if t in seen:
                raise Malformed(f"repeated error field {t}")
            seen.add(t)
        return r


def parse(data: bytes, *, host: bool = False) -> tuple[dict[str, Any], Reader]:
    r = Reader(bytes(data), host=host)
    r.header()
    root = r.value()
    if r.pos != len(r.data):
        raise Malformed(f"{len(r.data) - r.pos} bytes are left after the value")
    return {"root": root, "nodes": r.nodes}, r


Choose = Callable[[int], int]


class Writer:
    """Writes a graph, asking `choose(n)` (0..n-1) for each free choice.

    Choice 0 is what V8 itself would most likely do.
    """

    def __init__(self, graph: dict[str, Any], choose: Choose, version: int = 15, host: bool = False) -> None:
        self.host = host  # whether views are written as Node.js does
        self.g = graph["nodes"]
        self.root = graph["root"]
        self.choose = choose
        self.version = version
        self.out = bytearray()
        self.ids: dict[int, int] = {}
        self.features: set[str] = set()

    def varint(self, n: int) -> None:
        while n >= 0x80:
            self.out.append(n & 0x7F | 0x80)
            n >>= 7
        self.out.append(n)

    def pad(self) -> None:
        if self.choose(12) == 11:
            self.features.add("padding")
            self.out += b"\0" * (1 + self.choose(3))

    def tag(self, t: str) -> None:
        self.pad()
        self.out.append(ord(t))

    def write(self) -> bytes:
        self.out.append(0xFF)
        self.varint(self.version)
        self.value(self.root)
        return bytes(self.out)

    def string(self, s: str, keyed: bool = False) -> None:
        units = s.encode("utf-16-le", "surrogatepass")
        forms = ["c"]
        if all(ord(c) < 256 for c in s):
            forms.insert(0, '"')
        if not any(0xD800 <= ord(c) < 0xE000 for c in utf16(s)):
            forms.append("S")
        f = forms[self.choose(len(forms))]
        self.features.add("string " + f)
        if f == '"':
            self.tag(f)
            self.varint(len(s))
            self.out += s.encode("latin-1")
        elif f == "S":
            b = utf16(s).encode("utf-8")
            self.tag(f)
            self.varint(len(b))
            self.out += b
        else:
            self.pad()
            n = len(units)
            size = 1
            while n >> (7 * size):
                size += 1
            if (len(self.out) + 1 + size) % 2:
                self.out.append(0)
            self.out.append(ord("c"))
            self.varint(n)
            self.out += units

    def zigzag(self, n: int) -> None:
        self.varint((n << 1) if n >= 0 else ((-n << 1) - 1))

    def number(self, h: str) -> None:
        x = undouble(h)
        forms = ["N"]
        if x == x and abs(x) < 2**33 and x == int(x) and h != "8000000000000000":
            if -(2**31) <= x < 2**31:
                forms.append("I")
            if 0 <= x < 2**32:
                forms.append("U")
            forms.reverse()
        f = forms[self.choose(len(forms))]
        self.features.add("number " + f)
        self.tag(f)
        if f == "N":
            self.out += struct.pack("<d", x)
        elif f == "I":
            self.zigzag(int(x))
        else:
            self.varint(int(x))

    def bigint_body(self, text: str) -> None:
        v = int(text, 0)
        m = abs(v)
        n = (m.bit_length() + 7) // 8
        n = (n + 7) // 8 * 8 if self.choose(4) != 3 else n + self.choose(3)
        self.varint(n << 1 | (v < 0))
        self.out += m.to_bytes(n, "little")

    def value(self, v: list) -> None:
        t = v[0]
        if t in "untf":
            self.tag({"u": "_", "n": "0", "t": "T", "f": "F"}[t])
        elif t == "d":
            self.number(v[1])
        elif t == "i":
            self.tag("Z")
            self.bigint_body(v[1])
        elif t == "s":
            self.string(v[1])
        elif t == "r":
            self.node(v[1])
        else:
            raise AssertionError(v)

    def key(self, k: str) -> None:
        if k.isascii() and k.isdigit() and len(k) <= 10 and str(int(k)) == k and int(k) < 2**32 - 1:
            f = self.choose(4)
            if f == 3:
                self.features.add("index key as string")
                self.string(k)
            elif f == 2:
                self.number(d(int(k))[1])
            elif int(k) < 2**31:
                self.tag("I")
                self.zigzag(int(k))
            else:
                self.tag("U")
                self.varint(int(k))
        else:
            self.string(k)

    def props(self, ps: list) -> None:
        for k, v in ps:
            self.key(k)
            self.value(v)

    def node(self, i: int) -> None:
        n = self.g[i]
        t = n[0]
        if i in self.ids:
            self.features.add("reference")
            self.tag("^")
            self.varint(self.ids[i])
            return
        if t == "view" and self.host and n[1] in NODE_VIEWS and self.g[n[2][1]][0] == "ab":
            self.ids[i] = len(self.ids)
            self.host_view(n)
            return
        if t == "view":
            self.value_of_buffer(n)
            self.ids[i] = len(self.ids)
            self.view(n)
            return
        self.ids[i] = len(self.ids)
        if t == "obj":
            self.tag("o")
            self.props(n[1])
            self.tag("{")
            self.varint(len(n[1]))
        elif t == "arr":
            length = n[1]
            dense = length <= 60 and (self.choose(2) == 0)
            if dense:
                self.features.add("dense array")
                self.tag("A")
                self.varint(length)
                els = {k: v for k, v in n[2]}
                for k in range(length):
                    if k in els:
                        self.value(els[k])
                    else:
                        self.tag("-")
                self.props(n[3])
                self.tag("$")
                self.varint(len(n[3]))
            else:
                self.features.add("sparse array")
                self.tag("a")
                self.varint(length)
                ps = [[str(k), v] for k, v in n[2]]
                if self.choose(6) == 5:
                    self.features.add("sparse elements out of order")
                    ps.reverse()
                self.props(ps + n[3])
                self.tag("@")
                self.varint(len(n[2]) + len(n[3]))
            self.varint(length)
        elif t == "map":
            self.tag(";")
            for k, v in n[1]:
                self.value(k)
                self.value(v)
            self.tag(":")
            self.varint(2 * len(n[1]))
        elif t == "set":
            self.tag("'")
            for v in n[1]:
                self.value(v)
            self.tag(",")
            self.varint(len(n[1]))
        elif t == "date":
            self.tag("D")
            self.out += struct.pack("<d", undouble(n[1]))
        elif t == "prim":
            p = n[1]
            if p[0] in "tf":
                self.tag("y" if p[0] == "t" else "x")
            elif p[0] == "d":
                self.tag("n")
                self.out += struct.pack("<d", undouble(p[1]))
            elif p[0] == "i":
                self.tag("z")
                self.bigint_body(p[1])
            else:
                self.tag("s")
                self.string(p[1])
        elif t == "re":
            self.tag("R")
            self.string(n[1])
            self.varint(sum(FLAG_BITS[c] for c in n[2]))
        elif t == "ab":
            data = bytes.fromhex(n[1])
            self.tag("B" if n[2] is None else "~")
            self.varint(len(data))
            if n[2] is not None:
                self.varint(n[2])
            self.out += data
        elif t == "sab":
            self.tag("u")
            self.varint(n[1])
        elif t == "abt":
            self.tag("t")
            self.varint(n[1])
        elif t == "err":
            self.error(n)
        else:
            raise AssertionError(t)

    def host_view(self, n: list) -> None:
        _, name, buf, off, length, _ = n
        self.tag("\\")
        if name == "Uint8Array" and self.choose(2):
            name = "FastBuffer"
            self.features.add("Node.js Buffer")
        self.varint(NODE_VIEWS.index(name))
        self.varint(length)
        self.out += bytes.fromhex(self.g[buf[1]][1])[off : off + length]

    def value_of_buffer(self, n: list) -> None:
        self.node(n[2][1])

    def view(self, n: list) -> None:
        _, name, buf, off, length, tracking = n
        b = self.g[buf[1]]
        tag, _ = TAG_OF_VIEW[name]
        self.tag("V")
        self.out.append(ord(tag))
        self.varint(off)
        self.varint(0 if tracking else length)
        if self.version >= 14:
            resizable = b[0] == "ab" and b[2] is not None
            self.varint((1 if tracking else 0) | (2 if resizable else 0))

    def error_order(self) -> int:
        """1 when the stack comes after the cause, where V8 up to 12.0 wrote it."""
        return self.choose(2)

    def error(self, n: list) -> None:
        _, name, msg, stack, cause = n
        self.tag("r")
        # Tags of error fields are written without padding
        order = self.error_order()
        parts = ["proto", "m", "c", "s"] if order else ["proto", "m", "s", "c"]
        self.features.add(f"error field order {order}")
        for p in parts:
            if p == "proto" and name in TAG_OF_ERROR:
                self.out.append(ord(TAG_OF_ERROR[name]))
            elif p == "m" and msg is not None:
                self.out.append(ord("m"))
                self.string(msg)
            elif p == "s" and stack is not None:
                self.out.append(ord("s"))
                self.string(stack)
            elif p == "c" and cause is not None:
                self.out.append(ord("c"))
                self.value(cause)
        self.out.append(ord("."))
