"""C17: regular expressions keep source, flags and matching behaviour."""

from __future__ import annotations

import re
import warnings
from typing import Any

from vk import gens, refcodec, st
from vk.bytesgen import choice_lists, chooser
from vk.common import all_features, check_same, describe_or_fail
from vk.core import Case, Stats, check, violated
from vk.graph import utf16
from vk.node import bridge, v8_deserialize, v8_serialize

RULE = (
    "Every one of the 512 flag combinations with generated sources (any text, and grammatical "
    "ones) is written, read by an independent reader and by V8, written by an independent writer "
    "and V8, and read back. Generated Python patterns in every combination of flags are converted "
    "in both directions, compared with a table of flags, and what they find in generated texts is "
    "compared with what V8 finds. Non-trivial: a flag is set and the source isn't one character."
)
ASSUMPTIONS = [
    "The Linear flag, which V8 only accepts with its experimental engine, isn't sent to V8.",
    "Matching is compared for syntax that both languages share, on texts where they agree about "
    "line ends and classes ('naive' conversion doesn't translate patterns).",
    "V8 escapes / and line ends in the source it reports; this is modelled.",
]

# (These are the documented bits of V8's regexp-flags.h)
BITS = {"g": 0, "i": 1, "m": 2, "y": 3, "u": 4, "s": 5, "l": 6, "d": 7, "v": 8}
PYTHON = {"i": re.I, "m": re.M, "s": re.S, "u": re.U, "v": re.U}


def raw_flags(chars: Any) -> int:
    return sum(1 << BITS[c] for c in chars)


def chars_of(raw: int) -> str:
    return "".join(sorted(c for c, b in BITS.items() if raw >> b & 1))


# Grammatical sources ----------------------------------------------------------

atom = st.sampled_from(["a", "b", "A", "z", "0", "1", "_", " ", "ab", "é", "☃", ".", "\\d", "\\D", "\\w", "\\W", "\\s", "[ab]", "[^a0]", "[a-z]", "[0-9_]", "\\.", "\\n", "[^\\d]"])
quantifier = st.sampled_from(["", "", "", "*", "+", "?", "{2}", "{1,2}", "*?", "+?", "??"])


def nodes(depth: int) -> Any:
    """Pairs of a pattern and whether it can match nothing."""
    q = st.tuples(atom, quantifier).map(lambda t: (t[0] if not t[1] or t[0] != "ab" else "(?:ab)") + t[1]).map(lambda p: (p, p.endswith(("*", "?"))))
    zero = st.sampled_from([("^", True), ("$", True), ("\\b", True), ("(?=a)", True), ("(?!b)", True), ("(?<=a)", True), ("(?<!0)", True)])
    if depth <= 0:
        return st.one_of(q, q, q, q, zero)
    sub = st.lists(nodes(depth - 1), min_size=1, max_size=3)
    cat = sub.map(lambda ps: ("".join(p for p, _ in ps), all(e for _, e in ps)))
    alt = st.lists(cat, min_size=1, max_size=3).map(lambda ps: ("|".join(p for p, _ in ps), any(e for _, e in ps)))
    # What can match nothing isn't repeated: languages differ in when to stop
    group = st.tuples(st.sampled_from(["(", "(?:"]), alt, quantifier).map(
        lambda t: (t[0] + t[1][0] + ")" + ("" if t[1][1] else t[2]), t[1][1] or (t[2].endswith(("*", "?")) and t[2] != "+?"))
    )
    return st.one_of(q, q, zero, group, group)


patterns = st.lists(nodes(2), max_size=4).map(lambda ps: "".join(p for p, _ in ps))
texts = st.one_of(
    st.lists(st.sampled_from(list("aAbBzZ01_ -.\né☃")), max_size=12).map("".join),
    st.sampled_from(["", "abab", "a1 b2", "ab\nab", "AB", "a_0", "zé☃a"]),
)
any_source = st.one_of(
    st.text(max_size=8), gens.strings, patterns, st.sampled_from(["", "/", "\\/", "[/]", "a\nb", "\\\n", "\u2028", "(", "[", "(?a)x", "(?i)a", "x{99999999999}", "a{2,1}", "(?P<n>a)", "(?<n>a)", "\ud800", "\0"])
)
flag_chars = st.lists(st.sampled_from("dgilmsuvy"), max_size=9).map(lambda cs: "".join(sorted(set(cs))))


# ---------------------------------------------------------------------- flags


def run_table(x: tuple, s: Stats) -> None:
    """One combination of bits, with each spelling of a source."""
    from v8serialize import DecodeV8SerializeError, JSRegExpFlag, JSRegExpV8SerializeError, dumps, loads
    from v8serialize.jstypes import JSRegExp

    raw, source = x
    chars = chars_of(raw)
    body = b"\xff\x0fR" + refcodec_string(source)
    n = raw
    while n >= 0x80:
        body += bytes([n & 0x7F | 0x80])
        n >>= 7
    body += bytes([n])
    s.nontrivial(raw != 0)
    flags = JSRegExpFlag(raw)
    check(sorted(str(flags)) == sorted(chars), lambda: f"flags {raw} print as {str(flags)!r}, not {chars!r}")
    check(sorted(str(f) for f in flags) == sorted(chars), lambda: f"flags {raw} have the members {list(flags)}")
    check(int(flags.canonical) == raw, lambda: f"canonical flags of {raw} are {flags.canonical!r}")
    check(JSRegExpFlag(raw | 1 << 9 | 1 << 20).canonical == flags, "bits without a meaning are part of the canonical flags")
    exp_py = sum(int(f) for f in {PYTHON[c] for c in chars if c in PYTHON})
    got = flags.as_python_flags(throw=False)
    if "l" in chars:
        check(got is None, lambda: f"flags {chars} have Python flags: {got!r}")
        try:
            flags.as_python_flags()
        except JSRegExpV8SerializeError as e:
            check("Linear" in str(e), f"the error doesn't say what flag has no equivalent: {e}")
        else:
            violated(f"flags {chars} have Python flags")
    else:
        check(int(got) == exp_py and int(flags.as_python_flags()) == exp_py, lambda: f"flags {chars} have the Python flags {got!r}, expected {re.RegexFlag(exp_py)!r}")
    if "u" in chars and "v" in chars:
        for what, f, err in (("made", lambda: JSRegExp("a", flags), ValueError), ("read", lambda: loads(body), DecodeV8SerializeError)):
            try:
                out = f()
            except err:
                continue
            violated(f"a regular expression with flags u and v is {what}: {out!r}")
        return
    out = loads(body)
    check(type(out) is JSRegExp, f"read as {out!r}")
    check(out.source == (source or "(?:)") and int(out.flags) == raw, lambda: f"{source!r} with {chars} is read as {out!r}")
    made = JSRegExp(source, flags)
    check(made == out and hash(made) == hash(out), lambda: f"{made!r} isn't {out!r}")
    data = dumps(made, features=all_features())
    graph, reader = refcodec.parse(data)
    check(reader.pos == len(data), "data after the value")
    check(graph["nodes"] == [["re", utf16(source or "(?:)"), chars]], lambda: f"written as {graph}")
    back = loads(data)
    check(back == made and type(back) is JSRegExp, lambda: f"{made!r} comes back as {back!r}")


def refcodec_string(text: str) -> bytes:
    return bytes(refcodec.Writer({"root": ["s", utf16(text)], "nodes": []}, chooser((0,)), 15).write()[2:])


# ------------------------------------------------------------------ round trip


def run_roundtrip(x: tuple, s: Stats) -> None:
    from v8serialize import FeatureNotEnabledEncodeV8SerializeError, JSRegExpFlag, dumps, loads
    from v8serialize.jstypes import JSArray, JSRegExp

    items, choices = x
    items = [(src, "".join(c for c in fl if not (c == "v" and "u" in fl))) for src, fl in items]
    made = [JSRegExp(src, JSRegExpFlag(raw_flags(fl))) for src, fl in items]
    s.nontrivial(any(fl and len(src) > 1 for src, fl in items))
    s.label(*{c for _, fl in items for c in fl})
    value = JSArray([*made, *made])
    data = dumps(value, features=all_features())
    graph, _ = refcodec.parse(data)
    exp_nodes = [["re", utf16(src or "(?:)"), fl] for src, fl in items]
    got = [graph["nodes"][e[1][1]] for e in graph["nodes"][0][2]]
    check(got == exp_nodes * 2, lambda: f"written as {got}, expected {exp_nodes}")
    out = loads(data)
    check(list(out.array) == [*made, *made], lambda: f"{made!r} come back as {out!r}")
    for a, b in zip(made, out.array):
        check((a.source, int(a.flags), str(a.flags)) == (b.source, int(b.flags), str(b.flags)), lambda: f"{a!r} comes back as {b!r}")
    # Equal exactly when source and flags are
    for a, ia in zip(made, exp_nodes):
        for b, ib in zip(made, exp_nodes):
            check((a == b) == (ia == ib) and (ia != ib or hash(a) == hash(b)), lambda: f"{a!r} == {b!r} is {a == b}")
    # As another writer writes them
    data = refcodec.Writer({"root": ["r", 0], "nodes": [["arr", len(exp_nodes), [[i, ["r", i + 1]] for i in range(len(exp_nodes))], []], *exp_nodes]}, chooser(choices), 15).write()
    out = loads(data)
    check(list(out.array) == made, lambda: f"{exp_nodes} are read as {out!r}")
    try:
        dumps(value)
    except FeatureNotEnabledEncodeV8SerializeError:
        check(any("v" in fl for _, fl in items), "needs a feature without a reason")
    else:
        check(not any("v" in fl for _, fl in items), "the v flag is written without its feature")


# -------------------------------------------------------------------------- V8


def escaped(src: str) -> str:
    """The source as V8 reports it."""
    if src == "":
        return "(?:)"
    out = []
    backslash = in_class = False
    for c in src:
        if backslash:
            if c in "\n\r\u2028\u2029":
                out.append({"\n": "n", "\r": "r", "\u2028": "u2028", "\u2029": "u2029"}[c])
            else:
                out.append(c)
            backslash = False
            continue
        if c == "/" and not in_class:
            out.append("\\/")
        elif c in "\n\r\u2028\u2029":
            out.append({"\n": "\\n", "\r": "\\r", "\u2028": "\\u2028", "\u2029": "\\u2029"}[c])
        else:
            out.append(c)
        if c == "[":
            in_class = True
        elif c == "]":
            in_class = False
        backslash = c == "\\"
    return "".join(out)


def run_v8(x: tuple, s: Stats) -> None:
    from v8serialize import JSRegExpFlag, dumps, loads
    from v8serialize.jstypes import JSArray, JSRegExp

    items = [(src, "".join(c for c in fl if c != "l" and not (c == "v" and ("u" in fl or "/]" in src)))) for src, fl in x]
    made = [JSRegExp(src, JSRegExpFlag(raw_flags(fl))) for src, fl in items]
    s.nontrivial(any(fl and len(src) > 1 for src, fl in items))
    s.label(*{c for _, fl in items for c in fl})
    data = dumps(JSArray(made), features=all_features())
    exp = [["re", utf16(escaped(src)), fl] for src, fl in items]
    seen = v8_deserialize(data)
    check("error" not in seen, lambda: f"V8 refuses {made!r}: {seen}")
    got = seen["graph"]
    got = seen["graph"]
    nodes = got["nodes"]
    els = [nodes[e[1][1]] for e in nodes[got["root"][1]][2]]
    check(els == exp, lambda: f"V8 sees {els}, expected {exp}")
    graph = {"root": ["r", 0], "nodes": [["arr", len(exp), [[i, ["r", i + 1]] for i in range(len(exp))], []], *exp]}
    out = loads(bytes.fromhex(v8_serialize(graph)["data"]))
    check(
        [(r.source, "".join(sorted(str(r.flags)))) for r in out.array] == [(escaped(src), fl) for src, fl in items],
        lambda: f"V8's {exp} are read as {out!r}",
    )


# ------------------------------------------------------------------ conversion


def compiled(source: Any, flags: int) -> Any:
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return re.compile(source, flags)
        except Exception:
            return None


def run_from_python(x: tuple, s: Stats) -> None:
    from v8serialize import JSRegExpFlag, JSRegExpV8SerializeError, dumps, loads
    from v8serialize.jstypes import JSRegExp

    source, flags, as_bytes, text = x
    flags = sum({re.I, re.M, re.S, re.X, re.A, re.U, re.L}.intersection([re.RegexFlag(1 << i) for i in range(10) if flags >> i & 1]))
    if as_bytes == "bytes":
        source = source.encode("utf-8", "surrogatepass")
        flags &= ~re.U
    elif as_bytes == "latin":
        source = source.encode("latin-1", "replace")
        flags &= ~re.U
    else:
        flags &= ~re.L
    p = compiled(source, flags)
    if p is None:
        s.label("invalid")
        return
    try:
        text_source = source if isinstance(source, str) else source.decode()
    except UnicodeDecodeError:
        text_source = None
    bad = text_source is None or p.flags & re.X
    r = JSRegExp.from_python_pattern(p, throw=False)
    try:
        r2 = JSRegExp.from_python_pattern(p)
    except JSRegExpV8SerializeError:
        check(bad and r is None, lambda: f"{p!r} is refused, and converted to {r!r}")
        try:
            dumps(p, features=all_features())
        except JSRegExpV8SerializeError:
            pass
        else:
            violated(f"{p!r}, which has no equivalent, is written")
        s.label("refused")
        s.nontrivial(True)
        return
    check(not bad, lambda: f"{p!r} is converted to {r!r}")
    check(r == r2, "two conversions differ")
    exp = "".join(c for c, f in (("i", re.I), ("m", re.M), ("s", re.S), ("v", re.U)) if p.flags & f)
    check(r.source == (text_source or "(?:)") and str(r.flags) == exp, lambda: f"{p!r} is converted to {r!r}, expected flags {exp}")
    s.label("converted", *exp)
    s.nontrivial(bool(exp) and len(source) > 1)
    check(int(JSRegExpFlag.from_python_flags(p.flags)) == raw_flags(exp), "from_python_flags() differs")
    back = loads(dumps(p, features=all_features()))
    check(back == r, lambda: f"{p!r} is written as {back!r}")
    # And back
    q = r.as_python_pattern(throw=False)
    if q is not None:
        check(q.pattern == (text_source or "(?:)"), lambda: f"{p!r} comes back as {q!r}")
        mask = int(re.I | re.M | re.S)
        check(q.flags & mask == p.flags & mask, lambda: f"{p!r} comes back with the flags {q.flags}")
        if not as_bytes and not p.flags & re.A:
            check(q.flags == p.flags, lambda: f"{p!r} comes back with the flags {q.flags}")
            check(q.pattern == p.pattern or p.pattern == "", lambda: f"{p!r} comes back as {q!r}")
    elif not as_bytes and not p.flags & re.A:
        violated(f"{p!r} is converted to {r!r}, but that can't be converted back")


def run_to_python(x: tuple, s: Stats) -> None:
    from v8serialize import JSRegExpFlag, JSRegExpV8SerializeError
    from v8serialize.jstypes import JSRegExp

    source, fl = x
    fl = "".join(c for c in fl if not (c == "v" and "u" in fl))
    r = JSRegExp(source, JSRegExpFlag(raw_flags(fl)))
    py = sum({int(PYTHON[c]) for c in fl if c in PYTHON})
    exp = None if "l" in fl else compiled(source or "(?:)", py)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = r.as_python_pattern(throw=False)
        check(got == exp, lambda: f"{r!r} as a Python pattern is {got!r}, expected {exp!r}")
        try:
            got = r.as_python_pattern()
        except JSRegExpV8SerializeError:
            check(exp is None, lambda: f"{r!r} isn't converted")
            s.label("refused")
        else:
            check(got == exp, lambda: f"{r!r} as a Python pattern is {got!r}, expected {exp!r}")
            s.label("converted")
    s.nontrivial(bool(fl) and len(source) > 1)


# -------------------------------------------------------------------- matching


def utf16_index(text: str, i: int) -> int:
    return len(text[:i].encode("utf-16-le")) // 2


def run_match(x: tuple, s: Stats) -> None:
    """A pattern finds the same in V8, converted in either direction."""
    from v8serialize import JSRegExpFlag
    from v8serialize.jstypes import JSRegExp

    todo: list = []
    expected: list = []
    what: list = []
    for source, fl, direction, text in x:
        text = text.rstrip("\n") if "$" in source else text
        # Both know only ASCII letters, or text has only those
        if direction == "from python":
            py = sum(int(PYTHON[c]) for c in "ims" if c in fl) | (re.A if "g" in fl else 0)
            p = compiled(source, py)
            if p is None:
                continue
            r = JSRegExp.from_python_pattern(p)
            how = p.search
            if any(c in text + source for c in "é☃"):
                text, source = text.replace("é", "e").replace("☃", "-"), source
        else:
            fl = "".join(c for c in fl if c != "l" and not (c == "v" and "u" in fl))
            r = JSRegExp(source, JSRegExpFlag(raw_flags(fl)))
            p = r.as_python_pattern(throw=False)
            if p is None:
                continue
            how = p.match if "y" in fl else p.search
            text = text.replace("é", "e").replace("☃", "-")
        m = how(text)
        expected.append(None if m is None else [utf16_index(text, m.start()), utf16_index(text, m.end()) - utf16_index(text, m.start())])
        todo.append([r.source, str(r.flags), text])
        what.append((direction, p))
    if not todo:
        return
    got = bridge.call("match", cases=todo)["out"]
    for c, e, g, w in zip(todo, expected, got, what):
        check(g == e, lambda: f"{w}: {c[0]!r} with flags {c[1]!r} finds {g} in {c[2]!r} in V8, and {e} in Python")
    s.nontrivial(any(e for e in expected))
    s.label(*("found" if e else "not found" for e in expected))


def table() -> Any:
    for raw in range(512):
        yield (raw, "a")
        yield (raw, "")


CASES = [
    Case("table", run_table, lambda: st.tuples(st.integers(0, 511), any_source), quick=1500, thorough=40_000, fixed=table),
    Case("roundtrip", run_roundtrip, lambda: st.tuples(st.lists(st.tuples(any_source, flag_chars), min_size=1, max_size=4).map(tuple), choice_lists), quick=2500, thorough=80_000),
    Case(
        "v8",
        run_v8,
        lambda: st.lists(
            st.tuples(st.one_of(patterns, patterns, st.sampled_from(["", "/", "\\/", "[/]", "a\nb", "[\n/]/", "\u2028+", "é/☃", "\\u0061", "(?<n>q)\\k<n>"])), flag_chars),
            min_size=1,
            max_size=8,
        ).map(tuple),
        quick=700,
        thorough=15_000,
    ),
    Case(
        "from python",
        run_from_python,
        lambda: st.tuples(st.one_of(patterns, any_source), st.integers(0, 511), st.sampled_from(["", "", "", "bytes", "latin"]), texts),
        quick=4000,
        thorough=120_000,
    ),
    Case("to python", run_to_python, lambda: st.tuples(st.one_of(patterns, any_source), flag_chars), quick=3000, thorough=100_000),
    Case(
        "match",
        run_match,
        lambda: st.lists(st.tuples(patterns, flag_chars, st.sampled_from(["from python", "to python"]), texts), min_size=1, max_size=10).map(tuple),
        quick=700,
        thorough=20_000,
    ),
]
