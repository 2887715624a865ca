"""C08: output never uses a feature the chosen V8 version lacks."""

from __future__ import annotations

from typing import Any

from vk import gens, refcodec, st
from vk.common import FEATURES, GATED, all_features, check_same, describe_or_fail, feature_set, needs
from vk.core import Case, Stats, check

RULE = (
    "Generated value graphs, in which views, resizable buffers, regular expressions and "
    "errors are common, serialized with feature sets and versions; the constructs in the "
    "output are listed by an independent reader. Versions are drawn around every first "
    "version, with 2-4 parts and suffixes. Non-trivial: the value uses at least one "
    "optional feature, or the version is not one of the documented first versions."
)
ASSUMPTIONS = ["The first versions are those that the documentation of each feature states."]

FIRST: dict[str, tuple[int, ...]] = {
    "RegExpUnicodeSets": (10, 7, 123),
    "ResizableArrayBuffers": (11, 0, 193),
    "CircularErrorCause": (12, 1, 109),
}
BASE = (10, 0, 29)


def names_of(features: Any) -> set[str]:
    from v8serialize import SerializationFeature

    return {n for n in FEATURES if SerializationFeature[n] in features}


def judge(b: gens.Build, enabled: set[str], s: Stats, **options: Any) -> bool:
    """Serialize with options that enable these features; whether it worked."""
    from v8serialize import IllegalCyclicReferenceV8SerializeError, dumps, loads
    from v8serialize.encode import (
        FeatureNotEnabledEncodeV8SerializeError,
        UnhandledValueEncodeV8SerializeError,
    )

    lacking = needs(b) - enabled
    documented = {
        "RegExpUnicodeSets": FeatureNotEnabledEncodeV8SerializeError,
        "CircularErrorCause": IllegalCyclicReferenceV8SerializeError,
        "Float16Array": (UnhandledValueEncodeV8SerializeError, FeatureNotEnabledEncodeV8SerializeError),
    }
    errors: tuple = ()
    for f in lacking & GATED:
        e = documented[f]
        errors += e if isinstance(e, tuple) else (e,)
    try:
        data = dumps(b.value, **options)
    except errors as e:
        s.label("refused")
        if isinstance(e, FeatureNotEnabledEncodeV8SerializeError):
            check(
                names_of(e.feature_required) and names_of(e.feature_required) <= lacking,
                f"{e.feature_required} is reported as required, but {sorted(lacking)} are lacking",
            )
        return False
    check(not lacking & GATED, lambda: f"a value that needs {sorted(lacking & GATED)} was written without: {data.hex()}")
    _, reader = refcodec.parse(data)
    check(reader.uses <= enabled, lambda: f"{sorted(reader.uses - enabled)} is used in {data.hex()}")
    exp = b.expected("py", resizable="ResizableArrayBuffers" in enabled)
    check_same(exp, describe_or_fail(loads(data)), "deserialized value", b.noid())
    return True


def run_features(case: tuple, s: Stats) -> None:
    spec, sets = case
    b = gens.Build(spec)
    s.nontrivial(needs(b))
    s.label(*needs(b))
    for bits in sets:
        enabled = {f for i, f in enumerate(FEATURES) if bits >> i & 1}
        judge(b, enabled, s, features=feature_set(enabled))
    check(judge(b, set(FEATURES), s, features=all_features()), "refused with all features enabled")


def feature_graphs() -> Any:
    kinds = ["obj", "list", "view", "view", "re", "pat", "err", "err", "ab", "ab", "map", "arr", "bytes"]
    some = gens.specs(kinds, max_nodes=7)
    bits = st.sampled_from([0, 1, 3, 5, 0xF, 0x55, 0x33, 0x21, 0x12, 0x48])
    more = st.builds(use_features, some, bits)
    return st.one_of(more, more, more, some, gens.specs())


def use_features(spec: tuple, bits: int) -> tuple:
    """The spec with some nodes changed to need an optional feature."""
    root, nodes = spec
    out = []
    for i, n in enumerate(nodes):
        if bits >> i & 1:
            if n[0] == "view":
                n = ("view", "Float16Array", *n[2:])
            elif n[0] == "re":
                n = ("re", n[1], "v" + "".join(c for c in n[2] if c not in "uv"))
            elif n[0] == "ab":
                n = ("ab", n[1], n[2] or 16, False)
            elif n[0] == "err":
                n = (*n[:5], ("r", i if bits & 2 else i - 1))
        out.append(n)
    return root, tuple(out)


def supported(v: tuple[int, ...]) -> set[str] | None:
    v = v + (0,) * (4 - len(v))
    if v < BASE + (0,):
        return None
    return {f for f, first in FIRST.items() if v >= first + (0,)}


def run_versions(case: tuple, s: Stats) -> None:
    from packaging.version import Version

    from v8serialize import Encoder, SerializationFeature, dumps

    parts, suffix, as_version, spec, extra = case
    text = ".".join(map(str, parts)) + suffix
    exp = supported(parts)
    s.nontrivial(parts not in FIRST.values())
    v: Any = text
    if as_version:
        v = Version(text.replace("-", "+"))
    try:
        got = names_of(SerializationFeature.supported_by(v8_version=v))
    except LookupError:
        check(exp is None, f"V8 {text} is refused")
        try:
            dumps(1, v8_version=v)
        except LookupError:
            return
        check(False, f"dumps() accepts V8 {text}")
    if exp is None:
        check(False, f"V8 {text} is accepted")
        return
    check(got == exp, lambda: f"V8 {text} supports {sorted(exp)} but {sorted(got)} are given")
    s.label(f"{len(exp)} features")
    b = gens.Build(spec)
    judge(b, exp, s, v8_version=v)
    enabled = {f for i, f in enumerate(FEATURES) if extra >> i & 1}
    both = exp | enabled
    enc = Encoder(features=feature_set(enabled), v8_version=v)
    check(names_of(enc.features) == both, f"an Encoder for V8 {text} with {enabled} enables {enc.features}")
    judge(b, both, s, features=feature_set(enabled), v8_version=v)
    check_first(enc, both)


def check_first(enc: Any, enabled: set[str]) -> None:
    from packaging.version import Version

    from v8serialize import SymbolicVersion

    first = enc.first_v8_version
    if "Float16Array" in enabled:
        check(first is SymbolicVersion.Unreleased, f"first version is {first!r} with {sorted(enabled)}")
    else:
        exp = max([BASE, *(FIRST[f] for f in enabled)])
        check(first == Version(".".join(map(str, exp))), f"first version is {first!r} with {sorted(enabled)}")


def run_sets(bits: int, s: Stats) -> None:
    """Exhaustive: every feature set, and what its first version supports."""
    from v8serialize import Encoder, SerializationFeature, SymbolicVersion

    s.nontrivial()
    enabled = {f for i, f in enumerate(FEATURES) if bits >> i & 1}
    features = feature_set(enabled)
    check(names_of(features) == enabled and set(f.name for f in features) == enabled, f"{features!r} is not {enabled}")
    enc = Encoder(features=features)
    check_first(enc, enabled)
    implied = names_of(SerializationFeature.supported_by(v8_version=enc.first_v8_version))
    check(enabled <= implied, f"V8 {enc.first_v8_version} is the first for {enabled} but supports only {implied}")
    check(names_of(SerializationFeature.supported_by(v8_version=SymbolicVersion.Unreleased)) == set(FEATURES), "Unreleased")
    for f in FEATURES:
        check(SerializationFeature.for_name(f) is SerializationFeature[f], f"for_name({f})")
        v = SerializationFeature[f].first_v8_version
        if f in FIRST:
            check(tuple(v.release) == FIRST[f], f"{f} is first in {v}")
        else:
            check(v is SymbolicVersion.Unreleased, f"{f} is first in {v}")


def versions() -> Any:
    def near(base: tuple[int, ...]) -> Any:
        deltas = st.tuples(st.integers(-1, 1), st.integers(-1, 1), st.integers(-2, 2), st.integers(0, 3))
        zero = st.tuples(st.just(0), st.just(0), st.integers(-1, 1), st.integers(0, 2))
        return st.one_of(deltas, zero, zero).map(
            lambda d: tuple(max(0, x) for x in (base[0] + d[0], base[1] + d[1], base[2] + d[2], d[3]))
        )

    some = st.one_of(
        *[near(b) for b in (BASE, *FIRST.values())],
        st.tuples(st.integers(8, 14), st.integers(0, 12), st.integers(0, 400), st.integers(0, 40)),
    )
    return st.builds(lambda v, n: v[:n], some, st.sampled_from([4, 3, 4, 2, 1, 3]))


def version_cases() -> Any:
    suffix = st.sampled_from(["", "", "-node.33", "-rusty", "-electron.0", "-x", "-node1"])
    return st.tuples(versions(), suffix, st.booleans(), feature_graphs(), st.integers(0, 15))


CASES = [
    Case("features", run_features, lambda: st.tuples(feature_graphs(), st.lists(st.integers(0, 15), min_size=1, max_size=4)), quick=14000, thorough=400000),
    Case("every", lambda spec, s: run_features((spec, range(16)), s), feature_graphs, quick=1500, thorough=40000),
    Case("versions", run_versions, version_cases, quick=8000, thorough=200000),
    Case("sets", run_sets, fixed=lambda: range(16)),
]
