"""C21: dates denote the same instant on both sides, in every zone."""

from __future__ import annotations

import math
import os
import struct
import time
from contextlib import contextmanager
from datetime import datetime, timedelta, timezone, tzinfo
from typing import Any, Iterator

from vk import refcodec, st
from vk.core import Case, HarnessError, Stats, check, violated
from vk.graph import undouble
from vk.node import v8_deserialize, v8_serialize

RULE = (
    "Generated datetimes — naive in generated local zones, aware in fixed offsets, real zones and "
    "zones with generated rules, in gaps and folds and at the edges of the range, with and "
    "without parts of milliseconds — are serialized, and what V8 and an independent reader find "
    "is compared with the instant calculated from the zone's rules. Generated milliseconds are "
    "decoded, with every way to choose a zone, and the result converted back by the rules. "
    "Non-trivial: the zone isn't UTC and the instant isn't in a whole second of 1970–2037."
)
ASSUMPTIONS = [
    "Python's own conversion to and from local time fails within a day of the first and last "
    "datetime; those may be refused.",
    "Parts of milliseconds must be right to a millisecond in what is written (JavaScript has no "
    "more) and to what a double holds, or a microsecond, in what is read.",
    "Real zones are those of the system's database, whose rules Python's zoneinfo is trusted "
    "with; the generated rules are calculated independently.",
]

EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
NAIVE = EPOCH.replace(tzinfo=None)
US = timedelta(microseconds=1)
DAY = 86400
LOW = (datetime.min - NAIVE) // US
HIGH = (datetime.max - NAIVE) // US
MARGIN = 2 * DAY * 10**6


class Rules:
    """A zone as POSIX describes them: two offsets and when they change."""

    def __init__(self, std: int, save: int, start: tuple, end: tuple) -> None:
        self.std, self.save = std, save
        # (month, week, weekday, seconds after midnight) in local time
        self.start, self.end = start, end
        self.years: dict[int, tuple] = {}

    def tz(self) -> str:
        def off(x: int) -> str:
            # West is positive
            sign, x = ("-", x) if x >= 0 else ("", -x)
            return f"{sign}{x // 3600}:{x // 60 % 60:02}:{x % 60:02}"

        if not self.save:
            return f"<XST>{off(self.std)}"
        rule = lambda r: f"M{r[0]}.{r[1]}.{r[2]}/{r[3] // 3600}:{r[3] // 60 % 60:02}:{r[3] % 60:02}"  # noqa: E731
        return f"<XST>{off(self.std)}<XDT>{off(self.std + self.save)},{rule(self.start)},{rule(self.end)}"

    def _local(self, year: int, r: tuple) -> int:
        """When a change is in a year, in seconds of the local time until then."""
        month, week, weekday, secs = r
        first = _days(year, month, 1)
        day = 1 + (weekday - (first + 4)) % 7  # 1970-01-01 was a Thursday
        day += 7 * (week - 1)
        length = (31, 29 if year % 4 == 0 and (year % 100 or year % 400 == 0) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)[month - 1]
        while day > length:
            day -= 7
        return (first + day - 1) * DAY + secs

    def changes(self, year: int) -> tuple:
        year = max(year, 1970)  # The rules are from then on, as the C library has it
        if year not in self.years:
            self.years[year] = (self._local(year, self.start) - self.std, self._local(year, self.end) - self.std - self.save)
        return self.years[year]

    def offset(self, t: int) -> int:
        """The offset at a time in seconds since 1970 (UTC)."""
        if not self.save:
            return self.std
        a, b = self.changes(_year(t + self.std))
        if a < b:
            return self.std + (self.save if a <= t < b else 0)
        return self.std + (0 if b <= t < a else self.save)

    def instant(self, local: int, fold: int) -> int:
        """The time that a local time is at, as PEP 495 has it."""
        us = sorted({local - o for o in (self.std, self.std + self.save)})
        right = [u for u in us if u + self.offset(u) == local]
        if right:
            return right[-1 if fold else 0]
        # In a gap: the offset before it, or after it
        return us[0] if fold else us[-1]

    def local(self, t: int) -> tuple[int, int]:
        local = t + self.offset(t)
        us = [u for u in sorted({local - self.std, local - self.std - self.save}) if u + self.offset(u) == local]
        return local, int(len(us) == 2 and t == us[1])


def _days(y: int, m: int, d: int) -> int:
    y -= m <= 2
    era = y // 400
    yoe = y - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    return era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + doy - 719468


def _year(secs: int) -> int:
    days = secs // DAY
    y = 1970 + days // 366
    while _days(y + 1, 1, 1) <= days:
        y += 1
    while _days(y, 1, 1) > days:
        y -= 1
    return y


class Zone(tzinfo):
    """The rules, as a tzinfo."""

    def __init__(self, rules: Rules) -> None:
        self.rules = rules

    def utcoffset(self, dt: datetime | None) -> timedelta | None:
        if dt is None:
            return None
        local = (dt.replace(tzinfo=None) - NAIVE) // timedelta(seconds=1)
        return timedelta(seconds=local - self.rules.instant(local, dt.fold))

    def dst(self, dt: datetime | None) -> timedelta | None:
        return None

    def tzname(self, dt: datetime | None) -> str:
        return "X"

    def fromutc(self, dt: datetime) -> datetime:
        local, fold = self.rules.local((dt.replace(tzinfo=None) - NAIVE) // timedelta(seconds=1))
        return (NAIVE + timedelta(seconds=local)).replace(microsecond=dt.microsecond, tzinfo=self, fold=fold)


@contextmanager
def local_zone(tz: str) -> Iterator[None]:
    before = os.environ.get("TZ")
    os.environ["TZ"] = tz
    time.tzset()
    try:
        yield
    finally:
        if before is None:
            del os.environ["TZ"]
        else:
            os.environ["TZ"] = before
        time.tzset()


def make_tz(z: tuple) -> Any:
    if z[0] == "utc":
        return timezone.utc
    if z[0] == "fixed":
        return timezone(timedelta(microseconds=z[1]))
    if z[0] == "real":
        from zoneinfo import ZoneInfo

        try:
            return ZoneInfo(z[1])
        except Exception:  # there may be no database
            return timezone(timedelta(hours=5, minutes=45))
    return Zone(Rules(*z[1]))


def rules_of(z: tuple) -> Rules:
    return Rules(*z[1])


def near(us: int, k: tuple, rules: Rules | None) -> int:
    """A time (UTC, microseconds) moved to near one of the zone's changes."""
    if rules is None or not rules.save or k[0] == 0:
        return us
    year = _year(us // 10**6)
    return rules.changes(year)[k[0] - 1] * 10**6 + k[1]


def interesting(us: int, z: tuple) -> bool:
    return z[0] != "utc" and (us % 10**6 != 0 or not 0 <= us < 2**31 * 10**6)


def written_ms(data: bytes) -> float:
    graph, _ = refcodec.parse(data)
    check(graph["root"] == ["r", 0] and graph["nodes"][0][0] == "date", lambda: f"written as {graph}")
    return undouble(graph["nodes"][0][1])


def check_written(value: datetime, us: int, s: Stats, edge: bool) -> None:
    """The value, which is the instant `us`, is written as that."""
    from v8serialize import dumps
    from v8serialize.encode import EncodeV8SerializeError

    try:
        data = dumps(value)
    except EncodeV8SerializeError as e:
        check(edge, lambda: f"{value!r} is refused: {e}")
        s.label("refused at the edge")
        return
    ms = written_ms(data)
    if us % 1000 == 0:
        check(ms == us // 1000, lambda: f"{value!r} is written as {ms!r} ms, not {us // 1000}")
    else:
        check(abs(ms - us / 1000) < 1, lambda: f"{value!r} is written as {ms!r} ms, not {us / 1000!r}")
    js = v8_deserialize(data)
    check("graph" in js, lambda: f"V8 can't read it: {js}")
    seen = undouble(js["graph"]["nodes"][0][1])
    if us % 1000 == 0:
        check(seen == us // 1000, lambda: f"for {value!r} V8 has {seen!r} ms, not {us // 1000}")
    else:
        check(abs(seen - us / 1000) < 1, lambda: f"for {value!r} V8 has {seen!r} ms, not {us / 1000!r}")


def clamp(us: int) -> int:
    return min(max(us, LOW), HIGH)


def run_aware(case: tuple, s: Stats) -> None:
    z, us, k, fold, moved, local_tz = case
    tz = make_tz(z)
    rules = tz.rules if isinstance(tz, Zone) else None
    us = near(us, k, rules)
    # A local time, which may be in a gap or fold
    local = clamp(us + (rules.std * 10**6 if rules else 0) + moved)
    value = (NAIVE + local * US).replace(tzinfo=tz, fold=fold)
    if rules:
        secs, part = divmod(local, 10**6)
        us = rules.instant(secs, fold) * 10**6 + part
    else:
        off = value.utcoffset()
        assert off is not None
        us = local - off // US
    s.nontrivial(interesting(us, z))
    s.label(z[0], "fold" if fold else "no fold", "whole ms" if us % 1000 == 0 else "part of a ms")
    with local_zone(rules_of(local_tz).tz()):  # which doesn't matter
        check_written(value, us, s, False)


def run_naive(case: tuple, s: Stats) -> None:
    z, us, k, fold, moved = case
    rules = rules_of(z)
    us = near(us, k, rules)
    local = clamp(us + rules.std * 10**6 + moved)
    value = (NAIVE + local * US).replace(fold=fold)
    secs, part = divmod(local, 10**6)
    us = rules.instant(secs, fold) * 10**6 + part
    s.nontrivial(interesting(us, z))
    ambiguous = rules.save and rules.local(us // 10**6)[0] != secs
    s.label("in a gap" if ambiguous else "", "fold" if fold else "no fold")
    with local_zone(rules.tz()):
        check_written(value, us, s, not LOW + MARGIN < local < HIGH - MARGIN)


def readers(tz: Any) -> list:
    from v8serialize import Decoder, TagReader, loads
    from v8serialize.decode import ReadableTagStream

    return [
        lambda d: loads(d, default_timezone=tz),
        lambda d: loads(d, decode_steps=[TagReader(default_timezone=tz)]),
        lambda d: Decoder(decode_steps=[TagReader(default_timezone=tz)]).decodes(d),
        lambda d: ReadableTagStream(d, pos=2).read_js_date(tz=tz, tag=True).object,
        *([loads, lambda d: Decoder().decodes(d)] if tz is None else []),
    ]


def expect_value(out: Any, ms: float, z: tuple | None, tz: Any, rules: Rules | None) -> None:
    check(type(out) is datetime, lambda: f"{ms!r} ms is read as {out!r}")
    check(out.tzinfo is tz, lambda: f"{ms!r} ms is read as {out!r}, not in {tz}")
    if rules is not None:
        # What the rules say of the local time that it has
        secs, part = divmod((out.replace(tzinfo=None) - NAIVE) // US, 10**6)
        got = rules.instant(secs, out.fold) * 10**6 + part
        want, fold = rules.local(got // 10**6)
        check(want == secs, lambda: f"{ms!r} ms is read as {out!r}, a time that isn't in that zone")
        check(fold == out.fold, lambda: f"{ms!r} ms is read as {out!r}, with a fold where there is none")
    else:
        got = (out - EPOCH) // US
    if ms == math.floor(ms):
        check(got == int(ms) * 1000, lambda: f"{ms!r} ms is read as {out!r}, which is {got / 1000!r} ms")
    else:
        off = abs(got - int(math.floor(ms)) * 1000 - (ms - math.floor(ms)) * 1000)
        check(off <= 1, lambda: f"{ms!r} ms is read as {out!r}, which is {got / 1000!r} ms")


def read_all(ms: float, z: tuple | None, tz: Any, rules: Rules | None, which: int, s: Stats) -> None:
    from v8serialize import DecodeV8SerializeError

    data = b"\xff\x0fD" + struct.pack("<d", ms)
    rs = readers(tz)
    try:
        out = rs[which % len(rs)](data)
    except DecodeV8SerializeError as e:
        inside = math.isfinite(ms) and LOW + MARGIN < ms * 1000 < HIGH - MARGIN
        check(not inside, lambda: f"{ms!r} ms is refused: {e}")
        s.label("refused")
        return
    check(math.isfinite(ms) and LOW - MARGIN < ms * 1000 < HIGH + MARGIN, lambda: f"{ms!r} ms, which no datetime represents, is read as {out!r}")
    expect_value(out, ms, z, tz, rules)


def run_read(case: tuple, s: Stats) -> None:
    z, ms, k, which, local_tz = case
    tz = make_tz(z)
    rules = tz.rules if isinstance(tz, Zone) else None
    if k[0] and rules and math.isfinite(ms) and abs(ms) < 2e14:
        ms = near(int(ms) * 1000, k, rules) / 1000
    s.nontrivial(math.isfinite(ms) and interesting(int(ms * 1000), z))
    s.label(z[0])
    with local_zone(rules_of(local_tz).tz()):  # which doesn't matter
        read_all(ms, z, tz, rules, which, s)


def run_read_naive(case: tuple, s: Stats) -> None:
    z, ms, k, which = case
    rules = rules_of(z)
    if k[0] and math.isfinite(ms) and abs(ms) < 2e14:
        ms = near(int(ms) * 1000, k, rules) / 1000
    s.nontrivial(math.isfinite(ms) and interesting(int(ms * 1000), z))
    with local_zone(rules.tz()):
        read_all(ms, z, None, rules, which, s)


def run_round(case: tuple, s: Stats) -> None:
    """Out and back, where the zones may differ."""
    from v8serialize import dumps, loads
    from v8serialize.jstypes import JSArray, JSMap

    here, there, us, k, in_map = case
    rules = rules_of(here)
    us = near(us, k, rules)
    us -= us % 1000
    if not LOW + 2 * MARGIN < us < HIGH - 2 * MARGIN:
        return
    secs, part = divmod(us, 10**6)
    local, fold = rules.local(secs)
    value = (NAIVE + timedelta(seconds=local, microseconds=part)).replace(fold=fold)
    s.nontrivial(interesting(us, here))
    tz = make_tz(there)
    with local_zone(rules.tz()):
        holder: Any = JSMap([("k", value), (value, 1)]) if in_map else [value, {"v": value}]
        data = dumps(holder)
        back = loads(data)
        aware = loads(data, default_timezone=tz)
    if in_map:
        assert isinstance(back, JSMap)
        outs, awares = [back["k"], list(back)[1]], [aware["k"], list(aware)[1]]
    else:
        assert isinstance(back, JSArray)
        outs, awares = [back[0], back[1]["v"]], [aware[0], aware[1]["v"]]
    for out in outs:
        check(out == value and out.fold == fold and out.tzinfo is None, lambda: f"{value!r} comes back as {out!r}")
    for out in awares:
        check(out - EPOCH == timedelta(microseconds=us), lambda: f"{value!r} of {rules.tz()} comes back as {out!r}")


def run_js(case: tuple, s: Stats) -> None:
    """What V8 writes."""
    from v8serialize import DecodeV8SerializeError, loads

    ms, z = case
    tz = make_tz(z)
    reply = v8_serialize({"root": ["r", 0], "nodes": [["date", struct.pack(">d", ms).hex()]]}, "plain")
    if "error" in reply:
        raise HarnessError(str(reply))
    seen = undouble(reply["graph"]["nodes"][0][1])
    s.nontrivial(seen == seen and interesting(int(seen) * 1000, z))
    try:
        out = loads(bytes.fromhex(reply["data"]), default_timezone=tz)
    except DecodeV8SerializeError:
        check(not (seen == seen and LOW + MARGIN < seen * 1000 < HIGH - MARGIN), lambda: f"the Date {seen!r} is refused")
        s.label("refused")
        return
    check(seen == seen, lambda: f"an invalid Date is read as {out!r}")
    expect_value(out, seen, z, tz, tz.rules if isinstance(tz, Zone) else None)


# ----------------------------------------------------------------- cases

REAL = ["Europe/London", "America/New_York", "Australia/Lord_Howe", "Asia/Kathmandu", "Africa/Monrovia", "Pacific/Apia",
        "America/St_Johns", "Europe/Dublin", "Africa/Casablanca", "Antarctica/Troll", "Asia/Tehran", "America/Sao_Paulo"]  # fmt: skip
offsets = st.one_of(st.sampled_from([0, 3600, -18000, 20700, 34200, -12600, 45900, -43200, 50400, 1, -1, 75]), st.integers(-43200, 50400))
saves = st.sampled_from([0, 3600, 3600, 3600, 1800, 7200, 1200])
change = st.tuples(st.integers(1, 5), st.integers(0, 6), st.sampled_from([0, 3600, 7200, 7200, 10800, 9000, 82800]))


def rules(std: int, save: int, a: tuple, b: tuple, months: tuple) -> tuple:
    # Changes are months apart from each other and from the year's ends
    return ("rules", (std, save, (months[0], *a), (months[1], *b)))


generated = st.tuples(offsets, saves, change, change, st.sampled_from([(3, 10), (4, 9), (10, 3), (9, 4), (2, 11), (5, 8), (11, 2)])).map(lambda x: rules(*x))
zones = st.one_of(
    st.just(("utc",)),
    st.tuples(st.just("fixed"), st.one_of(st.integers(-1439, 1439).map(lambda m: m * 60 * 10**6), st.integers(-86399 * 10**6, 86399 * 10**6))),
    st.tuples(st.just("real"), st.sampled_from(REAL)),
    st.tuples(st.just("real"), st.sampled_from(REAL)),
    generated,
    generated,
)
EDGES = [LOW, LOW + 1, HIGH, HIGH - 999, HIGH - 1000, LOW + MARGIN + 1, HIGH - MARGIN - 1, 0, -1, 1, -999, -1000, -1001, 999, 1000, 2**31 * 10**6, -(2**31) * 10**6, 2**32 * 10**6, 2**53, -(2**53)]
whole = st.one_of(
    st.integers(LOW // 1000 + 1, HIGH // 1000),
    st.integers(-(2**41), 2**41),
    st.integers(-(2**41), 2**41),
    st.integers(-5000, 5000),
    st.integers(-62000000000, 253000000000).map(lambda x: x * 1000),
).map(lambda ms: ms * 1000)
micros = st.one_of(whole, whole, st.tuples(whole, st.integers(0, 999)).map(lambda x: clamp(x[0] + x[1])), st.sampled_from(EDGES))
# To near a change of the zone, or not
nearby = st.tuples(st.sampled_from([0, 0, 1, 2, 2]), st.one_of(st.integers(-4000, 4000).map(lambda x: x * 10**6), st.sampled_from([-1000, 0, -1, 1, 1000, -10**6, -1800 * 10**6, 3599999000, 3600 * 10**6])))
moves = st.one_of(st.just(0), st.integers(-7200, 7200).map(lambda x: x * 10**6))
LIMITS = [8.64e15, -8.64e15, 8.64e15 + 1, float("nan"), float("inf"), float("-inf"), 1e300, -0.0, 253402300799999.0, 253402300800000.0, -62135596800000.0, -62135596800001.0, 253402473600001.0, -62135769600001.0, 5e-324, 1e16, 1e20]
doubles = st.one_of(
    whole.map(lambda us: us / 1000),
    whole.map(lambda us: us / 1000),
    micros.map(lambda us: us / 1000),
    st.tuples(st.integers(-(2**33), 2**33), st.floats()).map(lambda x: x[0] + (x[1] % 1 if math.isfinite(x[1]) else 0.5)),
    st.sampled_from(LIMITS),
    st.integers(-8640000000000000, 8640000000000000).map(float),
)
which = st.integers(0, 11)
fold = st.integers(0, 1)

CASES = [
    Case("aware", run_aware, lambda: st.tuples(zones, micros, nearby, fold, moves, generated), quick=9000, thorough=200000),
    Case("naive", run_naive, lambda: st.tuples(generated, micros, nearby, fold, moves), quick=9000, thorough=200000),
    Case("read", run_read, lambda: st.tuples(zones, doubles, nearby, which, generated), quick=10000, thorough=250000),
    Case("read-naive", run_read_naive, lambda: st.tuples(generated, doubles, nearby, which), quick=10000, thorough=250000),
    Case("round", run_round, lambda: st.tuples(generated, zones, micros, nearby, st.booleans()), quick=6000, thorough=120000),
    Case("js", run_js, lambda: st.tuples(doubles, zones), quick=5000, thorough=100000),
]
