"""Strategies: random generation that can be replayed and shrunk.

A strategy turns a sequence of choices (each a number below a bound) into a
value.  Generating draws the choices at random; shrinking simplifies the
recorded sequence, so every shrunk case is one the strategy can generate.
Choice 0 is the simplest wherever that means something.
"""

from __future__ import annotations

import functools
import math
import random
import struct
from typing import Any, Callable, Iterable, Sequence


class Overrun(Exception):
    """The case needs more choices than allowed."""


class Reject(Exception):
    """The choices don't make a case."""


MAX_CHOICES = 20_000


class Source:
    def __init__(self, rng: random.Random | None, prefix: Sequence[int] = ()) -> None:
        self.rng = rng
        self.prefix = prefix
        self.choices: list[int] = []
        self.spans: list[tuple[int, int, object]] = []
        self.plain = False

    def draw(self, n: int) -> int:
        """A number in 0..n-1."""
        at = len(self.choices)
        if at < len(self.prefix):
            v = self.prefix[at]
            if v >= n:
                v = n - 1
        elif self.rng is None:
            v = 0
        else:
            v = int(self.rng.random() * n) if n < 1 << 40 else self.rng.randrange(n)
        if at >= MAX_CHOICES:
            raise Overrun()
        self.choices.append(v)
        return v

    def span(self, label: object, f: Callable[["Source"], Any]) -> Any:
        start = len(self.choices)
        out = f(self)
        self.spans.append((start, len(self.choices), label))
        return out


class Strategy:
    def do(self, s: Source) -> Any:
        raise NotImplementedError

    def map(self, f: Callable[[Any], Any]) -> "Strategy":
        return Fn(lambda s: f(self.do(s)))

    def flatmap(self, f: Callable[[Any], "Strategy"]) -> "Strategy":
        return Fn(lambda s: f(self.do(s)).do(s))

    def filter(self, p: Callable[[Any], bool]) -> "Strategy":
        def go(s: Source) -> Any:
            for _ in range(20):
                v = self.do(s)
                if p(v):
                    return v
            raise Reject()

        return Fn(go)

    def __or__(self, other: "Strategy") -> "Strategy":
        return one_of(self, other)


class Fn(Strategy):
    def __init__(self, f: Callable[[Source], Any]) -> None:
        self.do = f  # type: ignore[method-assign]


def just(v: Any) -> Strategy:
    return Fn(lambda s: v)


def none() -> Strategy:
    return just(None)


def booleans() -> Strategy:
    return Fn(lambda s: bool(s.draw(2)))


def sampled_from(xs: Iterable[Any]) -> Strategy:
    xs = list(xs)
    n = len(xs)
    return Fn(lambda s: xs[s.draw(n)])


def one_of(*xs: Any) -> Strategy:
    """One of the strategies, each with the same probability (repeat for weight)."""
    ss: list[Strategy] = list(xs[0]) if len(xs) == 1 and not isinstance(xs[0], Strategy) else list(xs)
    n = len(ss)
    return Fn(lambda s: ss[s.draw(n)].do(s))


def rarely(n: int, common: Strategy, unusual: Strategy) -> Strategy:
    """The unusual one once in n times."""
    return Fn(lambda s: (unusual if s.draw(n) == n - 1 and not s.plain else common).do(s))


def plain(x: Strategy) -> Strategy:
    """Without what is rare."""

    def go(s: Source) -> Any:
        before, s.plain = s.plain, True
        try:
            return x.do(s)
        finally:
            s.plain = before

    return Fn(go)


def integers(lo: int | None = None, hi: int | None = None) -> Strategy:
    lo = -(2**70) if lo is None else lo
    hi = 2**70 if hi is None else hi
    target = min(max(0, lo), hi)
    below, above = target - lo, hi - target

    def nth(i: int) -> int:
        # target, +1, -1, +2, -2 ... staying in range
        m = min(below, above)
        if i <= 2 * m:
            return target + ((i + 1) // 2 if i % 2 else -(i // 2))
        i -= m
        return target + i if above > below else target - i

    n = hi - lo + 1
    if n <= 4096:
        return Fn(lambda s: nth(s.draw(n)))
    bits = (n - 1).bit_length()

    def go(s: Source) -> int:
        w = s.draw(bits + 2)
        if w > bits:
            return nth(s.draw(n))
        return nth(min(n - 1, s.draw(1 << w)))

    return Fn(go)


def tuples(*ss: Strategy) -> Strategy:
    dos = [x.do for x in ss]
    return Fn(lambda s: tuple([d(s) for d in dos]))


def builds(f: Callable[..., Any], *ss: Strategy) -> Strategy:
    dos = [x.do for x in ss]
    return Fn(lambda s: f(*[d(s) for d in dos]))


def lists(
    el: Strategy, min_size: int = 0, max_size: int | None = None, unique: bool = False
) -> Strategy:
    top = min_size + 8 if max_size is None else max_size
    label = object()
    # On average as far from the minimum as from the maximum
    stop = max(2, min(60, int(100 / (1 + (top - min_size) / 1.6))))

    def one(s: Source) -> Any:
        return el.do(s)

    def go(s: Source) -> list[Any]:
        out: list[Any] = []
        tries = 0
        while len(out) < top:
            start = len(s.choices)
            if len(out) >= min_size and s.draw(100) < stop:
                break
            v = s.span(one, one)
            s.spans.append((start, len(s.choices), label))
            if unique and v in out:
                tries += 1
                if tries > 50:
                    break
                continue
            out.append(v)
        return out

    return Fn(go)


def char(cp: int) -> str:
    return chr(cp)


def _any_char(s: Source) -> str:
    m = s.draw(5)
    if m <= 1:
        return chr(0x61 + s.draw(26)) if m == 0 else chr(0x20 + s.draw(0x5F))
    if m == 2:
        return chr(s.draw(0x100))
    if m == 3:
        c = s.draw(0xF800)
        return chr(c if c < 0xD800 else c + 0x800)
    return chr(0x10000 + s.draw(0x100000))


def text(alphabet: str | Strategy | None = None, min_size: int = 0, max_size: int | None = None) -> Strategy:
    if alphabet is None:
        chars: Strategy = Fn(_any_char)
    elif isinstance(alphabet, str):
        chars = sampled_from(alphabet)
    else:
        chars = alphabet
    return lists(chars, min_size, max_size).map("".join)


def binary(min_size: int = 0, max_size: int | None = None) -> Strategy:
    return lists(Fn(lambda s: s.draw(256)), min_size, max_size).map(bytes)


def floats(lo: float | None = None, hi: float | None = None) -> Strategy:
    if lo is not None and hi is not None:

        def ranged(s: Source) -> float:
            m = s.draw(3)
            x = lo + (hi - lo) * (s.draw(1 << 53) / (1 << 53))
            if m == 0:
                return float(min(max(math.floor(x), lo), hi))
            if m == 1:
                return min(max(round(x, 3), lo), hi)
            return x

        return Fn(ranged)

    def go(s: Source) -> float:
        m = s.draw(6)
        if m == 0:
            return float(s.draw(41) - 20)
        if m == 1:
            return (s.draw(2001) - 1000) / 8
        if m == 2:
            return (s.draw(1 << 54) - (1 << 53)) / 10 ** s.draw(20)
        if m == 3:
            return struct.unpack("<f", struct.pack("<I", s.draw(1 << 32)))[0]
        return struct.unpack("<d", struct.pack("<Q", s.draw(1 << 64)))[0]

    return Fn(go)


def permutations(xs: Sequence[Any]) -> Strategy:
    def go(s: Source) -> list[Any]:
        left, out = list(xs), []
        while left:
            out.append(left.pop(s.draw(len(left))))
        return out

    return Fn(go)


def dictionaries(k: Strategy, v: Strategy, max_size: int = 5) -> Strategy:
    return lists(tuples(k, v), max_size=max_size).map(dict)


def composite(f: Callable[..., Any]) -> Callable[..., Strategy]:
    @functools.wraps(f)
    def make(*a: Any, **k: Any) -> Strategy:
        return Fn(lambda s: f(lambda strat: strat.do(s), *a, **k))

    return make


def deferred(f: Callable[[], Strategy]) -> Strategy:
    return Fn(lambda s: f().do(s))


# ------------------------------------------------------------------- running


def mutate(rng: random.Random, src: Source) -> list[int]:
    """A variation of a generated case's choices."""
    c = list(src.choices)
    if not c:
        return c
    groups: dict[object, list[tuple[int, int]]] = {}
    for a, b, label in src.spans:
        if b > a:
            groups.setdefault(label, []).append((a, b))
    many = [g for g in groups.values() if len(g) > 1]
    kind = rng.random()
    if many and kind < 0.75:
        # Repeat one part in place of another one of the same kind
        g = rng.choice(many)
        (a, b), (x, y) = rng.sample(g, 2)
        if kind < 0.2:
            return c[:x] + c[a:b] + c[x:]
        return c[:x] + c[a:b] + c[y:]
    for _ in range(rng.randrange(1, 4)):
        i = rng.randrange(len(c))
        c[i] = max(0, c[i] + rng.choice([-1, 1, -2, 2, 5])) if rng.random() < 0.6 else 0
    return c


def shrink(
    strategy: Strategy,
    src: Source,
    fails: Callable[[Any], bool],
    out_of_time: Callable[[], bool],
) -> None:
    """Simplify the failing case of `src`; `fails` remembers the failing ones."""
    best = src
    tried: set[tuple[int, ...]] = set()

    def attempt(choices: list[int]) -> bool:
        nonlocal best
        t = tuple(choices)
        if t in tried or out_of_time():
            return False
        tried.add(t)
        s = Source(None, choices)
        try:
            v = strategy.do(s)
        except (Reject, Overrun):
            return False
        used = s.choices
        if (len(used), used) >= (len(best.choices), best.choices):
            return False
        if fails(v):
            best = s
            return True
        return False

    progress = True
    while progress and not out_of_time():
        progress = False
        # drop parts, largest first
        i = 0
        spans = sorted(set((a, b) for a, b, _ in best.spans), key=lambda x: (x[0] - x[1], x))
        while i < len(spans):
            a, b = spans[i]
            if a < b and (
                attempt(best.choices[:a] + best.choices[b:])
                or attempt(best.choices[:a] + [0] * (b - a) + best.choices[b:])
            ):
                progress = True
                spans = sorted(set((a, b) for a, b, _ in best.spans), key=lambda x: (x[0] - x[1], x))
                i = max(0, i - 1)
            else:
                i += 1
        for size in (16, 8, 4, 2, 1):
            i = len(best.choices) - size
            while i >= 0:
                if attempt(best.choices[:i] + best.choices[i + size :]):
                    progress = True
                    i = min(i, len(best.choices) - size)
                else:
                    i -= 1
        i = 0
        while i < len(best.choices):
            v = best.choices[i]
            if v:
                pre, post = best.choices[:i], best.choices[i + 1 :]
                if attempt(pre + [0] + post):
                    progress = True
                else:
                    lo, hi = 0, v
                    while hi - lo > 1:
                        mid = (lo + hi) // 2
                        if attempt(best.choices[:i] + [mid] + best.choices[i + 1 :]):
                            progress = True
                            hi = mid
                        else:
                            lo = mid
                    if i < len(best.choices) and best.choices[i]:
                        progress |= attempt(best.choices[:i] + [best.choices[i] - 1] + best.choices[i + 1 :])
            i += 1
