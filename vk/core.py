"""Runner shared by every check: generation, counting, shrinking, replay, evidence."""

from __future__ import annotations

import base64
import hashlib
import importlib
import json
import mmap
import multiprocessing
import multiprocessing.connection
import os
import pickle
import resource
import signal
import sys
import time
import traceback
import warnings
import zlib
from collections import Counter
from dataclasses import dataclass, field
from typing import Any, Callable, Iterable

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VK_REPO", "/repo")
CPU_LIMIT_S = 60  # per evaluation; evaluations normally take milliseconds
MEMORY_LIMIT = 3 << 30
WALL_LIMIT_S = {"quick": 500, "thorough": 4 * 3600}  # per job; normally seconds
SHRINK_LIMIT_S = 40
MUTATED = 0.2  # share of cases made by varying the previous one
KNOWN_FILE = os.path.join(VERIF, "KNOWN_FINDINGS.txt")


class HarnessError(Exception):
    """The harness itself failed: says nothing about the property."""


class Violation(AssertionError):
    """The property does not hold for the evaluated case."""


class _Hang(BaseException):
    pass


def violated(message: str) -> None:
    raise Violation(message)


def check(condition: object, message: str | Callable[[], str]) -> None:
    if not condition:
        raise Violation(message if isinstance(message, str) else message())


def load_known() -> dict[tuple[str, str], str]:
    """Listed findings: {(property, finding id): what fails}."""
    found = {}
    with open(KNOWN_FILE, encoding="utf-8") as f:
        for line in f:
            if not line.startswith("KNOWN-FINDING:"):
                continue
            fields = line.split(":", 1)[1].split(None, 2)
            prop = fields[0].removeprefix("property=")
            fid = fields[1].removeprefix("id=")
            found[prop, fid] = fields[2].strip()
    return found


_KNOWN: dict[tuple[str, str], str] | None = None


class Stats:
    def __init__(self, prop: str) -> None:
        self.prop = prop
        self.evaluations = 0
        self.nontrivial_hashes: set[bytes] = set()
        self.labels: Counter[str] = Counter()
        self.known: Counter[str] = Counter()
        self.samples: list[str] = []
        self._spec: object = None
        self._is_nontrivial = False

    def begin(self, spec: object) -> None:
        self.evaluations += 1
        self._spec = spec
        self._is_nontrivial = False

    def nontrivial(self, when: object = True) -> None:
        """Mark the case being evaluated as non-trivial (by the check's rule)."""
        if not when or self._is_nontrivial:
            return
        self._is_nontrivial = True
        text = repr(self._spec)
        h = hashlib.blake2b(text.encode("utf-8", "surrogatepass"), digest_size=8)
        if h.digest() in self.nontrivial_hashes:
            return
        self.nontrivial_hashes.add(h.digest())
        n = len(self.nontrivial_hashes)
        if n in (1, 8, 64) and len(self.samples) < 3:
            self.samples.append(text if len(text) < 700 else text[:700] + "...")

    def label(self, *names: str) -> None:
        for name in names:
            self.labels[name] += 1

    def is_known(self, finding_id: str) -> bool:
        """Whether a deviation is one that's listed (and count it)."""
        global _KNOWN
        if _KNOWN is None:
            _KNOWN = load_known()
        if (self.prop, finding_id) in _KNOWN:
            self.known[finding_id] += 1
            return True
        return False


@dataclass
class Case:
    """One executable statement of (part of) a property.

    `strategy` makes a strategy (vk.st) of plain-data specs, `run` evaluates
    one spec and raises Violation (or lets an unexpected exception escape).
    """

    name: str
    run: Callable[[Any, Stats], None]
    strategy: Callable[[], Any] | None = None
    quick: int = 500
    thorough: int = 20000
    fixed: Callable[[], Iterable[Any]] | None = None
    shards: int = 8


class _Progress:
    """Where a worker notes the case it is evaluating, for its parent to see."""

    SIZE = 1 << 20

    def __init__(self) -> None:
        self.map = mmap.mmap(-1, self.SIZE)

    def note(self, case: Case, spec: Any) -> None:
        data = pickle.dumps((case.name, spec))
        if len(data) + 8 <= self.SIZE:
            self.map[:8] = b"\0" * 8
            self.map[8 : 8 + len(data)] = data
            self.map[:8] = len(data).to_bytes(8, "little")

    def read(self) -> tuple[str, Any] | None:
        n = int.from_bytes(self.map[:8], "little")
        return pickle.loads(self.map[8 : 8 + n]) if n else None


_progress: _Progress | None = None


def _on_alarm(signum: int, frame: object) -> None:
    raise _Hang()


def evaluate(case: Case, spec: Any, st: Stats) -> None:
    st.begin(spec)
    if _progress is not None:
        _progress.note(case, spec)
    signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT_S)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            case.run(spec, st)
    except _Hang:
        raise Violation(
            f"does not terminate (used more than {CPU_LIMIT_S} s of CPU time)"
        ) from None
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


class _Fresh:
    """Evaluates cases in processes in which nothing has run yet.

    A failure can come from what earlier cases left behind. Then the case alone
    does not reproduce it, and is recorded with the cases that have to run first.
    """

    def __init__(self, prop: str) -> None:
        mp = multiprocessing.get_context("fork")
        self.conn, other = mp.Pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                self.conn.close()
                self._serve(prop, other)
            except BaseException:
                pass
            os._exit(0)
        other.close()

    @staticmethod
    def _serve(prop: str, conn: Any) -> None:
        global _progress
        _progress = None
        while True:
            try:
                case_name, specs = conn.recv()
            except (EOFError, OSError):
                return
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                out: Any = None
                try:
                    case = {c.name: c for c in load_cases(prop)}[case_name]
                    for i, spec in enumerate(specs):
                        last = i == len(specs) - 1
                        try:
                            evaluate(case, spec, Stats(prop))
                        except HarnessError:
                            out = None
                        except Exception as e:
                            if last:
                                out = _failure(case, spec, e)
                    os.write(w, pickle.dumps(out))
                finally:
                    os._exit(0)
            os.close(w)
            data = b""
            while True:
                chunk = os.read(r, 1 << 16)
                if not chunk:
                    break
                data += chunk
            os.close(r)
            os.waitpid(pid, 0)
            conn.send(pickle.loads(data) if data else None)

    def failure(self, case: Case, specs: list) -> dict[str, Any] | None:
        """How the last of these cases fails after the others."""
        try:
            self.conn.send((case.name, specs))
            if self.conn.poll(200):
                return self.conn.recv()
        except (EOFError, OSError):
            pass
        return None

    def close(self) -> None:
        self.conn.close()
        try:
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
        except OSError:
            pass


def _reproducible(
    case: Case, strategy: Any, src: Any, spec: Any, best: dict[str, Any], before: list, fresh: _Fresh
) -> dict[str, Any]:
    """The failure in a form that shows when it's replayed on its own."""
    from vk import st as strategies

    if fresh.failure(case, [pickle.loads(base64.b64decode(best["spec_pickle"]))]):
        return best
    end = time.monotonic() + SHRINK_LIMIT_S
    late = lambda: time.monotonic() > end  # noqa: E731
    alone = fresh.failure(case, [spec])
    if alone:

        def fails(x: Any) -> bool:
            nonlocal alone
            f = fresh.failure(case, [x])
            if f:
                alone = f
            return f is not None

        strategies.shrink(strategy, src, fails, late)
        assert alone is not None
        return alone
    # It needs something that ran before: which?
    history = before
    out = fresh.failure(case, [*history, spec])
    if not out:
        return {**best, "note": "seen once: it does not show again when the same cases are run in a fresh process"}
    size = max(1, len(history) // 2)
    while size and not late():
        i = 0
        while i < len(history) and not late():
            fewer = history[:i] + history[i + size :]
            f = fresh.failure(case, [*fewer, spec])
            if f:
                history, out = fewer, f
            else:
                i += size
        size //= 2
    out["history_repr"] = [repr(h) for h in history[:50]]
    out["history_pickle"] = base64.b64encode(pickle.dumps(history)).decode()
    return out


def _failure(case: Case, spec: Any, exc: BaseException) -> dict[str, Any]:
    return {
        "case": case.name,
        "spec_repr": repr(spec),
        "spec_pickle": base64.b64encode(pickle.dumps(spec)).decode(),
        "error": f"{type(exc).__name__}: {exc}"[:4000],
        "traceback": "".join(
            traceback.format_exception(type(exc), exc, exc.__traceback__)
        )[-6000:],
    }


def _run_generated(case: Case, n: int, seed: int, st: Stats, fresh: _Fresh) -> dict[str, Any] | None:
    import random

    from vk import st as strategies

    assert case.strategy is not None
    strategy = case.strategy()
    rng = random.Random(seed)
    best: dict[str, Any] | None = None
    size = 0

    def fails(spec: Any) -> bool:
        nonlocal best, size
        try:
            evaluate(case, spec, st)
        except HarnessError:
            raise
        except Exception as e:
            new_size = len(repr(spec))
            if best is None or new_size <= size:
                best = _failure(case, spec, e)
                size = new_size
            return True
        return False

    previous = None
    before: list = []  # the latest cases
    done = 0
    while done < n:
        prefix: list[int] = []
        if previous is not None and rng.random() < MUTATED:
            prefix = strategies.mutate(rng, previous)
        src = strategies.Source(rng, prefix)
        try:
            spec = strategy.do(src)
        except strategies.Overrun:
            done += 1
            continue
        except strategies.Reject:
            st.labels["(not generated)"] += 1
            done += 1
            continue
        done += 1
        previous = src
        if fails(spec):
            assert best is not None
            if "does not terminate" not in best["error"]:
                end = time.monotonic() + SHRINK_LIMIT_S
                strategies.shrink(strategy, src, fails, lambda: time.monotonic() > end)
                best = _reproducible(case, strategy, src, spec, best, before, fresh)
            return best
        before.append(spec)
        if len(before) > 4000:
            del before[:2000]
    return None


def _job(args: tuple[str, str, int, int, int, str]) -> dict[str, Any]:
    prop, case_name, shard, shards, seed, tier = args
    st = Stats(prop)
    started = time.monotonic()
    result: dict[str, Any] = {"case": case_name, "shard": shard, "failure": None}
    try:
        resource.setrlimit(
            resource.RLIMIT_AS, (MEMORY_LIMIT, resource.getrlimit(resource.RLIMIT_AS)[1])
        )
        case = {c.name: c for c in load_cases(prop)}[case_name]
        fail = None
        fresh = _Fresh(prop)
        if case.fixed is not None:
            for i, spec in enumerate(case.fixed()):
                if i % shards != shard:
                    continue
                try:
                    evaluate(case, spec, st)
                except HarnessError:
                    raise
                except Exception as e:
                    fail = _failure(case, spec, e)
                    break
        if fail is None and case.strategy is not None:
            n = case.quick if tier == "quick" else case.thorough
            n = n // shards + (1 if shard < n % shards else 0)
            job_seed = zlib.crc32(f"{seed}:{prop}:{case_name}:{shard}".encode())
            if n:
                fail = _run_generated(case, n, job_seed, st, fresh)
        fresh.close()
        result["failure"] = fail
    except BaseException as e:
        result["harness_error"] = "".join(
            traceback.format_exception(type(e), e, e.__traceback__)
        )[-5000:]
    result.update(
        evaluations=st.evaluations,
        nontrivial=st.nontrivial_hashes,
        labels=st.labels,
        known=st.known,
        samples=st.samples,
        wall_s=time.monotonic() - started,
    )
    return result


def _child(job: tuple, conn: Any, progress: _Progress) -> None:
    global _progress
    _progress = progress
    result = _job(job)
    conn.send(result)
    conn.close()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


def _run_jobs(jobs: list[tuple], workers: int, wall_limit: float) -> list[dict[str, Any]]:
    """Run each job in a process of its own, whose end it may not survive."""
    mp = multiprocessing.get_context("fork")
    results: dict[int, dict[str, Any]] = {}
    running: dict[int, tuple[Any, Any, _Progress, float]] = {}
    todo = list(enumerate(jobs))
    deadline: float | None = None  # set once something failed

    def lost(i: int, progress: _Progress, why: str) -> None:
        prop, case_name, shard, *_ = jobs[i]
        r: dict[str, Any] = {
            "case": case_name, "shard": shard, "failure": None, "evaluations": 0,
            "nontrivial": set(), "labels": Counter(), "known": Counter(), "samples": [],
            "wall_s": 0.0,
        }  # fmt: skip
        at = progress.read()
        if at is None:
            r["harness_error"] = f"job {jobs[i]} {why}"
        else:
            case = {c.name: c for c in load_cases(prop)}[at[0]]
            r["failure"] = _failure(case, at[1], Violation(why))
        results[i] = r

    while todo or running:
        while todo and len(running) < workers:
            i, job = todo.pop(0)
            recv, send = mp.Pipe(duplex=False)
            progress = _Progress()
            p = mp.Process(target=_child, args=(job, send, progress))
            p.start()
            send.close()
            running[i] = (p, recv, progress, time.monotonic())
        multiprocessing.connection.wait([r[1] for r in running.values()], timeout=2)
        for i, (p, recv, progress, since) in list(running.items()):
            if recv.poll():
                try:
                    results[i] = recv.recv()
                except (EOFError, OSError):
                    p.join()
                    why = f"the interpreter ended (exit code {p.exitcode})"
                    if p.exitcode == -signal.SIGKILL:
                        results[i] = {}
                        lost(i, _Progress(), "was killed from outside")
                    else:
                        lost(i, progress, why)
            elif time.monotonic() - since > wall_limit:
                p.kill()
                lost(i, progress, f"does not end (still running after {wall_limit} s)")
            else:
                continue
            p.join()
            recv.close()
            progress.map.close()
            del running[i]
            if results[i].get("failure") and deadline is None:
                todo.clear()
                deadline = time.monotonic() + 10
        if deadline is not None and time.monotonic() > deadline:
            for p, recv, _, _ in running.values():
                p.kill()
                p.join()
            break
    return [results[i] for i in sorted(results)]


def _prepare_imports() -> None:
    src = os.path.join(REPO, "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    import v8serialize

    if not os.path.abspath(v8serialize.__file__).startswith(src):
        raise HarnessError(f"v8serialize imported from {v8serialize.__file__}")


def load_module(prop: str) -> Any:
    _prepare_imports()
    return importlib.import_module(f"vk.checks.{prop.lower()}")


def load_cases(prop: str) -> list[Case]:
    return load_module(prop).CASES


def _dump_evidence(prop: str, data: dict[str, Any]) -> None:
    path = os.path.join(VERIF, "evidence", f"{prop}.json")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", encoding="utf-8") as f:
        json.dump(data, f, indent=1, sort_keys=True)
        f.write("\n")


def main(argv: list[str]) -> int:
    prop = argv[0]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    if "--replay" in argv:
        return replay(prop, argv[argv.index("--replay") + 1])
    if "--case" in argv:
        only = argv[argv.index("--case") + 1]
    started = time.monotonic()
    module = load_module(prop)
    cases: list[Case] = [c for c in module.CASES if only in (None, c.name)]

    # Findings that are listed: say which are still there.
    known = {fid: text for (p, fid), text in load_known().items() if p == prop}
    probes = getattr(module, "KNOWN_PROBES", {})
    for fid, text in known.items():
        if fid in probes and probes[fid]():
            print(f"KNOWN-FINDING: property={prop} {text}")

    jobs = []
    for c in cases:
        for shard in range(c.shards):
            jobs.append((prop, c.name, shard, c.shards, seed, tier))
    workers = min(len(jobs), int(os.environ.get("VK_JOBS", "0")) or os.cpu_count() or 4)
    results = _run_jobs(jobs, workers, WALL_LIMIT_S["thorough" if tier == "thorough" else "quick"])

    evaluations = sum(r["evaluations"] for r in results)
    hashes: set[bytes] = set()
    labels: Counter[str] = Counter()
    known_hits: Counter[str] = Counter()
    per_case: dict[str, dict[str, Any]] = {}
    samples: list[str] = []
    for r in results:
        tagged = {r["case"].encode() + h for h in r["nontrivial"]}
        hashes |= tagged
        for k, v in r["labels"].items():
            labels[f"{r['case']}:{k}"] += v
        known_hits.update(r["known"])
        pc = per_case.setdefault(
            r["case"], {"evaluations": 0, "cpu_s": 0.0, "nontrivial": set()}
        )
        pc["evaluations"] += r["evaluations"]
        pc["nontrivial"] |= tagged
        pc["cpu_s"] = round(pc["cpu_s"] + r["wall_s"], 2)
        if r["shard"] == 0:
            samples += [f"{r['case']}: {s}" for s in r["samples"]]
    for pc in per_case.values():
        pc["distinct_nontrivial"] = len(pc.pop("nontrivial"))
    failures = [r["failure"] for r in results if r["failure"]]
    errors = [r["harness_error"] for r in results if "harness_error" in r]
    coverage = {
        "evaluations": evaluations,
        "distinct_nontrivial": len(hashes),
        "rule": module.RULE,
        "samples": samples[:40],
        "cases": per_case,
        "labels": dict(sorted(labels.items())),
        "known_finding_hits": dict(known_hits),
    }
    _dump_evidence(
        prop,
        {
            "property": prop,
            "tier": tier if tier in ("quick", "thorough") else "quick",
            "seed": seed,
            "level": "exploration",
            "coverage": coverage,
            "assumptions": getattr(module, "ASSUMPTIONS", []),
            "violations": len(failures),
            "wall_s": round(time.monotonic() - started, 2),
        },
    )
    print(
        f"{prop}: {evaluations} cases evaluated, {len(hashes)} distinct non-trivial, "
        f"{round(time.monotonic() - started, 1)} s (seed {seed}, {tier})"
    )
    if "-v" in argv:
        for k, pc in per_case.items():
            print("  ", k, pc)
        for k, n in sorted(labels.items()):
            print("     ", k, n)
    if failures:
        fail = min(failures, key=lambda f: len(f["spec_repr"]))
        path = os.path.join(VERIF, "evidence", "replays", f"{prop}-{fail['case']}.json".replace(" ", "-"))
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w", encoding="utf-8") as f:
            json.dump({"property": prop, "seed": seed, "tier": tier, **fail}, f, indent=1)
        print(f"case {fail['case']}: {fail['error'][:1500]}")
        print(f"  input: {fail['spec_repr'][:1500]}")
        if "history_repr" in fail:
            print(f"  after these, in the same process: {fail['history_repr']}"[:1500])
        if "note" in fail:
            print(f"  {fail['note']}")
        print(f"VIOLATION property={prop} replay={os.path.relpath(path, VERIF)}")
        return 1
    if errors:
        print("\n".join(errors[:2]), file=sys.stderr)
        return 2
    return 0


def replay(prop: str, path: str) -> int:
    with open(path if os.path.exists(path) else os.path.join(VERIF, path)) as f:
        data = json.load(f)
    case = {c.name: c for c in load_cases(prop)}[data["case"]]
    spec = pickle.loads(base64.b64decode(data["spec_pickle"]))
    if "history_pickle" in data:
        for h in pickle.loads(base64.b64decode(data["history_pickle"])):
            try:
                evaluate(case, h, Stats(prop))
            except HarnessError:
                raise
            except Exception:
                pass
    try:
        evaluate(case, spec, Stats(prop))
    except HarnessError:
        raise
    except Exception as e:
        traceback.print_exc()
        print(f"case {case.name}: {type(e).__name__}: {e}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print(f"{prop}: {path} does not violate the property")
    return 0


def cli() -> None:
    try:
        code = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


if __name__ == "__main__":
    # Use the one imported copy of this module everywhere.
    from vk import core as _core

    _core.cli()
