"""Core of the deterministic simulator: cases, contexts, violations.

A *case* is a JSON value that fixes one simulated execution completely: the
configuration, the workload and the explicit schedule of faults.  Cases are
drawn from one seeded PRNG (``random.Random(derive(seed, ...))``); executing a
case draws nothing from any other source, so the same case always gives the
same execution, in any process.
"""
from __future__ import annotations

from collections import Counter
import hashlib
import json
import random as _random
import traceback


class Violation(Exception):
    """The system under test broke the property."""

    def __init__(self, rule: str, message: str, **detail):
        super().__init__(f'{rule}: {message}')
        self.rule = rule
        self.message = message
        self.detail = detail


class HarnessError(Exception):
    """The harness itself is at fault; never reported as a violation."""


class SimKill(BaseException):
    """The simulated process is killed here.

    Derives from BaseException so that ordinary error handling in the system
    does not intercept it; what cleanup code does afterwards has no effect,
    as the simulated disk is frozen from this moment."""


def derive(*parts) -> int:
    text = '\x1f'.join(str(p) for p in parts)
    return int.from_bytes(hashlib.sha256(text.encode()).digest()[:8], 'big')


def rng_for(*parts) -> _random.Random:
    return _random.Random(derive(*parts))


def digest(obj) -> str:
    return hashlib.sha256(
        json.dumps(obj, sort_keys=True, default=repr).encode()).hexdigest()[:16]


class Ctx:
    """Collects what one simulated run did."""

    def __init__(self):
        self.faults = Counter()
        self.probes = Counter()
        self.sim_time = 0.0
        self.steps = 0
        self.states: set[str] = set()
        self.log: list = []
        self.nontrivial = False

    def fault(self, kind: str, n: int = 1):
        self.faults[kind] += n

    def probe(self, name: str, n: int = 1):
        """A coverage probe: a situation worth reaching was reached."""
        self.probes[name] += n

    def state(self, *key):
        self.states.add(digest(key))

    def event(self, *what):
        self.log.append(what)

    def log_digest(self) -> str:
        return digest(self.log)


class Guard:
    """``with Guard('rule', 'doing x'):`` - an exception raised by the system
    where the property says it must succeed is a violation."""

    def __init__(self, rule: str, what: str, allow: tuple = ()):
        self.rule, self.what, self.allow = rule, what, allow

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if ev is None or isinstance(ev, (Violation, HarnessError, SimKill)):
            return False
        if self.allow and isinstance(ev, self.allow):
            return False
        if isinstance(ev, (GeneratorExit, SystemExit, MemoryError)):
            return False
        where = traceback.extract_tb(tb)[-1] if tb else None
        raise Violation(
            self.rule,
            f'{self.what} raised {et.__name__}: {str(ev)[:300]} '
            f'(at {where.filename.split("/")[-1]}:{where.name})'
            if where else f'{self.what} raised {et.__name__}: {ev}') from ev


# ------------------------------------------------------------------ shrinking
def _paths(case, prefix=()):
    if isinstance(case, dict):
        for k in sorted(case):
            yield from _paths(case[k], prefix + (k,))
    elif isinstance(case, list):
        yield prefix
        for i, v in enumerate(case):
            yield from _paths(v, prefix + (i,))


def _get(case, path):
    for p in path:
        case = case[p]
    return case


def _with(case, path, value):
    if not path:
        return value
    case = dict(case) if isinstance(case, dict) else list(case)
    case[path[0]] = _with(case[path[0]], path[1:], value)
    return case


def generic_shrinks(case, list_keys):
    """Candidates obtained by deleting chunks of the lists under list_keys."""
    for path in _paths(case):
        if not path or path[-1] not in list_keys:
            continue
        lst = _get(case, path)
        n = len(lst)
        size = n
        while size >= 1:
            for start in range(0, n, size):
                yield _with(case, path, lst[:start] + lst[start + size:])
            size //= 2


def minimise(case, still_fails, shrinks, budget: int, deadline, clock):
    """Greedy delta debugging: take the first candidate that still fails with
    the same rule, restart from it, until none does or the budget is spent."""
    tried = 0
    seen = {digest(case)}
    progress = True
    while progress and tried < budget and clock() < deadline:
        progress = False
        for cand in shrinks(case):
            d = digest(cand)
            if d in seen:
                continue
            seen.add(d)
            tried += 1
            if still_fails(cand):
                case = cand
                progress = True
                break
            if tried >= budget or clock() >= deadline:
                break
    return case, tried
