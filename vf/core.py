"""What a check module is made of."""

from __future__ import annotations

import dataclasses
from collections import Counter
from collections.abc import Callable
from typing import Any


class HarnessError(Exception):
    """The harness itself (not the code under test) failed: an error exit, never a violation."""


class Violation(AssertionError):
    """The property does not hold for this case."""


#: classes of cases seen by the running sub-check
LABELS: Counter[str] = Counter()


def label(name: str) -> None:
    LABELS[str(name)] += 1


def check(cond: Any, msg: Any = "") -> None:
    if not cond:
        raise Violation(str(msg() if callable(msg) else msg))


@dataclasses.dataclass
class Sub:
    """One generated check: `run(case)` raises if the property fails for `case`.

    Any exception that leaves `run` is a violation (valid input must be handled);
    `run` itself absorbs the exceptions the specification asks for.
    """

    name: str
    strategy: Callable[[], Any]  # () -> hypothesis strategy of plain picklable data
    run: Callable[[Any], Any]
    rule: str  # how cases are made and what makes one non-trivial
    nontrivial: Callable[[Any], bool] = lambda case: True
    quick: int = 200
    thorough: int = 4000
    shards_quick: int = 1
    shards_thorough: int = 4
    hang_s: float = 120.0  # one case taking longer than this makes no progress
    hang_is_violation: bool = True
    budget_quick: float = 75.0  # safety valve, seconds per worker
    budget_thorough: float = 1500.0
    pin: bool = False  # run each worker on one core (many short computations with their own thread pools)
    native: bool = False  # run on a scratch copy of /repo/mplang with the C++ kernels built in
    env: dict[str, str] = dataclasses.field(default_factory=dict)


@dataclasses.dataclass
class Known:
    """A listed finding: `probe()` is true while the code still shows it."""

    ident: str
    what: str
    probe: Callable[[], bool]
