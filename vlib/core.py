"""Shared vocabulary of all checks: parts, verdicts, tolerant comparisons."""
import json
from dataclasses import dataclass, field
from typing import Any, Callable, Dict, Optional

import numpy as np


class Violation(AssertionError):
    """The code under test broke the property on this case."""


class HarnessError(RuntimeError):
    """The harness itself is broken (never a verdict about the code)."""


@dataclass
class Part:
    """One generated check: a case strategy, an oracle and case counts per tier.

    check(case) raises Violation when the property is broken, else returns (nontrivial, labels).
    """

    name: str
    strategy: Callable[[], Any]
    check: Callable[[dict], Any]
    quick: int
    thorough: int
    rule: str
    fixed: tuple = ()  # explicit cases run first (regressions of repaired defects, corner cases)


@dataclass
class Known:
    """A recorded, unrepaired defect: probe() returns True while the listed input still fails."""

    text: str
    probe: Callable[[], bool]


def expect(cond, msg, **info):
    if not cond:
        raise Violation(msg + ("" if not info else " | " + ", ".join(f"{k}={_short(v)}" for k, v in info.items())))


def _short(v):
    if isinstance(v, np.ndarray):
        s = np.array2string(v, threshold=40, precision=12)
    else:
        s = repr(v)
    return s if len(s) < 600 else s[:600] + "..."


def expect_equal(got, want, msg):
    got, want = np.asarray(got), np.asarray(want)
    expect(got.shape == want.shape, msg + ": shape differs", got=got.shape, want=want.shape)
    if not np.array_equal(got, want, equal_nan=True) if got.dtype.kind == "f" else not np.array_equal(got, want):
        bad = np.argwhere(got != want)
        i = tuple(bad[0]) if len(bad) else ()
        raise Violation(f"{msg}: {len(bad)} of {got.size} entries differ, first at {tuple(map(int, i))}: got {got[i]!r}, want {want[i]!r}")


def expect_close(got, want, msg, rtol=1e-9, atol=1e-12):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    expect(got.shape == want.shape, msg + ": shape differs", got=got.shape, want=want.shape)
    ok = np.isclose(got, want, rtol=rtol, atol=atol, equal_nan=True)
    if not np.all(ok):
        bad = np.argwhere(~ok)
        i = tuple(bad[0])
        raise Violation(f"{msg}: {len(bad)} of {got.size} entries differ, first at {tuple(map(int, i))}: got {got[i]!r}, want {want[i]!r} (rtol={rtol}, atol={atol})")


def raises(fn, exc=Exception):
    """Returns the raised exception of the expected kind or None when fn returned."""
    try:
        fn()
    except exc as e:  # noqa: BLE001
        return e
    return None


def to_json(x):
    if isinstance(x, dict):
        return {str(k): to_json(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [to_json(v) for v in x]
    if isinstance(x, np.ndarray):
        return to_json(x.tolist())
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    return x


def dumps(x):
    return json.dumps(to_json(x), sort_keys=True)
