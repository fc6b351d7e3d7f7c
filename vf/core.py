"""Vocabulary shared by the property modules."""
from __future__ import annotations

import contextlib
import dataclasses
import json
import re
from typing import Any, Callable


#: names of instruments that outlive a single case
KEEP: set[str] = set()


class Violation(AssertionError):
    """The property does not hold for this case."""


class Discard(Exception):
    """The case is outside the property's domain (counted, never a verdict)."""


class Abort(BaseException):
    """Internal: stop hypothesis (time is up)."""


@dataclasses.dataclass
class Sub:
    """One executable sub-property.

    strategy: zero-argument callable giving a hypothesis strategy of JSON-able cases
    check:    case -> dict(nontrivial=bool, tags=[...]) ; raises on violation
    quick / thorough: number of examples over all shards
    """

    name: str
    strategy: Callable[[], Any]
    check: Callable[[Any], dict]
    quick: int = 200
    thorough: int = 4000
    rule: str = ""


@dataclasses.dataclass
class Known:
    """A recorded genuine defect with its reproducer.

    `run` raises Violation while the defect is present.
    """

    id: str
    text: str
    run: Callable[[], None]


def expect(cond, msg, *args, **details):
    if not cond:
        text = msg % args if args else str(msg)
        if details:
            text += ": " + ", ".join(f"{k}={str(v)[:600]}" for k, v in details.items())
        raise Violation(text)


def impossible_gap(e) -> bool:
    """Gaps of 1 to 3 ns cannot be waited for; where no instruction before can be extended, the
    compiler refuses them with this message (a documented limit of the hardware)."""
    return isinstance(e, ValueError) and bool(
        re.search(r"Attempting to wait for [123] ns at", str(e)))


@contextlib.contextmanager
def sut(what: str, allow: tuple = ()):
    """Run code under test on an input it must accept: an exception is a violation."""
    try:
        yield
    except (Violation, Discard):
        raise
    except allow as e:
        raise Discard(f"{what}: {type(e).__name__}: {str(e)[:200]}") from e
    except Exception as e:  # noqa: BLE001
        if impossible_gap(e):
            raise Discard("a gap of 1 to 3 ns where no wait is possible") from e
        raise Violation(f"{what} raised {type(e).__name__}: {str(e)[:600]}") from e


def canon(case) -> str:
    return json.dumps(case, sort_keys=True)


def ok(nontrivial=True, tags=()):
    return {"nontrivial": bool(nontrivial), "tags": list(tags)}
