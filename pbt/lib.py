"""Vocabulary of the checks: violations, context, case encoding."""
import hashlib
import json
from collections import Counter


class Violation(Exception):
    """The code under test broke the property on this case."""


class Ctx:
    """What one case tells about itself; merged into the evidence."""

    def __init__(self):
        self.tags = set()
        self.nontrivial = False
        self.counts = Counter()

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True

    def tag(self, *labels):
        self.tags.update(labels)

    def count(self, name, n=1):
        self.counts[name] += n


def short(x, n=160):
    s = repr(x)
    return s if len(s) <= n else s[: n - 20] + "...<%d chars>" % len(s)


def must(fn, *args, what=None, **kw):
    """Call that has to succeed; returns its result."""
    try:
        return fn(*args, **kw)
    except Violation:
        raise
    except Exception as e:
        raise Violation(
            "%s raised %s: %s"
            % (what or getattr(fn, "__name__", "call"), type(e).__name__, short(str(e)))
        )


def refuses(fn, *args, types=Exception, what=None, **kw):
    """Call that has to raise one of `types`."""
    try:
        got = fn(*args, **kw)
    except Violation:
        raise
    except types:
        return
    except Exception as e:
        raise Violation(
            "%s raised %s (%s) instead of %s"
            % (what or getattr(fn, "__name__", "call"), type(e).__name__, short(str(e)), types)
        )
    raise Violation(
        "%s returned %s instead of raising"
        % (what or getattr(fn, "__name__", "call"), short(got))
    )


def attempt(fn, *args, **kw):
    """(True, result) or (False, exception)."""
    try:
        return True, fn(*args, **kw)
    except Violation:
        raise
    except Exception as e:
        return False, e


def same(got, want, what):
    if not (got == want):
        raise Violation("%s: got %s, expected %s" % (what, short(got), short(want)))


def spread(i, n):
    """A position below n: near the beginning, near the end or in between."""
    return [i, n - 1 - i, i * n // 20011][i % 3] % n


def ensure(cond, what, *args):
    if not cond:
        raise Violation(what % args if args else what)


# ---------------------------------------------------------------- case encoding
def enc(x):
    if isinstance(x, bytes):
        return {"$b": x.hex()}
    if isinstance(x, bytearray):
        return {"$ba": bytes(x).hex()}
    if isinstance(x, (list, tuple)):
        return [enc(i) for i in x]
    if isinstance(x, dict):
        return {str(k): enc(v) for k, v in x.items()}
    if x is None or isinstance(x, (bool, int, str, float)):
        return x
    raise TypeError("case holds %r" % (x,))


def dec(x):
    if isinstance(x, list):
        return [dec(i) for i in x]
    if isinstance(x, dict):
        if set(x) == {"$b"}:
            return bytes.fromhex(x["$b"])
        if set(x) == {"$ba"}:
            return bytearray.fromhex(x["$ba"])
        return {k: dec(v) for k, v in x.items()}
    return x


def case_key(case):
    return hashlib.blake2b(
        json.dumps(enc(case), sort_keys=True).encode(), digest_size=8
    ).digest()
