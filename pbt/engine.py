"""Campaign engine: generated cases against explicit oracles.

A property module (props/cNN.py) has CAMPAIGNS, a list of

  Campaign(name, strategy, check, quick, thorough)  Hypothesis-driven search
  Enumeration(name, cases, check)                    complete small scope

where check(case, ctx) raises lib.Violation when the oracle disagrees. `case` is
plain data (lists, bytes, ints, strings) so a failing one, after shrinking, is
written to a file from which it runs again without Hypothesis.

Each campaign is cut into shards; a shard runs in a process of its own, with a
seed that depends on VERIF_SEED, the campaign and the shard only. The numbers of
cases are fixed: no time budget decides what is explored.
"""
import hashlib
import json
import os
import resource
import signal
import sys
import time
import traceback
from collections import Counter

import env
from lib import Ctx, Violation, case_key, dec, enc

CASE_SECONDS = 60
SHRINK_SECONDS = 25


class Campaign:
    def __init__(self, name, strategy, check, quick, thorough=None, shards=8, isolate=False):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough = quick, thorough or quick * 12
        self.shards, self.isolate = shards, isolate

    def amount(self, tier):
        return self.quick if tier == "quick" else self.thorough


class Enumeration:
    """cases(tier) yields every case of a finite space."""

    def __init__(self, name, cases, check, shards=8, isolate=False):
        self.name, self.cases, self.check = name, cases, check
        self.shards, self.isolate = shards, isolate


class CaseTimeout(BaseException):
    pass


def shard_seed(seed, name, shard):
    h = hashlib.sha256(("%d/%s/%d" % (seed, name, shard)).encode()).digest()
    return int.from_bytes(h[:6], "big")


# ----------------------------------------------------------------- one case
def _run_direct(camp, case):
    """Returns (ctx, None) or (ctx, message). Harness errors propagate."""
    ctx = Ctx()
    try:
        camp.check(case, ctx)
        return ctx, None
    except Violation as v:
        return ctx, str(v)
    except Exception as e:
        if env.in_code_under_test(e.__traceback__):
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if os.path.abspath(f.filename).startswith(env.SRC)][-1]
            return ctx, "unexpected %s in %s: %s" % (
                type(e).__name__, where.name, str(e)[:200])
        raise


def _run_isolated(camp, case):
    """Runs the case in a child process: no state survives it."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            ctx, msg = _run_direct(camp, case)
            out = json.dumps([sorted(ctx.tags), ctx.nontrivial, dict(ctx.counts), msg])
            with os.fdopen(w, "w") as f:
                f.write(out)
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r) as f:
            out = f.read()
    except CaseTimeout:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    _, status = os.waitpid(pid, 0)
    if status != 0 or not out:
        raise RuntimeError("isolated case ended with status %d" % status)
    tags, nt, counts, msg = json.loads(out)
    ctx = Ctx()
    ctx.tags, ctx.nontrivial, ctx.counts = set(tags), nt, Counter(counts)
    return ctx, msg


def run_case(camp, case):
    # Plain data only, fresh objects for every execution.
    case = dec(enc(case))
    return (_run_isolated if camp.isolate else _run_direct)(camp, case)


# ---------------------------------------------------------------- one shard
class ShardResult(dict):
    pass


def _on_alarm(signum, frame):
    raise CaseTimeout()


class Shard:
    def __init__(self, camp, shard, tier, seed, send):
        self.camp, self.shard, self.tier, self.seed = camp, shard, tier, seed
        self.send = send
        self.n = 0
        self.nt_keys = set()
        self.tags = Counter()
        self.counts = Counter()
        self.samples = []
        self.first_fail = self.last_fail = None
        self.timeouts = []

    def summary(self, **kw):
        d = dict(
            campaign=self.camp.name, shard=self.shard, n=self.n,
            nt=b"".join(sorted(self.nt_keys)).hex(), tags=dict(self.tags),
            counts=dict(self.counts), samples=self.samples,
            first_fail=self.first_fail, last_fail=self.last_fail,
            timeouts=self.timeouts, error=None,
        )
        d.update(kw)
        return d

    def one(self, case):
        """Runs a case and keeps the books. Returns the message of a violation."""
        signal.setitimer(signal.ITIMER_REAL, CASE_SECONDS)
        try:
            ctx, msg = run_case(self.camp, case)
        except CaseTimeout:
            self.timeouts.append(enc(case))
            signal.setitimer(signal.ITIMER_REAL, 0)
            # Whatever the search would do next, report what did not end.
            self.send(self.summary())
            os._exit(0)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if msg is None:
            self.n += 1
            if ctx.nontrivial:
                k = case_key(case)
                if k not in self.nt_keys:
                    self.nt_keys.add(k)
                    if len(self.samples) < 2 and len(self.nt_keys) in (3, 40):
                        s = json.dumps(enc(case))
                        if len(s) <= 6000:
                            self.samples.append(json.loads(s))
            for t in ctx.tags:
                self.tags[t] += 1
            self.counts.update(ctx.counts)
            return None
        fail = {"case": enc(case), "message": msg}
        if self.first_fail is None:
            self.first_fail = fail
        self.last_fail = fail
        return msg

    def run_enumeration(self):
        for i, case in enumerate(self.camp.cases(self.tier)):
            if i % self.camp.shards != self.shard:
                continue
            if self.one(case) is not None:
                return

    def run_campaign(self):
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings
        from hypothesis.internal.conjecture import engine as hengine

        hengine.MAX_SHRINKING_SECONDS = SHRINK_SECONDS
        total = self.camp.amount(self.tier)
        n = max(1, (total + self.camp.shards - 1) // self.camp.shards)

        @hypothesis.seed(shard_seed(self.seed, self.camp.name, self.shard))
        @settings(
            max_examples=n, database=None, deadline=None, derandomize=False,
            report_multiple_bugs=False, print_blob=False,
            phases=(Phase.generate, Phase.shrink),
            suppress_health_check=list(HealthCheck),
            verbosity=hypothesis.Verbosity.quiet,
        )
        @given(self.camp.strategy(self.tier))
        def test(case):
            msg = self.one(case)
            if msg is not None:
                raise Violation(msg)

        try:
            test()
        except BaseException as e:
            if self.last_fail is None:
                raise
            if not isinstance(e, Exception):
                raise

    def run(self):
        try:
            if isinstance(self.camp, Enumeration):
                self.run_enumeration()
            else:
                self.run_campaign()
            self.send(self.summary())
        except BaseException:
            self.send(self.summary(error=traceback.format_exc()))


def _limits():
    try:
        gb = 1 << 30
        resource.setrlimit(resource.RLIMIT_AS, (6 * gb, 6 * gb))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except (ValueError, OSError):
        pass


def shard_process(camp, shard, tier, seed, wfd):
    signal.signal(signal.SIGALRM, _on_alarm)
    _limits()

    def send(d):
        data = json.dumps(d).encode()
        with os.fdopen(os.dup(wfd), "wb") as f:
            f.write(data)

    sys.setrecursionlimit(1000)
    Shard(camp, shard, tier, seed, send).run()
    sys.stdout.flush()
    os._exit(0)


def run_all(campaigns, tier, seed, jobs, log):
    """Runs all shards of all campaigns; yields their summaries. Stops early once
    one of them failed."""
    import select

    todo = []
    most = max((c.shards for c in campaigns), default=0)
    for shard in range(most):
        for c in campaigns:
            if shard < c.shards:
                todo.append((c, shard))
    running = {}
    results = []
    failed = False
    while todo or running:
        while todo and len(running) < jobs and not failed:
            c, shard = todo.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                for other in running:
                    os.close(other)
                shard_process(c, shard, tier, seed, w)
            os.close(w)
            running[r] = (pid, c, shard, bytearray())
        if failed and not running:
            break
        ready, _, _ = select.select(list(running), [], [], 1.0)
        for r in ready:
            pid, c, shard, buf = running[r]
            chunk = os.read(r, 1 << 20)
            if chunk:
                buf += chunk
                continue
            os.close(r)
            del running[r]
            _, status = os.waitpid(pid, 0)
            if buf:
                d = json.loads(bytes(buf).decode())
            else:
                d = dict(campaign=c.name, shard=shard, n=0, nt="", tags={}, counts={},
                         samples=[], first_fail=None, last_fail=None, timeouts=[],
                         error="shard process ended with status %d" % status)
            results.append(d)
            if d["last_fail"] or d["timeouts"]:
                failed = True
        if failed:
            # The verdict is known; the rest is not needed.
            for r, (pid, c, shard, buf) in running.items():
                try:
                    os.kill(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
            for r, (pid, c, shard, buf) in running.items():
                os.close(r)
                os.waitpid(pid, 0)
            running = {}
            todo = []
    return results
