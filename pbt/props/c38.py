"""C38: separate objects can be used in parallel."""
import json
import os

from hypothesis import strategies as st

import gens
import keys
import program
import sched
from engine import Campaign
from lib import ensure, same

RULE = (
    "Two to four generated programs (operations on tries of all kinds, Merkle trees, proofs, nodes, paths, "
    "key pairs and the helpers, each on objects of its own) run in threads of one process under a generated "
    "schedule that decides after how many lines or bytecode instructions of the code under test the next thread "
    "goes on. The transcript of each has to be the one of the program run alone in a fresh process. Non-trivial: "
    "at least two programs that each changed an object and at least four switches inside the library. In "
    "\"meetings\" the objects are made first and then the same one or two calls (verification, proving, lookup, "
    "encryption, node and path coding and so on) are made by all threads at once, switching every few lines."
)
ASSUMPTIONS = ["The threads share no object, storage or key pair.",
               "Switches happen at lines and instructions of the library, not inside its dependencies."]


def alone(progs, pairs):
    """The transcripts of the programs, each made in a process of its own."""
    out = []
    for p, x in zip(progs, pairs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                with os.fdopen(w, "w") as f:
                    json.dump(program.run(p, x), f)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        with os.fdopen(r) as f:
            text = f.read()
        _, status = os.waitpid(pid, 0)
        if status:
            raise RuntimeError("a program alone ended with status %d" % status)
        out.append(json.loads(text))
    return out


CHANGES = ("mpt", "mpt-", "empt", "empt-", "sparse", "sparse-", "tree", "tools")


def check(case, ctx):
    progs = case["programs"]
    pairs = [keys.pair("all", i) if any(o[0].startswith("pair") for o in p["ops"]) else None
             for i, p in enumerate(progs)]
    want = alone(progs, pairs)
    run = sched.Run([lambda p=p, x=x: program.run(p, x) for p, x in zip(progs, pairs)],
                    case["schedule"], case["fine"])
    got = run.run()
    for i, (how, r) in enumerate(got):
        if how == "raised":
            ensure(False, "program %d ended with %s: %s", i, type(r).__name__, r)
        r = json.loads(json.dumps(r))
        for n, (a, b) in enumerate(zip(r, want[i])):
            same(a, b, "step %d of program %d, run next to others" % (n, i))
        same(len(r), len(want[i]), "steps of program %d" % i)
    ctx.count("switches", run.switches)
    ctx.count("steps", run.steps)
    ctx.tag("%d programs" % len(progs), "by instruction" if case["fine"] else "by line")
    for p in progs:
        for o in p["ops"]:
            ctx.tag("op " + o[0])
    ctx.nt(run.switches >= 4 and sum(any(o[0] in CHANGES for o in p["ops"]) for p in progs) >= 2)


@st.composite
def cases(draw):
    n = draw(st.sampled_from([2, 2, 2, 3, 4]))
    if draw(st.sampled_from([0, 0, 1])):  # the same work at the same time
        p = draw(program.programs(most=6, pair=True))
        progs = [p] + [dict(p, keys=[bytes(reversed(k)) + bytes([i]) for k in p["keys"]],
                            vals=[v + bytes([i]) for v in p["vals"]]) for i in range(1, n)]
    else:
        progs = [draw(program.programs(most=6, pair=True)) for _ in range(n)]
    fine = draw(st.sampled_from([False, False, True]))
    pace = draw(st.sampled_from([(1, 3), (1, 12), (1, 12), (5, 60), (20, 200), (1, 200)]))
    schedule = draw(st.lists(st.integers(*pace), min_size=2, max_size=80))
    if draw(st.booleans()):  # the same rhythm to the end
        schedule = (schedule * 40)[:600]
    return {"programs": progs, "fine": fine, "schedule": schedule}


# ------------------------------------------- the same call, at the same time
# What is done beforehand, and then the calls that meet each other.
MEETINGS = [
    (["mpt", "mpt", "mpt", "mpt+", "mpt+", "mpt+"], ["verify"]),
    (["mpt", "mpt", "mpt", "mpt!", "mpt!", "mpt!"], ["verify"]),
    (["empt", "empt", "empt:", "empt+", "empt!"], ["verify"]),
    (["tree", "tree+"], ["verify", "tree+"]),
    (["mpt", "mpt"], ["mpt?"]),
    (["mpt", "mpt"], ["mpt+", "mpt!"]),
    (["mpt", "mpt", "mpt"], ["mpt", "mpt-"]),
    (["mpt", "mpt", "mpt"], ["mpt=", "mpt@", "old"]),
    (["empt", "empt"], ["empt?", "empt"]),
    (["empt", "empt", "empt"], ["empt-", "empt:"]),
    (["empt", "empt"], ["empt+", "empt!"]),
    (["sparse", "sparse"], ["sparse", "sparse-"]),
    (["tree"], ["tree", "tree0"]),
    (["tree"], ["tools"]),
    (["tree+", "mpt", "mpt+"], ["coded"]),
    (["crypt"], ["crypt"]),
    (["crypt", "crypt"], ["crypt-"]),
    ([], ["path"]),
    ([], ["node"]),
    ([], ["ref", "hash"]),
    ([], ["stamp"]),
]


def check_meeting(case, ctx):
    progs = case["programs"]
    pairs = [keys.pair("all", i) if any(o[0].startswith("pair") for o in p["ops"]) else None
             for i, p in enumerate(progs)]
    want = alone([dict(p, ops=p["before"] + p["ops"]) for p in progs], pairs)
    machines = [program.Machine(dict(p, pair=x)) for p, x in zip(progs, pairs)]
    first = [program.steps(m, p["before"]) for m, p in zip(machines, progs)]
    run = sched.Run([lambda m=m, p=p: program.steps(m, p["ops"]) for m, p in zip(machines, progs)],
                    case["schedule"], case["fine"])
    for i, (how, r) in enumerate(run.run()):
        if how == "raised":
            ensure(False, "program %d ended with %s: %s", i, type(r).__name__, r)
        r = json.loads(json.dumps(first[i] + r))
        for n, (a, b) in enumerate(zip(r, want[i])):
            same(a, b, "step %d of program %d, run next to others" % (n, i))
        same(len(r), len(want[i]), "steps of program %d" % i)
    ctx.count("switches", run.switches)
    ctx.count("steps", run.steps)
    ctx.tag("by instruction" if case["fine"] else "by line")
    for o in progs[0]["ops"]:
        ctx.tag("op " + o[0])
    ctx.nt(run.switches >= 4)


@st.composite
def meetings(draw):
    before, ops = draw(st.sampled_from(MEETINGS + MEETINGS[:3] * 2 + [([], ["pair", "pair*"])]))
    n = draw(st.sampled_from([2, 2, 2, 3]))
    few = 1 if ops[0] == "pair" else 2
    pool = draw(gens.key_pool(1, 5))
    progs = []
    for i in range(n):
        p = draw(program.programs(most=2))
        if draw(st.booleans()):
            p["keys"] = pool
        p["before"] = [[o, draw(st.integers(0, 9)), draw(st.integers(0, 14))] for o in before]
        p["ops"] = [[draw(st.sampled_from(ops)), draw(st.integers(0, 9)), draw(st.integers(0, 14))]
                    for _ in range(draw(st.integers(1, few)))]
        progs.append(p)
    if draw(st.booleans()):  # the very same steps on other objects and values
        progs = [dict(progs[0], vals=[v + bytes([i]) if i else v for v in progs[0]["vals"]]) for i in range(n)]
    fine = draw(st.sampled_from([False, False, False, True]))
    pace = draw(st.sampled_from([(1, 1), (1, 3), (1, 8), (1, 30), (2, 20), (10, 60)]))
    # Head starts: the same lines would otherwise be reached at the same time.
    start = draw(st.lists(st.integers(1, 90 * (7 if fine else 1)), min_size=n - 1, max_size=2 * n))
    schedule = draw(st.lists(st.integers(*pace), min_size=3, max_size=40))
    return {"programs": progs, "fine": fine, "schedule": start + (schedule * 400)[:3000]}


CAMPAIGNS = [Campaign("schedules", lambda tier: cases(), check, 1200, 24000, isolate=True),
             Campaign("meetings", lambda tier: meetings(), check_meeting, 2400, 30000, isolate=True)]
