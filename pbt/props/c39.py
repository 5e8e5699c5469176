"""C39: results do not depend on the process."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

from hypothesis import strategies as st

import env
import gens
import handover
import keys
import program
from engine import Campaign
from lib import enc, ensure, same
from props.c25 import nickname, passphrase

RULE = (
    "Generated programs (operations on tries of all kinds, Merkle trees, proofs, nodes, paths, a key pair and the "
    "helpers) run in processes that differ in the seed of Python's hash function, optimisation (assertions and "
    "docstrings removed), locale, text mode, time zone, working directory, umask and development mode. All "
    "transcripts have to be equal. What one of them serialises, exports, encrypts or signs is read by all others and "
    "has to give what was put in. Non-trivial: a program of which at least two operations succeeded, or a hand-over."
)
ASSUMPTIONS = ["One version of Python and of the installed libraries."]

WORKER = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "worker.py")
# (label, options of python, environment, working directory, umask)
SETTINGS = [
    ("plain", [], {"PYTHONHASHSEED": "0"}, None, 0o022),
    ("optimised, other hash seed", ["-O"], {"PYTHONHASHSEED": "1", "TZ": "Pacific/Kiritimati"}, "/", 0o022),
    ("C locale, third hash seed", ["-OO"],
     {"PYTHONHASHSEED": "4242", "LC_ALL": "C", "LANG": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0",
      "TZ": "America/St_Johns", "HOME": "/nonexistent"}, "/tmp", 0o077),
    ("development mode, random hash seed", ["-X", "dev", "-W", "ignore"],
     {"PYTHONHASHSEED": "random", "LC_ALL": "C.UTF-8", "PYTHONUTF8": "1", "TZ": "UTC"}, "/dev", 0o000),
]
_workers = {}


def workers():
    me = os.getpid()
    if me not in _workers:
        _workers.clear()
        got = []
        for label, options, more, cwd, umask in SETTINGS:
            e = {k: v for k, v in os.environ.items() if not k.startswith(("LC_", "LANG", "PYTHON", "TZ"))}
            e.update(more)
            e["PYTHONDONTWRITEBYTECODE"] = "1"
            e["PYMT_REPO"] = env.REPO
            got.append((label, subprocess.Popen(
                [sys.executable, "-B"] + options + [WORKER], env=e, cwd=cwd, umask=umask, text=True,
                encoding="ascii", stdin=subprocess.PIPE, stdout=subprocess.PIPE)))
        _workers[me] = got
    return _workers[me]


def ask(ws, job):
    line = json.dumps(enc(job)) + "\n"
    for _, w in ws:
        w.stdin.write(line)
        w.stdin.flush()
    texts = [(label, w.stdout.readline()) for label, w in ws]
    for label, t in texts:
        if not t:
            raise RuntimeError("the process %r ended" % label)
    return texts


def check(case, ctx):
    texts = ask(workers(), case)
    first = json.loads(texts[0][1])
    ensure(type(first) is list, "the program %s", first)
    for label, t in texts[1:]:
        t = json.loads(t)
        ensure(type(t) is list, "the program %s (%s)", t, label)
        for n, (a, b) in enumerate(zip(t, first)):
            same(a, b, "step %d, %s" % (n, label))
        same(len(t), len(first), "steps, " + label)
    good = sum(type(x[1]) is list for x in first)
    ctx.nt(good >= 2)
    ctx.count("steps compared", len(first) * (len(texts) - 1))
    for x in first:
        ctx.tag("op %s%s" % (x[0], "" if type(x[1]) is list else " raised"))


def check_handover(case, ctx):
    ws = workers()
    spec = {k: v for k, v in case.items() if k != "maker"}
    folder = tempfile.mkdtemp(prefix="pbt-c39-")
    try:
        label, t = ask([ws[case["maker"]]], {"make": spec, "folder": folder})[0]
        t = json.loads(t)
        ensure(t[0] == "made", "writing %s (%s): %s", case["part"], label, t)
        for reader, r in ask(ws, {"read": spec, "made": t[1], "folder": folder}):
            r = json.loads(r)
            ensure(r[0] == "read", "reading %s written by the process %r in the process %r: %s", case["part"], label, reader, r)
            for what, good, got, want in r[1]:
                ensure(good, "%s, written by the process %r, read by %r: got %s, expected %s", what, label, reader, got, want)
            ctx.count("facts compared", len(r[1]))
    finally:
        shutil.rmtree(folder, ignore_errors=True)
    ctx.tag("hand-over of " + case["part"], "written by " + label)
    ctx.nt()


@st.composite
def handovers(draw):
    ks = draw(gens.key_pool(1, 6))
    return {"part": draw(st.sampled_from(handover.PARTS)), "maker": draw(st.integers(0, len(SETTINGS) - 1)),
            "contents": [[k, draw(gens.values())] for k in ks], "secure": draw(st.booleans()),
            "kind": draw(st.sampled_from(["all", "auth", "enc"])), "key": draw(st.sampled_from(keys.SMALL)),
            "nick": draw(nickname()), "secret": draw(passphrase()),
            "password": draw(st.text(st.characters(codec="utf-8"), min_size=0, max_size=8)),
            "message": draw(st.binary(max_size=60))}


CAMPAIGNS = [Campaign("programs", lambda tier: program.programs(most=14, pair=True), check, 2000, 20000),
             Campaign("hand-over", lambda tier: handovers(), check_handover, 400, 4000)]
