"""C04: a failing storage never corrupts the trie."""
from hypothesis import strategies as st

import gens
import objs
import refs
from engine import Campaign
from lib import ensure, must, same, short
from pymt.empt import EMPT
from pymt.mpt import MPT
from pymt.proof import Proof

RULE = (
    "For a trie reached by a generated history and a generated operation on it, a fault is injected "
    "at every single storage access of that operation in turn (reads, writes, removals, length, "
    "listing; writes of nodes also after they took effect), raising one of seven kinds of error (general, operating system, key, value, type, time, interrupt). After each: the error that reaches the "
    "caller is the storage's own, root, contents and stored data are those of before, and the "
    "operation repeated on the working storage gives the result it gives on an untouched clone. "
    "Non-trivial: an operation with at least two accesses, all of which were failed."
)
ASSUMPTIONS = [
    "A data storage that fails has not carried out the access (node storages may have).",
    "Rebuilding and clearing are sequences of operations and are left out, as the property says.",
]

PLAIN_OPS = ["update", "update", "delete", "delete", "get", "contains", "poi", "poe", "encode"]
EXT_OPS = ["update", "update", "delete", "delete", "pop", "popitem", "setdefault", "get", "contains",
           "reference", "poi", "poe", "iterate", "sparse"]


def result_of(fn):
    """What an operation gives, in a form to compare."""
    try:
        r = fn()
    except objs.StorageFault:
        raise
    except Exception as e:
        return ("raised", type(e).__name__)
    if isinstance(r, Proof):
        return ("proof", objs.proof_fields(r))
    return ("gave", r)


def plain_op(t, op, k, v):
    return {
        "update": lambda: t.update(k, v),
        "delete": lambda: t.delete(k),
        "get": lambda: t.get(k),
        "contains": lambda: t.contains(k),
        "poi": lambda: t.get_proof_of_inclusion(k),
        "poe": lambda: t.get_proof_of_exclusion(k),
        "encode": lambda: t.encode(),
    }[op]


def ext_op(t, op, k, v):
    return {
        "update": lambda: t.update(k, v),
        "delete": lambda: t.delete(k),
        "pop": lambda: t.pop(k),
        "popitem": lambda: t.popitem(),
        "setdefault": lambda: t.setdefault(k, v),
        "get": lambda: t.get(k),
        "contains": lambda: t.contains(k),
        "reference": lambda: t.get_reference(k).encode(),
        "poi": lambda: t.get_proof_of_inclusion(k),
        "poe": lambda: t.get_proof_of_exclusion(k),
        "iterate": lambda: sorted(x for x in t),  # (sorted alone asks for the length and ignores errors of that)
        "sparse": lambda: t.get_sparse_trie().root_hash(),
    }[op]


def run_faults(make, op, pick, k, v, model, secure, root_of, keys, ctx, late_modes, kind):
    """make() -> (trie, counter, data storage or None) after the history."""
    kind = objs.FAULTS[kind % len(objs.FAULTS)]
    if op == "setdefault" and issubclass(kind, KeyError):
        kind = objs.OSFault  # a key error here means that the key is absent
    ctx.tag("raising " + kind.__name__)
    clean, _, cdata = make()
    want = result_of(pick(clean, op, k, v))
    want_root = clean.root()
    want_data = None if cdata is None else dict(cdata._d)
    before_root = None
    total = 0
    for late in late_modes:
        n = 0
        while True:
            t, counter, data = make()
            before_root = t.root()
            before_data = None if data is None else dict(data._d)
            counter.arm(n, late, kind)
            what = "%s(%r) with the storage failing at access %d%s" % (
                op, k, n, " after the effect" if late else "")
            try:
                got = result_of(pick(t, op, k, v))
            except tuple(objs.FAULTS) as e:
                ensure(e is counter.fault, "%s: another error than the storage's came out", what)
                ensure(counter.fired is not None, "%s: strange fault", what)
                counter.disarm()
            else:
                fired = counter.fired
                counter.disarm()
                if fired is None:  # no access of that number: done
                    same(got, want, "%s without a fault" % op)
                    break
                ensure(False, "%s (%s): the error did not reach the caller, %s",
                       what, fired, short(got))
            ctx.count("faults")
            ctx.tag("fault at " + counter.fired)
            same(t.root(), before_root, "root after " + what)
            same(t.root_hash(), root_of(model), "root hash after " + what)
            if data is not None:
                same(dict(data._d), before_data, "stored data after " + what)
            for q in keys:
                here = must(t.contains, q, what="contains(%r) after %s" % (q, what))
                same(here, q in model, "contains(%r) after %s" % (q, what))
                if q in model:
                    same(must(t.get, q, what="get(%r) after %s" % (q, what)), model[q],
                         "get(%r) after %s" % (q, what))
            again = result_of(pick(t, op, k, v))
            same(again, want, "repeated %s after %s" % (op, what))
            same(t.root(), want_root, "root after the repeated %s, %s" % (op, what))
            if data is not None:
                same(dict(data._d), want_data, "stored data after the repeated %s" % what)
            n += 1
            if n > 400:
                ensure(False, "%s never ends its accesses", op)
        total = max(total, n)
    ctx.nt(total >= 2)
    ctx.tag("op " + op)


def replay_plain(case):
    counter = objs.Counter()
    t = MPT(objs.FaultyStore(counter), secure=case["secure"])
    model = {}
    for op in case["ops"]:
        k = case["keys"][op[1]]
        if op[0] == "u":
            t.update(k, op[2])
            model[k] = op[2]
        elif k in model:
            t.delete(k)
            del model[k]
    return t, counter, model


def check_plain(case, ctx):
    ctx.tag("secure" if case["secure"] else "plain")
    _, _, model = replay_plain(case)

    def make():
        t, counter, _ = replay_plain(case)
        return t, counter, None

    secure = case["secure"]
    k = case["keys"][case["target"] % len(case["keys"])]
    if case["miss"]:
        k = gens.near(k)[case["miss"] % len(gens.near(k))]
    op = PLAIN_OPS[case["op"] % len(PLAIN_OPS)]
    run_faults(make, op, plain_op, k, case["value"], model, secure,
               lambda m: refs.trie_root(gens.inner(m, secure)), case["keys"], ctx,
               (False, True) if op in ("update", "delete") else (False,), case.get("kind", 0))


def replay_ext(case):
    counter = objs.Counter()
    data = objs.FaultyData(counter)
    t = EMPT(objs.FaultyStore(counter), data, secure=case["secure"])
    model = {}
    for op in case["ops"]:
        k = case["keys"][op[1]]
        if op[0] == "u":
            t.update(k, op[2])
            model[k] = op[2]
        elif k in model:
            t.delete(k)
            del model[k]
    return t, counter, data, model


def check_ext(case, ctx):
    model = replay_ext(case)[3]

    def make():
        t, counter, data, _ = replay_ext(case)
        return t, counter, data

    secure = case["secure"]
    k = case["keys"][case["target"] % len(case["keys"])]
    if case["miss"]:
        k = gens.near(k)[case["miss"] % len(gens.near(k))]
    op = EXT_OPS[case["op"] % len(EXT_OPS)]
    run_faults(make, op, ext_op, k, case["value"], model, secure,
               lambda m: objs.ref_root(m, secure), case["keys"], ctx,
               (False, True) if op in ("update", "delete", "pop", "popitem", "setdefault") else (False,), case.get("kind", 0))


@st.composite
def faults(draw, max_keys, max_ops, nops):
    c = draw(gens.history(max_keys=max_keys, max_ops=max_ops, delete_share=2))
    c["target"] = draw(st.integers(0, len(c["keys"]) - 1))
    c["miss"] = draw(st.sampled_from([0, 0, 0, 0, 1, 2, 3, 5, 6]))
    c["op"] = draw(st.integers(0, nops - 1))
    c["value"] = draw(gens.values())
    c["kind"] = draw(st.integers(0, len(objs.FAULTS) - 1))
    return c


LEVEL = "fault_enumeration"

CAMPAIGNS = [
    Campaign("plain", lambda tier: faults(7, 12, len(PLAIN_OPS)), check_plain, 1800, 70000),
    Campaign("extended", lambda tier: faults(5, 8, len(EXT_OPS)), check_ext, 1000, 40000),
]
