"""C02: the root hash is the canonical Ethereum root of the contents."""
from hypothesis import strategies as st

import gens
import refs
from engine import Campaign, Enumeration
from lib import attempt, ensure, must, same
from props import again, endurance, large, longs
from pymt.mpt import MPT

RULE = (
    "The root hash after every step of a history of writes and deletions is compared with the root "
    "that refs.trie_root (an implementation of the definition in the yellow paper that sees only the "
    "contents, checked against the Ethereum foundation's vectors at every start) gives for the model "
    "dictionary. Non-trivial: a stored key was deleted or overwritten while another key was stored. "
    "The enumeration takes every set of up to three (thorough: four) keys of a universe of nine in "
    "every order with every deletion."
) + large.RULE + endurance.RULE + again.RULE + longs.RULE
ASSUMPTIONS = [
    "Keccak-256 of the reference is pycryptodome's, compared with an own implementation (C27).",
    "Keys and values are bytes, values are not empty.",
]


def root_is(t, model, secure, when):
    got = must(t.root_hash, what="root_hash")
    ensure(isinstance(got, bytes), "root_hash returned %r", got)
    same(got, refs.trie_root(gens.inner(model, secure)), "root hash %s" % when)


def check_history(case, ctx):
    secure = case["secure"]
    ctx.tag("secure" if secure else "plain")
    t = MPT({}, secure=secure)
    model = {}
    root_is(t, model, secure, "of the new trie")
    for step, op in enumerate(case["ops"]):
        k = case["keys"][op[1]]
        if op[0] == "u":
            ctx.nt(k in model and len(model) > 1)
            must(t.update, k, op[2], what="update(%r)" % k)
            model[k] = op[2]
        else:
            was = k in model
            ok, _ = attempt(t.delete, k)
            if was:
                ctx.nt(len(model) > 1)
                ensure(ok, "delete of the stored key %r failed", k)
                del model[k]
                if not model:
                    ctx.tag("emptied")
        ctx.count("roots")
        root_is(t, model, secure, "after step %d (%s %r)" % (step, op[0], k))
    # The same contents in another order.
    t2 = MPT({}, secure=secure)
    for k in sorted(model, key=lambda k: (refs.keccak(k), k)):
        t2.update(k, model[k])
    root_is(t2, model, secure, "of the contents put in another order")
    n = len(model)
    ctx.tag("final size %s" % (n if n < 3 else "3-9" if n < 10 else "10+"))
    if model:
        ctx.tag("root " + refs.node_kind(refs.trie_root_node(gens.inner(model, secure))))
        if len(refs.trie_root_node(gens.inner(model, secure))) < 32:
            ctx.tag("inline root")


def check_orders(case, ctx):
    from itertools import permutations

    keys, vals = case["keys"], case["vals"]
    n = len(keys)
    ctx.nt(n > 1)
    for order in permutations(range(n)):
        t = MPT({})
        model = {}
        for i in order:
            t.update(keys[i], vals[i])
            model[keys[i]] = vals[i]
            root_is(t, model, False, "after inserting in the order %r" % (order,))
        for i in order[::-1] if order[0] % 2 else order:
            must(t.delete, keys[i], what="delete(%r)" % keys[i])
            del model[keys[i]]
            root_is(t, model, False, "after deleting %r (order %r)" % (keys[i], order))
            ctx.count("roots", 2)


@st.composite
def bulk(draw):
    """Many keys of one length, as addresses or counters are."""
    size = draw(st.sampled_from([1, 2, 3, 4, 8, 20, 32]))
    n = draw(st.integers(20, 120))
    step = draw(st.sampled_from([1, 1, 16, 255, 4097]))
    start = draw(st.integers(0, 1 << 12))
    top = 1 << (8 * size)
    keys = list(dict.fromkeys(((start + i * step) % top).to_bytes(size, "big") for i in range(n)))
    vlen = draw(st.sampled_from([1, 5, 30, 40]))
    rounds = draw(st.lists(st.tuples(st.booleans(), st.integers(1, 7), st.integers(0, 6)), max_size=4))
    return {"secure": draw(st.booleans()), "keys": keys, "vlen": vlen,
            "rounds": [list(r) for r in rounds]}


def check_bulk(case, ctx):
    secure = case["secure"]
    t = MPT({}, secure=secure)
    model = {}
    for i, k in enumerate(case["keys"]):
        v = (b"%d/" % i + k * 8 + b"v" * case["vlen"])[: case["vlen"]]
        t.update(k, v)
        model[k] = v
    root_is(t, model, secure, "after %d inserts" % len(model))
    for drop, every, off in case["rounds"]:
        for k in case["keys"][off::every]:
            if drop and k in model:
                must(t.delete, k, what="delete(%r)" % k)
                del model[k]
            elif not drop:
                t.update(k, b"again" + k)
                model[k] = b"again" + k
        ctx.nt()
        ctx.count("roots")
        root_is(t, model, secure, "after a round over every %d-th key" % every)


CAMPAIGNS = [
    Enumeration("long values", longs.cases, longs.check_root),
    Enumeration("small-sets", lambda tier: gens.small_contents(most=3 if tier == "quick" else 4), check_orders),
    Campaign("history", lambda tier: gens.history(max_keys=12, max_ops=40), check_history, 3000, 120000),
    Campaign("bulk", lambda tier: bulk(), check_bulk, 120, 5000),
    Campaign("scale", lambda tier: gens.scale(400), large.check_root, 56, 2400),
    Enumeration("endurance", endurance.tries, endurance.check_root),
    Campaign("again", lambda tier: again.programs(("mpt", "sparse", "empt")), again.check_root, 1200, 40000),
]
