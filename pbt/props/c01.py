"""C01: the Patricia trie is an exact key-value map."""
from hypothesis import strategies as st

import gens
import refs
from engine import Campaign, Enumeration
from lib import attempt, ensure, must, refuses, same, short
from props import again, endurance, large, longs
from pymt.mpt import MPT
from pymt.utils import exceptions as errors

RULE = (
    "Histories of writes and deletions over a pool of up to 10 related keys (prefix families, "
    "few-nibble keys, long keys with shared beginnings, nested prefixes), compared with a "
    "dictionary after every step, absent and near-miss keys included. Non-trivial: at some "
    "moment at least two keys were stored and a stored key was deleted or overwritten. "
    "The enumeration takes every set of up to three keys of a universe of nine, every short/long "
    "value pattern, and every order of insertion with a deletion of each key in turn."
) + large.RULE + endurance.RULE + again.RULE + longs.RULE
ASSUMPTIONS = [
    "Keys and values are bytes, values are not empty; nesting of keys stays below what the "
    "interpreter's recursion limit allows (about 490 nested prefixes, known finding D27).",
]

# The lookup errors of the library.
LOOKUP = (KeyError, errors.KeyNotFoundError, errors.LeafPathError, errors.ExtensionPathError,
          errors.BranchPathError)
EMPTY = LOOKUP + (ValueError,)


def observe(t, model, keys, ctx, operators=False):
    """Compares every answer of the trie for the keys with the model."""
    has = t.__contains__ if operators else t.contains
    get = t.__getitem__ if operators else t.get
    for k in keys:
        ctx.count("lookups")
        here = must(has, k, what="contains(%r)" % k)
        ensure(here is True or here is False, "contains(%r) returned %r", k, here)
        same(here, k in model, "contains(%r)" % k)
        if not operators:  # the key as it is in the trie
            inside = refs.keccak(k) if t.secure else k
            same(must(has, inside, hash_key=False, what="contains(hash_key=False)"), k in model,
                 "contains(%r, hash_key=False), the key in the trie for %r" % (inside, k))
        if k in model:
            same(must(get, k, what="get(%r)" % k), model[k], "get(%r)" % k)
        else:
            refuses(get, k, types=LOOKUP if model else EMPTY, what="get of the absent key %r" % k)


def absent_deletes(t, model, keys, ctx):
    for k in keys:
        if k in model:
            continue
        ctx.count("absent_deletes")
        before = t.root_hash()
        refuses(t.delete, k, types=LOOKUP if model else EMPTY, what="delete of the absent key %r" % k)
        same(t.root_hash(), before, "root hash after the refused delete of %r" % k)


def check_history(case, ctx):
    t = MPT({}, None, case["secure"]) if len(case["ops"]) % 2 else MPT({}, secure=case["secure"])
    same(t.secure, case["secure"], "secure")
    model = {}
    keys = case["keys"]
    ctx.tag("secure" if case["secure"] else "plain")
    for step, op in enumerate(case["ops"]):
        k = keys[op[1]]
        if op[0] == "u":
            if k in model and len(model) > 1:
                ctx.nt()
                ctx.tag("overwrite")
            if step % 2:
                must(t.update, k, op[2], what="update(%r)" % k)
            else:
                must(t.__setitem__, k, op[2], what="[%r]=" % k)
            model[k] = op[2]
        elif k in model:
            if len(model) > 1:
                ctx.nt()
                ctx.tag("delete")
            must(t.delete if step % 2 else t.__delitem__, k, what="delete(%r)" % k)
            del model[k]
            if not model:
                ctx.tag("emptied")
        else:
            before = t.root_hash()
            refuses(t.delete if step % 2 else t.__delitem__, k, types=LOOKUP if model else EMPTY,
                    what="delete of the absent key %r" % k)
            same(t.root_hash(), before, "root hash after the refused delete of %r" % k)
            ctx.tag("absent delete")
        # Everything now and then, what the operation was about always.
        observe(t, model, keys if step % 4 == 3 else [k], ctx, operators=step % 3 == 1)
        if step % 4 == 1:
            observe(t, model, gens.near(k)[:4], ctx)
    asked = gens.probes(model, keys, 60)
    absent_deletes(t, model, asked, ctx)
    observe(t, model, asked, ctx)
    observe(t, model, keys, ctx, operators=True)
    if b"" in model:
        ctx.tag("empty key")


def big_history(tier):
    return gens.history(max_keys=40, max_ops=70)


def check_orders(case, ctx):
    """All orders of insertion of the keys; after each, every deletion."""
    from itertools import permutations

    n = len(case["keys"])
    ctx.nt(n > 1)
    for order in permutations(range(n)):
        t = MPT({})
        for i in order:
            t.update(case["keys"][i], case["vals"][i])
        model = dict(zip(case["keys"], case["vals"]))
        if order == tuple(range(n)):
            observe(t, model, gens.UNIVERSE, ctx)
            absent_deletes(t, model, gens.UNIVERSE, ctx)
        for i in order:
            must(t.delete, case["keys"][i], what="delete(%r) in order %r" % (case["keys"][i], order))
            del model[case["keys"][i]]
            observe(t, model, case["keys"] if order[0] else gens.UNIVERSE, ctx)



def deep():
    """True while a trie with very deep paths loses its values."""
    t = MPT({})
    n = 1200
    for i in range(n, 0, -1):  # shorter ones come last: each changes the top of the trie only
        t.update(b"a" * i, b"%d" % i)
    ok, got = attempt(t.get, b"a" * n)
    return not ok or got != b"%d" % n


KNOWN = [("D27", "a key below more than about 490 keys that are prefixes of one another can be stored but neither "
                 "read nor changed (the trie recurses at every level)", deep)]

CAMPAIGNS = [
    Enumeration("long values", longs.cases, longs.check_map),
    Enumeration("small-sets", lambda tier: gens.small_contents(most=3 if tier == "quick" else 4), check_orders),
    Campaign("history", lambda tier: gens.history(max_keys=10, max_ops=24), check_history, 2400, 100000),
    Campaign("large-history", big_history, check_history, 120, 6000),
    Campaign("scale", lambda tier: gens.scale(400), large.check_map, 40, 1500),
    Enumeration("endurance", endurance.tries, endurance.check_map),
    Campaign("again", lambda tier: again.programs(), again.check_map, 1200, 24000),
]
