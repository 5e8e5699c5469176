"""C03: every root ever published stays readable."""
from hypothesis import strategies as st

import gens
import objs
import refs
from engine import Campaign, Enumeration
from lib import attempt, ensure, must, refuses, same
from props import endurance, large
from pymt.empt import EMPT, SparseEMPT
from pymt.mpt import MPT

RULE = (
    "Histories of writes, deletions, reads, proofs and returns to an older root over one storage that "
    "records every write and removal. At the end each root ever returned is opened again over the same "
    "storage and its whole contents are compared with the model of that moment; every write has to be "
    "addressed by the hash of its bytes and nothing may be altered or removed. Non-trivial: at least "
    "three different roots, one of them left by a deletion or an overwrite."
) + large.RULE + endurance.RULE
ASSUMPTIONS = ["The storage itself does not lose what was written to it."]

KINDS = {"r": (st.integers(0, 30),), "x": (st.integers(0, 4),)}


def reopened(store, root, secure, model, pool, when, ctx):
    t = MPT(store, root=root, secure=secure)
    same(must(t.root_hash, what="root hash of the root %s" % when),
         refs.trie_root(gens.inner(model, secure)), "root hash of the root returned %s" % when)
    for k in pool:
        ctx.count("lookups")
        if k in model:
            same(must(t.get, k, what="get(%r) in the root returned %s" % (k, when)), model[k],
                 "get(%r) in the root returned %s" % (k, when))
            ensure(must(t.contains, k) is True, "%r not in the root returned %s", k, when)
        else:
            ensure(must(t.contains, k) is False, "%r in the root returned %s", k, when)
            refuses(t.get, k, what="get of the absent key %r in the root returned %s" % (k, when))


def check_history(case, ctx):
    secure, keys = case["secure"], case["keys"]
    ctx.tag("secure" if secure else "plain")
    store = objs.RecordingStore()
    t = MPT(store, secure=secure)
    model = {}
    seen = [(t.root(), {}, "at the start")]
    changes = 0
    for step, op in enumerate(case["ops"]):
        k = keys[op[1]]
        if op[0] == "u":
            changes += k in model
            must(t.update, k, op[2], what="update(%r)" % k)
            model[k] = op[2]
        elif op[0] == "d":
            if k in model:
                changes += 1
                must(t.delete, k, what="delete(%r)" % k)
                del model[k]
            else:
                refuses(t.delete, k, what="delete of the absent key %r" % k)
        elif op[0] == "r":  # continue from an older root
            root, old, _ = seen[op[2] % len(seen)]
            t = MPT(store, root=root, secure=secure)
            model = dict(old)
            ctx.tag("continued from an older root")
        else:  # reading changes nothing
            before = t.root()
            attempt([t.get, t.contains, t.get_proof_of_inclusion, t.get_proof_of_exclusion,
                     lambda k: t.encode()][op[2]], k)
            same(t.root(), before, "root after a read")
        seen.append((t.root(), dict(model), "after step %d" % step))
        ensure(not store.bad, "step %d (%s %r): %s", step, op[0], k, store.bad[:1])
    for root, old, when in seen:
        reopened(store, root, secure, old, keys, when, ctx)
    # and from a root nothing reaches but its own entries
    roots = {root for root, _, _ in seen}
    ctx.nt(len(roots) >= 3 and changes > 0)
    ctx.count("roots", len(seen))
    ensure(not store.bad, "reading older roots: %s", store.bad[:1])


def check_extended(case, ctx):
    """The same for the roots of extended and sparse tries."""
    secure, keys = case["secure"], case["keys"]
    store = objs.RecordingStore()
    t = EMPT(store, {}, secure=secure) if case["full"] else SparseEMPT(store, secure=secure)
    ctx.tag("extended" if case["full"] else "sparse")
    model = {}
    seen = [(t.root(), {}, "at the start")]
    changes = 0
    for step, op in enumerate(case["ops"]):
        k = keys[op[1]]
        if op[0] == "u":
            changes += k in model
            must(t.update, k, objs.value(op[2]), what="update(%r)" % k)
            model[k] = objs.value(op[2])
        elif k in model:
            changes += 1
            must(t.delete, k, what="delete(%r)" % k)
            del model[k]
        else:
            refuses(t.delete, k, what="delete of the absent key %r" % k)
        seen.append((t.root(), dict(model), "after step %d" % step))
        ensure(not store.bad, "step %d: %s", step, store.bad[:1])
    for root, old, when in seen:
        s = SparseEMPT(store, root=root, secure=secure)
        same(s.root_hash(), objs.ref_root(old, secure), "root hash of the root returned %s" % when)
        for k in keys:
            ctx.count("lookups")
            if k in old:
                r = must(s.get_reference, k, what="reference of %r in the root %s" % (k, when))
                same((r.key, r.data), (k, objs.encoding(old[k])),
                     "reference of %r in the root returned %s" % (k, when))
            else:
                ensure(not s.contains(k), "%r in the root returned %s", k, when)
    ctx.nt(len({r for r, _, _ in seen}) >= 3 and changes > 0)


@st.composite
def extended(draw):
    c = draw(gens.history(max_keys=7, max_ops=16))
    for op in c["ops"]:
        if op[0] == "u":
            op[2] = [draw(st.sampled_from("bao")), op[2]]
    c["full"] = draw(st.booleans())
    return c


CAMPAIGNS = [
    Campaign("history", lambda tier: gens.history(max_keys=8, max_ops=30, kinds=KINDS),
             check_history, 2600, 70000),
    Campaign("extended", lambda tier: extended(), check_extended, 900, 20000),
    Campaign("scale", lambda tier: gens.scale(200), large.check_history, 40, 1500),
    Enumeration("endurance", endurance.tries, endurance.check_roots_kept),
]
