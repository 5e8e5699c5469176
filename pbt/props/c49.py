"""C49: errors tell an absent key from a missing node."""
import copy
import pickle

from hypothesis import strategies as st

import gens
import refs
from engine import Campaign, Enumeration
from lib import Violation, ensure, same
from props.c40 import Kind, outcome
from pymt.utils import exceptions

RULE = (
    "Tries of every kind with generated contents. On complete nodes every refused lookup, deletion and proof of a "
    "stored, absent or near-miss key has to raise an error class of the library. With nodes taken away (one, the path "
    "of a key, random sets, all) what fails for a missing node has to raise a key error whose argument is the first "
    "missing node on the way of the key (for a deletion possibly the neighbour it needs), and what fails for the key "
    "the same class as on complete nodes. A client that starts with no nodes at all and after every such error gets "
    "the node named has to end with the result and root of the complete trie, never asking twice or for a node that "
    "does not exist. Every library error has to survive copying and pickling. Non-trivial: both sorts of errors "
    "occurred."
)
ASSUMPTIONS = ["Node storages that raise a key error naming the key, as dictionaries do."]
OWN = tuple(c for c in vars(exceptions).values() if isinstance(c, type) and issubclass(c, Exception))


def error(fn):
    try:
        fn()
    except Exception as e:
        return e
    return None


def is_own(e, what):
    ensure(type(e) in OWN and not isinstance(e, KeyError), "%s raises %s: %r", what, type(e).__name__, e)
    for name, other in (("copied", copy.copy(e)), ("pickled", pickle.loads(pickle.dumps(e)))):
        same((type(other), other.args, str(other)), (type(e), e.args, str(e)), "%s error of %s" % (name, what))


def node_named(e):
    return bytes(e.args[0]) if len(e.args) == 1 and isinstance(e.args[0], (bytes, bytearray)) else None


def names(e, lost, what):
    ensure(isinstance(e, KeyError) and type(e) not in OWN, "%s raises %s: %r", what, type(e).__name__, e)
    ensure(node_named(e) in lost, "%s names %r, which is no missing node", what, e.args)
    return node_named(e)


def way(K, key):
    """Keys of the stored nodes that lead to the key, in order."""
    k = refs.keccak(key) if K.secure else key
    return [n for n in (refs.keccak(e) for e, hashed in refs.trie_path(K.inside, k) if hashed) if n in K.nodes]


def check(case, ctx):
    K = Kind(case)
    if not K.model:
        return
    ctx.tag(K.kind, "secure" if K.secure else "plain")
    stored = K.stored()
    keys = gens.probes(K.model, case["keys"], 12)
    losses = [set()] + [{n} for n in stored[: case["more"]]]
    losses += [set(way(K, k)) for k in keys[: case["more"]]]
    losses += [{n for i, n in enumerate(stored) if i % m == case["salt"] % m} for m in (2, 3)]
    losses.append(set(stored))
    seen = []
    for x in losses:
        if x not in seen:
            seen.append(x)
    own = named = 0
    for lost in seen[: case.get("limit", 16)]:
        nodes = {n: e for n, e in K.nodes.items() if n not in lost}
        for k in keys:
            there = [n for n in way(K, k) if n in lost]
            for name, op, _ in K.ops(k, case["value"]):
                what = "%s of %r (%s) with %d of %d nodes missing" % (
                    name, k, "stored" if k in K.model else "absent", len(lost), len(stored))
                e = error(lambda: op(K.fresh(dict(nodes), K.root)))
                ctx.count("operations")
                refused = (name == "exclusion proof") == (k in K.model) and name not in ("contains", "update")
                if K.kind == "empt" and name == "get" and k not in K.model:
                    ensure(isinstance(e, KeyError) and e.args == (k,), "%s raises %s: %r", what, type(e).__name__, e)
                elif there:
                    ensure(e is not None, "%s is answered", what)
                    same(names(e, lost, what), there[0], "missing node named by " + what)
                    named += 1
                elif refused:
                    ensure(e is not None, "%s is answered", what)
                    is_own(e, what)
                    full = error(lambda: op(K.fresh(dict(K.nodes), K.root)))
                    same(type(e), type(full), "class of the error of %s" % what)
                    own += 1
                elif e is not None:
                    ensure(name == "delete", "%s raises %s: %r", what, type(e).__name__, e)
                    names(e, lost, what)
                    named += 1
    ctx.nt(own and named)
    # A client that fetches what is missing.
    for k in keys[:6]:
        for name, op, _ in K.ops(k, case["value"]):
            full = K.fresh(dict(K.nodes), K.root)
            want = outcome(lambda: op(full))
            have = {}
            client = K.fresh(have, K.root)
            fetched = 0
            while True:
                e = None
                try:
                    got = op(client)
                except Exception as x:
                    e = x
                if not isinstance(e, KeyError) or e.args == (k,) and k not in K.nodes:
                    break
                n = node_named(e)
                ensure(n in K.nodes and n not in have, "%s of %r asks for %r", name, k, e.args)
                have[n] = K.nodes[n]
                fetched += 1
            ctx.count("nodes fetched", fetched)
            what = "%s of %r with fetched nodes" % (name, k)
            if want[0] == "raised":
                ensure(e is not None, "%s is answered", what)
            elif e is not None:
                raise Violation("%s raises %s: %r" % (what, type(e).__name__, e))
            else:
                same(outcome(lambda: got), want, what)
            same(client.root(), full.root(), "root after " + what)


@st.composite
def cases(draw):
    c = draw(gens.contents(1, 7))
    c["kind"] = draw(st.sampled_from(["mpt", "mpt", "sparse", "empt"]))
    c["value"] = draw(gens.values())
    c["more"] = draw(st.integers(1, 5))
    c["salt"] = draw(st.integers(0, 5))
    return c


def small(tier):
    for i, c in enumerate(gens.small_contents(gens.UNIVERSE[:7] if tier == "quick" else gens.UNIVERSE, 3,
                                              (b"v", b"w" * 33))):
        yield dict(c, kind=("mpt", "sparse", "empt")[i % 3], value=b"new" * (1 + i % 20), more=3, salt=i)


CAMPAIGNS = [
    Enumeration("small", small, check),
    Campaign("errors", lambda tier: cases(), check, 800, 14000),
]
