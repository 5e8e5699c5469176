"""C43: trie proofs hold exactly the nodes on the way of the key."""
from hypothesis import strategies as st

import gens
import objs
import refs
from engine import Campaign, Enumeration
from lib import ensure, must, same
from props import again, endurance
from pymt.empt import EMPT, SparseEMPT
from pymt.mpt import MPT

RULE = (
    "Plain, sparse and extended tries of generated contents (prefix families, few-nibble keys, nested prefixes, "
    "equal values, keys inserted and deleted again, both modes), the proof of every stored, absent and near-miss "
    "key: its items have to be the encodings of exactly the nodes that the reference model passes on the way from "
    "the root to the key or to where the way ends, in that order, for an exclusion proof followed by the leaf of "
    "the rest of the key, target and root those of the key and the trie, and the same from a trie filled in "
    "another order, a reloaded one and one opened at the root. Larger tries are walked through their stored "
    "nodes instead. Non-trivial: a way of at least two nodes and at least two keys."
) + again.RULE
ASSUMPTIONS = ["A claimed root is accepted as the root hash or as what root() returns."]


def expected(ways, rest, stored):
    if stored:
        return tuple(ways)
    return tuple(ways) + (refs.rlp([refs.hp(rest, True), b"null"]),)


def one(t, key, stored, secure, ways, rest, root, what):
    name = "inclusion" if stored else "exclusion"
    what = "%s proof of %r from %s" % (name, key, what)
    p = must(getattr(t, "get_proof_of_" + name), key, what=what)
    same(p.type, b"MPT-POI" if stored else b"MPT-POE", "type of the " + what)
    same(p.target_key, refs.keccak(key) if secure else key, "target of the " + what)
    ensure(p.trie_root in (t.root(), root), "the %s claims the root %r", what, p.trie_root)
    want = expected(ways, rest, stored)
    got = p.proof
    ensure(isinstance(got, tuple), "items of the %s are %r", what, got)
    same(len(got), len(want), "number of items of the " + what)
    for i, (g, w) in enumerate(zip(got, want)):
        same(g, w, "item %d of the %s" % (i, what))




def check(case, ctx):
    kind, secure = case["kind"], case["secure"]
    ctx.tag(kind, "secure" if secure else "plain")
    make = {"mpt": lambda: MPT({}, secure=secure), "sparse": lambda: SparseEMPT({}, secure=secure),
            "empt": lambda: EMPT({}, {}, secure=secure)}[kind]
    t, model = make(), {}
    for k, v in zip(case["keys"], case["vals"]):
        t.update(k, v)
        model[k] = v
    for i in case["gone"]:
        t.delete(case["keys"][i])
        del model[case["keys"][i]]
    if not model:
        return
    other = make()
    for k in sorted(model, reverse=case["turn"]):
        other.update(k, model[k])
    tries = [("the trie", t), ("one filled in another order", other)]
    if kind == "mpt":
        tries.append(("a reloaded one", MPT.decode(t.encode())))
    elif kind == "sparse":
        tries.append(("a reloaded one", SparseEMPT.decode_rlp(t.encode_rlp())))
    else:
        tries.append(("its sparse view", t.get_sparse_trie()))
    refd = {k: refs.data_reference(k, v) for k, v in model.items()} if kind != "mpt" else model
    inside = gens.inner(refd, secure)
    root = refs.trie_root(inside)
    nodes = {refs.keccak(e): e for e in refs.trie_nodes(inside)}
    for k in gens.probes(model, case["keys"], 24):
        inner = refs.keccak(k) if secure else k
        ways, _, rest, _ = refs.trie_way(nodes.__getitem__, root, inner)
        same(tuple(ways), tuple(e for e, _ in refs.trie_path(inside, inner)), "the two references")
        for name, u in tries:
            one(u, k, k in model, secure, ways, rest, root, name)
            ctx.count("proofs")
        ctx.nt(len(ways) > 1 and len(model) > 1)
        if any(len(e) < 32 for e in ways[1:]):
            ctx.tag("embedded nodes")
        if k not in model and not rest:
            ctx.tag("ends inside")


def big(case, ctx):
    """A large trie, walked through its nodes."""
    secure = case["secure"]
    store = {}
    t = MPT(store, secure=secure)
    for step, model, ks, last in endurance.steps(
            case, t.update, t.delete, lambda k, model: None):
        if step + 1 != last and step % 701:
            continue
        if not model:
            continue
        root = t.root()
        for j in range(0, len(ks), max(1, len(ks) // 40)):
            for k in (ks[j], ks[j] + b"x", ks[j][:-1], ks[j][:-1] + b"\xff"):
                inner = refs.keccak(k) if secure else k
                ways, _, rest, _ = refs.trie_way(store.__getitem__, root, inner)
                one(t, k, k in model, secure, ways, rest, t.root_hash(), "a trie of %d keys" % len(model))
                ctx.count("proofs")
    ctx.nt()


@st.composite
def cases(draw):
    c = draw(gens.contents(1, 9))
    c["kind"] = draw(st.sampled_from(["mpt", "mpt", "sparse", "empt"]))
    c["turn"] = draw(st.booleans())
    return c


def small(tier):
    for i, c in enumerate(gens.small_contents(gens.UNIVERSE, 3 if tier == "quick" else 4, (b"v", b"w" * 33))):
        yield dict(c, kind="mpt", turn=i % 2 == 1)


CAMPAIGNS = [
    Enumeration("small", small, check),
    Campaign("proofs", lambda tier: cases(), check, 2500, 60000),
    Enumeration("endurance", endurance.small, big),
    Campaign("again", lambda tier: again.programs(("mpt", "mpt", "sparse", "empt")),
             lambda case, ctx: again.check_ways(case, ctx, one), 1200, 20000),
]
