"""C29: equality and hashing are consistent for all value-like objects."""
from hypothesis import strategies as st

import gens
import keys
import refs
from engine import Campaign
from lib import ensure, must, same
from props import merkle, rekeyed
from pymt.empt import DataReference
from pymt.merkletools import MerkleTools
from pymt.mpt import MPT
from pymt.proof import Proof

RULE = (
    "Groups of tries, Merkle trees, proofs, data references and key pairs that are equal, equal by another "
    "history, one detail apart or different. All pairs of a group: comparing answers true or false, both ways "
    "alike, not-equal is the opposite, equal ones hash alike and find each other in sets, equality is what "
    "the statement says; comparing with other kinds of objects is false. Non-trivial: a pair of equal but "
    "separately made objects, or of objects one detail apart."
) + rekeyed.RULE
ASSUMPTIONS = ["Data references whose key and data join to the same bytes at another place are undecided."]

OTHER = [None, 0, 1, "", "x", b"", b"x", 1.5, (), [], {}, object(), Ellipsis, int, Exception("x")]


def laws(group, expected, ctx, what, others=()):
    """group: objects; expected(i, j): True, False or None (undecided)."""
    hashes = [must(hash, o, what="hash of " + what) for o in group]
    for i, o in enumerate(group):
        ensure(must(lambda: o == o) is True and must(lambda: o != o) is False, "%s is not equal to itself", what)
        same(must(hash, o), hashes[i], "hash asked again")
        ensure(o in [o] and o in {o}, "%s is not found in a set with it", what)
        for x in list(OTHER) + [x for x in others]:
            e, f = must(lambda: o == x, what="comparing %s with %r" % (what, type(x))), must(lambda: x == o)
            ensure(e is False and f is False, "%s equals a %s", what, type(x).__name__)
            ensure(must(lambda: o != x) is True, "%s does not differ from a %s", what, type(x).__name__)
    for i, a in enumerate(group):
        for j, b in enumerate(group):
            if i == j:
                continue
            e = must(lambda: a == b, what="comparing two of " + what)
            ensure(e is True or e is False, "comparison gives %r", e)
            same(must(lambda: b == a), e, "comparison the other way round (%s %d and %d)" % (what, i, j))
            same(must(lambda: a != b), not e, "not-equal (%s)" % what)
            want = expected(i, j)
            if want is not None:
                same(e, want, "equality of two of %s (%d and %d)" % (what, i, j))
            if e:
                same(hashes[i], hashes[j], "hashes of equal objects (%s)" % what)
                ensure(b in {a}, "an equal object is not found in a set (%s)", what)
                ctx.tag(what + " equal")
            else:
                ctx.tag(what + " different")
            ctx.nt()
            ctx.count("pairs")


@st.composite
def tries(draw):
    c = draw(gens.contents(1, 6))
    c["gone"] = c["gone"][: max(0, len(c["keys"]) - 1)]
    return {"c": c, "i": draw(st.integers(0, 9)), "v": draw(gens.values()), "k": draw(st.binary(max_size=3))}


def check_tries(case, ctx):
    c = case["c"]
    one, model = gens.build(MPT, c)
    group, models = [one], [model]
    storage = {}
    two = MPT(storage, secure=c["secure"])
    for k in reversed(sorted(model)):
        two.update(k, b"before")
    for k in sorted(model):
        two.update(k, model[k])
    group.append(two)
    models.append(model)
    group.append(MPT(storage, root=two.root(), secure=c["secure"]))
    models.append(model)
    group.append(MPT(dict(storage), root=two.root_hash(), secure=c["secure"]))
    models.append(model)
    for change in ("value", "more", "less"):
        m = dict(model)
        k = sorted(m)[case["i"] % len(m)]
        if change == "value":
            m[k] = case["v"]
        elif change == "more":
            m[case["k"]] = case["v"]
        elif len(m) > 1:
            del m[k]
        t = MPT({}, secure=c["secure"])
        for k in m:
            t.update(k, m[k])
        group.append(t)
        models.append(m)
    twice = MPT({}, secure=c["secure"])
    for k in model:
        twice.update(k, model[k])
    twice.update(b"temporary", b"x")
    if b"temporary" not in model:
        twice.delete(b"temporary")
    else:
        twice.update(b"temporary", model[b"temporary"])
    group.append(twice)
    models.append(model)
    laws(group, lambda i, j: models[i] == models[j], ctx, "a trie", [one.root(), one.root_hash()])
    # Equality follows the contents as they change.
    k = sorted(model)[0]
    before = hash(two)
    two.update(k, model[k] + b"!")
    ensure((one == two) is False, "a trie equals what it was before an update")
    two.update(k, model[k])
    ensure(one == two and hash(two) == before, "a trie is not equal after a change was taken back")


def merkles():
    return st.fixed_dictionaries({"t": merkle.trees(1, 9), "v": merkle.leaf(), "i": st.integers(0, 9),
                                  "other": st.sampled_from(merkle.NAMES)})


def check_merkles(case, ctx):
    c = case["t"]
    ls = c["leaves"]
    i = case["i"] % len(ls)
    variants = [(c, ls, 0), (c, ls, 2), (c, ls[:i] + [case["v"]] + ls[i + 1:], 0), (c, ls + [case["v"]], 0),
                (c, ls[::-1], 0), (dict(c, hash=case["other"]), ls, 0), (dict(c, secure=not c["secure"]), ls, 0),
                (c, [ls[0]], 0), (c, [b"\x00" + ls[0]], 0), (c, [b"\x00\x00" + ls[0]], 0)]
    group = [merkle.build(v, x, n) for v, x, n in variants]
    roots = [merkle.ref_root(v, x) for v, x, n in variants]
    late = merkle.build(c, ls[:1])
    late.put_list(ls[1:])
    late.make_tree()
    group.append(late)
    roots.append(merkle.ref_root(c))
    base = MerkleTools(hash_type=c["hash"], secure=c["secure"])
    for v in ls:
        base.add_leaf(v)
    base.make_tree()
    laws(group, lambda a, b: roots[a] == roots[b], ctx, "a Merkle tree", [group[0].get_merkle_root()])
    plain = MerkleTools(hash_type=c["hash"], secure=c["secure"])
    for v in ls + [case["v"]]:
        plain.add_leaf(v)
    plain.make_tree()
    rs = [base.get_merkle_root(), plain.get_merkle_root()]
    laws([base, plain], lambda a, b: rs[a] == rs[b], ctx, "a plain Merkle tree")


def proof_cases():
    piece = st.one_of(st.binary(max_size=3), st.sampled_from([b"left", b"right", b"00", b"'", b'"', b"\\"]))
    item = st.one_of(piece, st.tuples(piece, piece).map(list))
    return st.fixed_dictionaries({
        "stamp": piece, "target": piece, "root": piece, "items": st.lists(item, max_size=3),
        "x": piece, "i": st.integers(0, 5)})


def check_proofs(case, ctx):
    base = [b"MT-POI", case["stamp"], case["target"], case["root"], case["items"]]
    variants = [base, list(base)]
    for n in (1, 2, 3):
        v = list(base)
        v[n] = case["x"]
        variants.append(v)
    its = case["items"]
    variants.append(base[:2] + [base[3], base[2]] + [its])
    variants.append(base[:4] + [its + [case["x"]]])
    variants.append(base[:4] + [its[::-1]])
    if its:
        i = case["i"] % len(its)
        variants.append(base[:4] + [its[:i] + its[i + 1:]])
        variants.append(base[:4] + [its[:i] + [case["x"]] + its[i + 1:]])
        f = its[i]
        flat = [b"".join(f)] if isinstance(f, list) else [[f[:1], f[1:]]]
        variants.append(base[:4] + [its[:i] + flat + its[i + 1:]])
        if isinstance(f, list):
            variants.append(base[:4] + [its[:i] + f + its[i + 1:]])
    group = [must(Proof.decode_rlp, refs.rlp(v)) for v in variants]
    laws(group, lambda a, b: variants[a] == variants[b], ctx, "a proof", [variants[0], case["target"]])
    kinds = [Proof(case["target"], case["root"], (case["x"],), t) for t in (b"MT-POI", b"MPT-POI", b"MPT-POE")]
    laws(kinds, lambda a, b: False, ctx, "a proof of another kind")


def ref_cases():
    b = st.one_of(st.binary(max_size=4), gens.values())
    return st.fixed_dictionaries({"key": b, "data": b, "key2": b, "data2": b})


def check_refs(case, ctx):
    pairs = [(k, d) for k in (case["key"], case["key2"], case["key"] + b"\x00")
             for d in (case["data"], case["data2"], case["data"] + b"\x00", case["data"][:-1])]
    pairs.append(pairs[0])
    group = [must(DataReference, k, d) for k, d in pairs]

    def expected(i, j):
        if pairs[i] == pairs[j]:
            return True
        return None if pairs[i][0] + pairs[i][1] == pairs[j][0] + pairs[j][1] and pairs[i][0] != pairs[j][0] else False

    laws(group, expected, ctx, "a data reference", [group[0].hash, group[0].encode()])


def key_cases():
    nick = st.one_of(st.text(max_size=3), st.sampled_from(["a", "A", "", " "]))
    k = st.sampled_from(keys.SMALL[:4])
    return st.fixed_dictionaries({
        "pairs": st.lists(st.tuples(st.sampled_from(["all", "auth", "enc"]), k, nick).map(list), min_size=2, max_size=4),
        "nick": nick, "k": k})


def check_keys(case, ctx):
    specs = [list(s) for s in case["pairs"]]
    kind, k, nick = specs[0]
    specs += [[kind, k, nick], [kind, case["k"], nick], [kind, k, case["nick"]]]
    specs += [[c, k, nick] for c in ("all", "auth", "enc")]
    group = [keys.pair(*s) for s in specs]
    pubs = [g.public_key for g in group]

    def expected(i, j):
        if specs[i][0] != specs[j][0]:
            return None
        return pubs[i] == pubs[j] and specs[i][2] == specs[j][2]

    laws(group, expected, ctx, "a key pair", [pubs[0], nick])
    a, b = group[0], keys.pair(kind, k, nick + "x")
    ensure((a == b) is False, "pairs with two nicknames are equal")
    b.nickname = nick
    ensure(a == b and b == a and hash(a) == hash(b), "pairs are not equal after renaming")


CAMPAIGNS = [
    Campaign("tries", lambda tier: tries(), check_tries, 1500, 60000),
    Campaign("merkle trees", lambda tier: merkles(), check_merkles, 1500, 60000),
    Campaign("proofs", lambda tier: proof_cases(), check_proofs, 2000, 80000),
    Campaign("references", lambda tier: ref_cases(), check_refs, 1500, 60000),
    Campaign("key pairs", lambda tier: key_cases(), check_keys, 500, 16000),
    Campaign("new keys", lambda tier: rekeyed.programs(("all", "auth", "enc")), rekeyed.check_equality, 300, 6000),
]
