"""C17: every Merkle tree leaf has a verifiable inclusion proof."""
from hypothesis import strategies as st

import refs
from engine import Campaign, Enumeration
from lib import attempt, ensure, must, refuses, same
from props import again, merkle
from pymt.mt import MerkleTree

RULE = (
    "Trees of generated leaves (duplicates, empty, digests, all hash types, both modes): the proof of every "
    "leaf is the path of a leaf with that value, folds to the root under the reference rule and verifies "
    "on this tree, on an equal tree built apart (in other chunks, with root queries in between) and on a "
    "tree that was reset or extended to the same leaves; other values, an unbuilt, an extended and a reset "
    "tree give an error or, extended, a proof of the current leaves. Every leaf count up to a limit with "
    "every leaf, hash type and mode is enumerated. Non-trivial: at least three leaves."
) + merkle.RULE + again.RULE
ASSUMPTIONS = []


def cases():
    return st.fixed_dictionaries({
        "t": merkle.trees(1, 33), "chunk": st.integers(1, 5), "cut": st.integers(0, 33),
        "others": st.lists(merkle.leaf(), max_size=5)})


def check(case, ctx):
    c = case["t"]
    ls = c["leaves"]
    one = MerkleTree(secure=c["secure"], hash_type=c["hash"])
    for i, v in enumerate(ls):
        one.put(v)
    refuses(one.get_proof_of_inclusion, ls[0], what="a proof before the tree is built")
    one.make_tree()
    apart = merkle.build(c, chunk=case["chunk"])
    cut = case["cut"] % (len(ls) + 1)
    grown = MerkleTree(secure=c["secure"], hash_type=c["hash"])
    if case["chunk"] % 2:
        grown.put_list([b"something else", b"gone"])
        grown.make_tree()
        grown.reset_tree()
    grown.put_list(ls[:cut])
    if cut:
        grown.make_tree()
        grown.get_merkle_root()
        grown.get_proof_of_inclusion(ls[0])
    grown.put_list(ls[cut:])
    grown.make_tree()
    ctx.nt(len(ls) >= 3)
    if len(set(ls)) < len(ls):
        ctx.tag("duplicates")
    for n, t in (("tree", one), ("tree built apart", apart), ("tree extended", grown)):
        for v in dict.fromkeys(ls):
            p = must(t.get_proof_of_inclusion, v, what="the proof of %r from the %s" % (v, n))
            merkle.good_proof(c, ls, p, v, "of %r from the %s" % (v, n))
            ctx.count("proofs")
            for m, u in (("tree", one), ("tree built apart", apart), ("tree extended", grown)):
                same(must(u.verify_proof_of_inclusion, p), True,
                     "verdict of the %s on the proof of %r from the %s" % (m, v, n))
    wrong = list(case["others"]) + [ls[0] + b"\x00", refs.H(c["hash"], ls[0]), ls[0][:-1],
                                    b"".join(ls[:2]), bytes.fromhex(merkle.ref_root(c).decode())]
    for v in wrong:
        if v in ls or (not c["secure"] and bytes(v) in ls):
            continue
        refuses(one.get_proof_of_inclusion, v, what="a proof of %r, which was not put" % v)
    # A fresh verifier that was never built has the same leaves.
    lazy = MerkleTree(secure=c["secure"], hash_type=c["hash"])
    lazy.put_list(ls)
    p = one.get_proof_of_inclusion(ls[-1])
    same(must(lazy.verify_proof_of_inclusion, p), True, "verdict of an equal tree not built yet")
    # After an addition the proofs are of the new leaves, or refused.
    one.put(b"one more")
    for v in (ls[0], ls[-1], b"one more"):
        ok, p = attempt(one.get_proof_of_inclusion, v)
        if ok:
            merkle.good_proof(c, ls + [b"one more"], p, v, "after an addition")
    one.reset_tree()
    refuses(one.get_proof_of_inclusion, ls[0], what="a proof after a reset")


def count_cases(tier):
    top = 34 if tier == "quick" else 132
    for n in range(1, top):
        for name in merkle.NAMES:
            for secure in (False, True):
                yield {"hash": name, "secure": secure, "leaves": [b"%d" % (i * 104729) for i in range(n)]}


def check_count(case, ctx):
    ls = case["leaves"]
    t, u = merkle.build(case), merkle.build(case, chunk=7)
    ctx.nt(len(ls) >= 3)
    for i, v in enumerate(ls):
        p = must(t.get_proof_of_inclusion, v, what="the proof of leaf %d of %d" % (i, len(ls)))
        merkle.good_proof(case, ls, p, v, "of leaf %d of %d" % (i, len(ls)))
        ctx.count("proofs")
        for x in (t, u):
            same(must(x.verify_proof_of_inclusion, p), True, "verdict on leaf %d of %d" % (i, len(ls)))
    refuses(t.get_proof_of_inclusion, b"none", what="a proof of a value that was not put")


CAMPAIGNS = [
    Campaign("trees", lambda tier: cases(), check, 2500, 100000),
    Enumeration("counts", count_cases, check_count),
    Campaign("large trees", lambda tier: merkle.large(), merkle.check_large_proofs, 64, 3000),
    Campaign("again", lambda tier: again.merkle_programs(), again.check_merkle_proofs, 1200, 40000),
]
