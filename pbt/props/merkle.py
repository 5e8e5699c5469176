"""Generators for the Merkle tree properties."""
from hypothesis import strategies as st

import gens
import refs
from lib import ensure, must, same
from pymt.mt import MerkleTree

NAMES = refs.MERKLE_HASHES


def leaf():
    return st.one_of(
        st.sampled_from([b"a", b"b", b"c", b"d", b"e", b"f"]),
        st.binary(max_size=3),
        st.binary(min_size=1, max_size=2).map(lambda b: (b * 33)[:33]),
        st.integers(0, 300).map(lambda n: b"leaf %d" % n),
        st.sampled_from([b"", b"\x00", b"left", b"right", b"ab", b"0" * 64, b"\xff" * 32,
                         refs.H("sha256", b"a"), refs.H("sha256", b"ab"), b"61", b"\xe9\x00"]),
        st.sampled_from([0] * 10 + [1, 2]).flatmap(
            lambda n: [st.binary(max_size=5), gens.mined_bytes(), gens.big_bytes(70001)][n]),
    )


@st.composite
def leaves(draw, lo=1, hi=20):
    n = draw(st.one_of(st.integers(lo, hi), st.sampled_from(
        [x for x in (1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 15, 16, 17, 31, 32, 33) if lo <= x <= hi])))
    how = draw(st.sampled_from(["numbered", "numbered", "mixed", "few", "one"]))
    if how == "numbered":
        p = draw(st.binary(max_size=2))
        return [p + b"%d" % i for i in range(n)]
    if how == "mixed":
        return [draw(leaf()) for _ in range(n)]
    if how == "few":
        v = [draw(leaf()), draw(leaf()), draw(leaf())]
        return [v[draw(st.integers(0, 2))] for _ in range(n)]
    v = draw(leaf())
    return [v] * n


@st.composite
def trees(draw, lo=1, hi=20):
    return {"hash": draw(st.one_of(st.just("sha256"), st.sampled_from(NAMES))),
            "secure": draw(st.booleans()), "leaves": draw(leaves(lo, hi))}


def build(c, ls=None, chunk=0):
    t = MerkleTree(secure=c["secure"], hash_type=c["hash"])
    ls = c["leaves"] if ls is None else ls
    if chunk:
        for i in range(0, len(ls), chunk):
            t.put_list(tuple(ls[i:i + chunk]))
    else:
        for v in ls:
            t.put(v)
    t.make_tree()
    return t


def ref_leaves(c, ls=None):
    return [refs.merkle_leaf(c["hash"], c["secure"], v) for v in (c["leaves"] if ls is None else ls)]


def ref_root(c, ls=None):
    return refs.merkle_root(c["hash"], ref_leaves(c, ls)).hex().encode()


def decode_siblings(items):
    """[(side, bytes)] or None if malformed."""
    out = []
    for p in items:
        if not (isinstance(p, (tuple, list)) and len(p) == 2 and p[0] in (b"left", b"right")):
            return None
        try:
            out.append((p[0], bytes.fromhex(p[1].decode())))
        except ValueError:
            return None
    return out


def good_proof(c, ls, p, v, what):
    """The proof is one of v in the tree of ls."""
    same(p.target_key, v, "target of the proof " + what)
    same(p.type, b"MT-POI", "type of the proof " + what)
    same(p.trie_root, ref_root(c, ls), "root in the proof " + what)
    sib = decode_siblings(p.proof)
    ensure(sib is not None, "the proof %s is malformed: %r", what, p.proof)
    got = refs.merkle_fold(c["hash"], refs.merkle_leaf(c["hash"], c["secure"], v), sib)
    same(got.hex().encode(), p.trie_root, "what the proof %s folds to" % what)
    same_leaves = [i for i, x in enumerate(ls) if x == v]
    if len(ls) * len(same_leaves) > 5000:  # that it folds to the root is enough
        return
    paths = [refs.merkle_path(c["hash"], ref_leaves(c, ls), i) for i in same_leaves]
    ensure(sib in paths, "the proof %s is not the path of one of the leaves with that value", what)


# ------------------------------------------------------------- large trees
RULE = (
    " A further campaign takes large trees: up to 4100 leaves (counts around powers of two and around the "
    "numbers that occur in the code under test) and leaves up to 130 kilobytes."
)


@st.composite
def large(draw, most=4200):
    n = draw(st.sampled_from([x for x in gens.SIZES + [500, 512, 513, 2000] if 20 <= x <= most]))
    size = draw(st.sampled_from([0, 0, 0, 0, 1])) and draw(st.sampled_from([x for x in gens.SIZES if x > 60]))
    return {"hash": draw(st.one_of(st.just("sha256"), st.sampled_from(NAMES))),
            "secure": draw(st.booleans()), "n": min(n, 40) if size else n, "size": size,
            "salt": draw(st.integers(0, 999)), "repeat": draw(st.sampled_from([0, 0, 0, 3, 50])),
            "at": draw(st.lists(st.integers(0, 1 << 16), min_size=1, max_size=4))}


def expand(c):
    out = []
    for i in range(c["n"]):
        v = b"%d/%d" % (c["salt"], i % c["repeat"] if c["repeat"] else i)
        out.append(v + b"z" * (c["size"] - len(v)))
    return dict(c, leaves=out)


def some(c):
    """Leaves to look at: first, last, around the middle, some."""
    n = c["n"]
    return sorted({0, n - 1, n // 2, (n - 1) // 2} | {i % n for i in c["at"]})


def hexed(x):
    return x.encode() if isinstance(x, str) else bytes(x)


def check_large_root(case, ctx):
    c = expand(case)
    ls = c["leaves"]
    ctx.nt()
    ctx.count("leaves", len(ls))
    t = MerkleTree(secure=c["secure"], hash_type=c["hash"])
    half = len(ls) // 2
    must(t.put_list, ls[:half], what="put_list")
    same(must(t.get_merkle_root), ref_root(c, ls[:half]), "root of the first %d leaves" % half)
    for v in ls[half:]:
        t.put(v)
    same(must(t.get_merkle_root), ref_root(c), "root of %d leaves" % len(ls))
    same((len(t), t.get_count()), (len(ls), len(ls)), "counts")
    for i in some(c):
        same(hexed(must(t.get, i)), refs.merkle_leaf(c["hash"], c["secure"], ls[i]).hex().encode(), "get(%d)" % i)
    other = list(ls)
    i = some(c)[-1]
    other[i] = other[i][:-1] + b"?"
    same(must(build(c, other).get_merkle_root), ref_root(c, other), "root with leaf %d changed" % i)
    ensure(ref_root(c, other) != ref_root(c), "the reference root does not change")


def check_large_proofs(case, ctx):
    c = expand(case)
    ls = c["leaves"]
    t, u = build(c), build(c, chunk=7)
    for i in some(c):
        ctx.nt()
        p = must(t.get_proof_of_inclusion, ls[i], what="proof of leaf %d of %d" % (i, len(ls)))
        good_proof(c, ls, p, ls[i], "of leaf %d of %d" % (i, len(ls)))
        for label, x in (("the tree", t), ("an equal tree", u)):
            ensure(must(x.verify_proof_of_inclusion, p) is True,
                   "the proof of leaf %d of %d does not verify against %s", i, len(ls), label)


def check_large_forged(case, ctx):
    from pymt.proof import Proof

    c = expand(case)
    ls = c["leaves"]
    t = build(c)
    wrong = build(c, ls[:-1])
    for i in some(c):
        p = must(t.get_proof_of_inclusion, ls[i])
        items = list(p.proof)
        same(must(t.verify_proof_of_inclusion, p), True, "verdict on the genuine proof of leaf %d" % i)

        def rejected(what, target=ls[i], proof=None, root=p.trie_root, tree=t):
            q = Proof(target, root, tuple(items if proof is None else proof), p.type)
            ctx.count("rejections")
            got = must(tree.verify_proof_of_inclusion, q, what="verifying")
            ensure(got is False, "leaf %d of %d: a proof with %s is accepted", i, len(ls), what)

        if ls[i] + b"!" not in ls:
            rejected("another target", target=ls[i] + b"!")
        if must(wrong.get_merkle_root) != p.trie_root:
            rejected("the root of another tree", tree=wrong)
        for j, (side, h) in enumerate(items):
            ctx.nt()
            x = bytearray(bytes.fromhex(h.decode()))
            x[j % len(x)] ^= 1
            rejected("sibling %d altered" % j, proof=items[:j] + [(side, x.hex().encode())] + items[j + 1:])
            rejected("sibling %d left out" % j, proof=items[:j] + items[j + 1:])
            rejected("sibling %d twice" % j, proof=items[:j] + [items[j]] + items[j:])
            flipped = b"left" if side == b"right" else b"right"
            own = refs.merkle_fold(c["hash"], refs.merkle_leaf(c["hash"], c["secure"], ls[i]), decode_siblings(items[:j]))
            if own != bytes.fromhex(h.decode()):
                rejected("side %d exchanged" % j, proof=items[:j] + [(flipped, h)] + items[j + 1:])
