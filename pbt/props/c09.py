"""C09: verifying an untrusted trie proof always gives a verdict."""
from hypothesis import strategies as st

import gens
import refs
from engine import Campaign
from lib import ensure, must, refuses, same
from props import attack
from pymt.empt import EMPT, RootEMPT, SparseEMPT
from pymt.mpt import MPT
from pymt.proof import Proof

RULE = (
    "Proofs whose nodes are arbitrary bytes, arbitrary and malformed RLP (wrong list sizes, lists where "
    "bytes belong, bad hex prefixes, references of odd lengths, inline nodes nested up to thousands "
    "deep, wrong lengths), mutated genuine nodes, and any number of them, mostly behind the genuine "
    "root node so that verification gets past its first test. The answer has to be exactly True or "
    "False, the verifying trie has to be as it was; a proof of the other kind has to give TypeError, an "
    "empty trie ValueError. Non-trivial: the genuine root node comes first and another node follows "
    "that is not a genuine node."
)
ASSUMPTIONS = [
    "Proof objects hold bytes, as their constructor demands, and a tuple of bytes.",
    "The verifying trie is a genuine one: nested keys far below the recursion limit.",
]

# ------------------------------------------------------------------ bad nodes
_atoms = st.one_of(st.binary(max_size=4), st.just(b""), st.just(b"\x20"), st.just(b"\x11" * 32),
                   st.binary(min_size=31, max_size=33), st.sampled_from([b"\x00", b"\x10", b"\x3f", b"\x40"]))
_trees = st.recursive(_atoms, lambda s: st.lists(s, max_size=5), max_leaves=20)


@st.composite
def bad_node(draw):
    kind = draw(st.sampled_from(
        ["bytes", "tree", "pair", "seventeen", "deep", "inline", "count", "length", "huge"]))
    if kind == "bytes":
        return draw(st.binary(max_size=40))
    if kind == "tree":
        return refs.rlp(draw(_trees))
    if kind == "pair":
        return refs.rlp([draw(_trees), draw(_trees)])
    if kind == "seventeen":
        kids = [b""] * 16
        for _ in range(draw(st.integers(0, 4))):
            kids[draw(st.integers(0, 15))] = draw(_trees)
        return refs.rlp(kids + [draw(_trees)])
    if kind == "deep":
        n = draw(st.sampled_from([3, 50, 500, 900, 1100, 3000, 20000]))
        how = draw(st.integers(0, 3))
        if how == 0:
            return b"\xc1" * n + b"\xc0"
        if how == 1:  # properly closed lists, each holding one
            x = b"\xc0"
            for _ in range(min(n, 3000)):
                x = refs.rlp_list_raw([x])
            return x
        x = b"\xc0"  # extensions within extensions
        for _ in range(min(n, 2000)):
            x = refs.rlp_list_raw([refs.rlp(b"\x11" if how == 2 else b"\x00\x12"), x])
        return x
    if kind == "inline":
        return refs.rlp([b"\x00" + draw(st.binary(max_size=2)),
                         [draw(_atoms), draw(_trees)]])
    if kind == "count":
        return refs.rlp([draw(_atoms)] * draw(st.sampled_from([0, 1, 3, 16, 18])))
    if kind == "length":
        return draw(st.sampled_from([b"\xb8", b"\xbf" + b"\xff" * 8, b"\xff" + b"\xff" * 8, b"\xf8\x01\x00",
                                     b"\xb8\x00", b"\xb9\x00\x01", b"\x81\x05", b"\xc2\x81\x05",
                                     b"\xfb\x7f\xff\xff\xff", b"\xb7", b"\xf7", b"\xc3\x20"]))
    return refs.rlp([b"\x20", b"z" * draw(st.sampled_from([1000, 70000]))])


@st.composite
def untrusted(draw):
    c = draw(gens.contents(1, 7))
    c["exclusion"] = draw(st.booleans())
    c["goal"] = draw(st.integers(0, 60))
    c["raw"] = draw(st.one_of(st.none(), st.none(), st.binary(max_size=3), st.binary(max_size=70),
                              st.just(b"\xff" * 600)))
    c["nodes"] = draw(st.lists(st.one_of(
        st.tuples(st.just("bad"), bad_node()),
        st.tuples(st.just("bad"), bad_node()),
        st.tuples(st.just("own"), st.integers(0, 50)),
        st.tuples(st.just("craft"), st.integers(0, 50)),
        st.tuples(st.just("flip"), st.integers(0, 50), st.integers(0, 300), st.integers(0, 7)),
    ).map(list), max_size=6))
    c["shape"] = draw(st.sampled_from(["path", "path", "path", "root", "none", "many", "leaf-last"]))
    c["put"] = draw(st.integers(0, 6))
    c["root"] = draw(st.one_of(st.just(None), st.just(None), st.binary(max_size=40)))
    c["who"] = draw(st.integers(0, 3))
    return c


def check_untrusted(case, ctx):
    storage = {}
    t, model = gens.build(MPT, case, storage)
    if not model:
        return
    contents = gens.inner(model, case["secure"])
    exclusion = case["exclusion"]
    all_goals = attack.goals(case, contents, {})
    target = case["raw"] if case["raw"] is not None else all_goals[case["goal"] % len(all_goals)]
    own = refs.trie_nodes(contents)
    path = [e for e, _ in refs.trie_path(contents, target)]
    extra = []
    for spec in case["nodes"]:
        if spec[0] == "bad":
            extra.append(spec[1])
        elif spec[0] == "own":
            extra.append(own[spec[1] % len(own)])
        elif spec[0] == "craft":
            pool = attack.crafted(target)
            extra.append(pool[spec[1] % len(pool)])
        else:
            x = bytearray(own[spec[1] % len(own)])
            x[spec[2] % len(x)] ^= 1 << spec[3]
            extra.append(bytes(x))
    shape = case["shape"]
    if shape == "root":
        nodes = path[:1] + extra
    elif shape == "none":
        nodes = extra
    elif shape == "many":
        nodes = path[:1] + extra * 40 + path[1:]
    else:
        at = 1 + case["put"] % (len(path) + 1)
        nodes = path[:at] + extra + path[at:]
        if shape == "leaf-last" or (exclusion and case["put"] % 2):
            nodes.append(attack.null_leaf(contents, target))
    ctx.tag(shape, "exclusion" if exclusion else "inclusion")
    ctx.nt(bool(nodes) and nodes[0] == path[0] and any(e not in own for e in nodes[1:]))
    root = t.root() if case["root"] is None else case["root"]
    kind = b"MPT-POE" if exclusion else b"MPT-POI"
    proof = Proof(target, root, tuple(nodes), kind)
    before = (t.root(), dict(storage))
    v = [lambda: t, lambda: RootEMPT(t.root(), secure=case["secure"]),
         lambda: SparseEMPT(storage, root=t.root(), secure=case["secure"]),
         lambda: EMPT(storage, {}, root=t.root(), secure=case["secure"])][case["who"]]()
    name = "verify_proof_of_" + ("exclusion" if exclusion else "inclusion")
    got = must(getattr(v, name), proof, what=name)
    ensure(got is True or got is False, "%s returned %r", name, got)
    ctx.tag("accepted" if got else "rejected")
    same(v.root_hash(), t.root_hash(), "root hash of the verifier after verifying")
    same((t.root(), dict(storage)), before, "the verifying trie after verifying")
    again = must(getattr(v, name), proof, what=name)
    same(again, got, "the second answer for one proof")
    other = "verify_proof_of_" + ("inclusion" if exclusion else "exclusion")
    for wrong in (b"MPT-POI" if exclusion else b"MPT-POE", b"MT-POI"):
        refuses(getattr(v, name), Proof(target, root, tuple(nodes), wrong), types=TypeError,
                what="%s of a proof of kind %r" % (name, wrong))
    refuses(getattr(v, other), proof, types=TypeError, what="%s of a proof of kind %r" % (other, kind))
    # An empty verifier.
    for e in (MPT({}, secure=case["secure"]), RootEMPT(refs.EMPTY_ROOT), SparseEMPT(), emptied(case)):
        refuses(getattr(e, name), proof, types=ValueError, what="%s against an empty trie" % name)


def emptied(case):
    t = MPT({}, secure=case["secure"])
    t.update(b"k", b"v")
    t.delete(b"k")
    return t


def check_attacks(case, ctx):
    """The forged proofs of C06 and C08 get a verdict as well."""
    for exclusion in (False, True):
        proof, trie, contents, done, foreign = attack.forge(case, exclusion)
        if not contents:
            return
        ctx.nt(done > 0)
        name = "verify_proof_of_" + ("exclusion" if exclusion else "inclusion")
        v = RootEMPT(trie.root(), secure=case["secure"])
        got = must(getattr(v, name), proof, what=name)
        ensure(got is True or got is False, "%s returned %r", name, got)
        same(v.root_hash(), trie.root_hash(), "root hash of the verifier after verifying")


@st.composite
def deep(draw):
    """Deep genuine tries: keys nested in one another."""
    return {"n": draw(st.integers(20, 150)), "c": draw(st.sampled_from([b"\x00", b"a", b"\xff"])),
            "at": draw(st.integers(0, 200)), "bad": draw(bad_node()), "drop": draw(st.integers(0, 200))}


def check_deep(case, ctx):
    t = MPT({})
    model = {}
    for i in range(case["n"]):
        model[case["c"] * i] = b"v%d" % i
        t.update(case["c"] * i, b"v%d" % i)
    ctx.nt()
    v = RootEMPT(t.root())
    for target in (case["c"] * case["at"], case["c"] * (case["at"] % case["n"])):
        path = [e for e, _ in refs.trie_path(model, target)]
        hurt = list(path)
        hurt[case["drop"] % len(hurt)] = case["bad"]
        for nodes in (path, hurt, path[::-1]):
            got = must(v.verify_proof_of_inclusion, Proof(target, t.root(), tuple(nodes), b"MPT-POI"),
                       what="verify_proof_of_inclusion")
            ensure(got is (target in model) if nodes is path else got in (True, False),
                   "inclusion of %r: %r", target, got)
            nodes = nodes + [attack.null_leaf(model, target)]
            got = must(v.verify_proof_of_exclusion, Proof(target, t.root(), tuple(nodes), b"MPT-POE"),
                       what="verify_proof_of_exclusion")
            ensure(got is True or got is False, "exclusion of %r: %r", target, got)


CAMPAIGNS = [
    Campaign("untrusted", lambda tier: untrusted(), check_untrusted, 2600, 180000),
    Campaign("attacks", lambda tier: attack.attacks(), check_attacks, 1200, 80000),
    Campaign("deep", lambda tier: deep(), check_deep, 40, 1500),
]
