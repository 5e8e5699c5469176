"""Forged trie proofs: what C06, C08 and C09 verify."""
from itertools import combinations, permutations

from hypothesis import strategies as st

import gens
import refs
from pymt.empt import RootEMPT
from pymt.mpt import MPT
from pymt.proof import Proof

MUTATIONS = ["drop", "dup", "swap", "ins", "rep", "craft", "craft", "flip", "cut", "junk",
             "target", "target", "root", "splice", "all", "reverse", "front"]


@st.composite
def attacks(draw, exclusion=False):
    c = draw(gens.contents(1, 8))
    n = len(c["keys"])
    ki = st.integers(0, n - 1)
    c["later"] = [list(o) for o in draw(st.lists(st.one_of(
        st.tuples(st.just("u"), ki, gens.values()), st.tuples(st.just("d"), ki)), max_size=3))]
    c["from"] = draw(st.sampled_from([0, 0, 0, 1]))
    c["goal"] = draw(st.integers(0, 60))
    c["aim"] = draw(st.sampled_from([0, 0, 1]))  # 1: a target for which no proof should verify
    c["muts"] = [list(m) for m in draw(st.lists(
        st.tuples(st.sampled_from(MUTATIONS), st.integers(0, 40), st.integers(0, 200),
                  st.integers(0, 255)), min_size=draw(st.sampled_from([0, 1, 1, 2])), max_size=4))]
    c["junk"] = draw(st.binary(max_size=40))
    return c


def world(case):
    """Two tries: the one verified against and one a few operations later."""
    a, model_a = gens.build(MPT, case)
    model_b = dict(model_a)
    b = MPT({}, secure=case["secure"])
    for op in case["later"]:
        k = case["keys"][op[1]]
        if op[0] == "u":
            model_b[k] = op[2]
        else:
            model_b.pop(k, None)
    for k, v in model_b.items():
        b.update(k, v)
    return a, gens.inner(model_a, case["secure"]), b, gens.inner(model_b, case["secure"])


def crafted(target):
    """Nodes that put something under a target or show it absent."""
    nib = refs.nibbles(target)
    out = []
    for d in sorted({0, 1, 2, 3, len(nib) // 2, len(nib) - 1, len(nib)}):
        if 0 <= d <= len(nib):
            rest = nib[d:]
            out.append(refs.rlp([refs.hp(rest, True), b"forged"]))
            out.append(refs.rlp([refs.hp(rest, True), b"null"]))
            out.append(refs.rlp([refs.hp(rest, True), b"forged" * 9]))
            leaf = refs.rlp([refs.hp((), True), b"forged" * 9])
            out.append(refs.rlp([refs.hp(rest, False), refs.keccak(leaf)]))
            out.append(leaf)
            kids = [b""] * 16
            out.append(refs.rlp(kids + [b"forged"]))
            if rest:
                kids[rest[0]] = refs.keccak(leaf)
                out.append(refs.rlp(kids + [b""]))
    return out


def goals(case, ma, mb):
    """Keys, as they are inside the trie, that a forger may aim at."""
    inner = refs.keccak if case["secure"] else (lambda k: k)
    out = list(dict.fromkeys([inner(k) for k in case["keys"]] + list(ma) + list(mb)))
    for k in list(out):
        for x in gens.near(k):
            if x not in out:
                out.append(x)
    if b"" not in out:
        out.append(b"")
    return out


def forge(case, exclusion):
    """(proof, target, trie, inner contents, number of mutations with effect)."""
    a, ma, b, mb = world(case)
    src, ms = (b, mb) if case["from"] and mb else (a, ma)
    all_goals = goals(case, ma, mb)
    fit = [g for g in all_goals if (g in ms) is (exclusion if case["aim"] else not exclusion)] or all_goals
    target = fit[case["goal"] % len(fit)]
    nodes = [e for e, _ in refs.trie_path(ms, target)]
    if exclusion:
        nodes.append(null_leaf(ms, target))
    claimed = src.root()
    pool = list(dict.fromkeys(refs.trie_nodes(ma) + refs.trie_nodes(mb)))
    done = 0
    for kind, i, j, bit in case["muts"]:
        before = (list(nodes), target, claimed)
        at = i % len(nodes) if nodes else 0
        if kind == "drop" and nodes:
            del nodes[at]
        elif kind == "dup" and nodes:
            nodes.insert(j % (len(nodes) + 1), nodes[at])
        elif kind == "swap" and nodes:
            k = j % len(nodes)
            nodes[at], nodes[k] = nodes[k], nodes[at]
        elif kind == "ins":
            nodes.insert(i % (len(nodes) + 1), pool[j % len(pool)])
        elif kind == "rep" and nodes:
            nodes[at] = pool[j % len(pool)]
        elif kind == "craft" and nodes:
            own = crafted(target)
            if bit % 2:
                nodes[at] = own[j % len(own)]
            else:
                nodes.insert(i % (len(nodes) + 1), own[j % len(own)])
        elif kind == "flip" and nodes and nodes[at]:
            x = bytearray(nodes[at])
            x[j % len(x)] ^= 1 << (bit % 8)
            nodes[at] = bytes(x)
        elif kind == "cut" and nodes:
            nodes[at] = nodes[at][: j % (len(nodes[at]) + 1)]
        elif kind == "junk" and nodes:
            nodes[at] = case["junk"] if bit % 2 else nodes[at] + case["junk"]
        elif kind == "target":
            target = all_goals[j % len(all_goals)]
            if bit % 2 and exclusion and nodes:
                nodes[-1] = null_leaf(ma, target)
        elif kind == "root":
            choice = [a.root(), a.root_hash(), b.root(), b.root_hash(), refs.EMPTY_ROOT, b"",
                      refs.keccak(a.root_hash()), a.root_hash()[:-1], case["junk"],
                      bytes(32), a.root_hash().hex().encode(), refs.keccak(a.root())]
            claimed = choice[j % len(choice)]
        elif kind == "splice":
            pa = [e for e, _ in refs.trie_path(ma, target)]
            pb = [e for e, _ in refs.trie_path(mb, target)] if mb else []
            nodes = pa[: 1 + i % max(1, len(pa))] + pb[j % (len(pb) + 1):] + (nodes[-1:] if exclusion else [])
        elif kind == "all":
            r = [e for e, _ in refs.trie_path(ma, target)][:1]
            rest = [e for e in (pool if bit % 2 else refs.trie_nodes(ma)) if e not in r]
            nodes = r + rest + (nodes[-1:] if exclusion else [])
        elif kind == "reverse":
            nodes = nodes[:1] + nodes[:0:-1]
        elif kind == "front" and nodes:
            first = [e for e, _ in refs.trie_path(ma, target)][:1]
            nodes = first + nodes[(1 if bit % 2 else 0):]
        done += before != (nodes, target, claimed)
    kind = b"MPT-POE" if exclusion else b"MPT-POI"
    return Proof(target, claimed, tuple(nodes), kind), a, ma, done, case["from"] and a.root() != b.root()


def null_leaf(contents, target):
    """The leaf that stands for an absent target at the end of its path."""
    nib = refs.nibbles(target)
    depth = 0
    for e, _ in refs.trie_path(contents, target):
        s = refs.unrlp(e)
        if len(s) == 2:
            p, leaf = refs.unhp(s[0])
            if leaf or nib[depth: depth + len(p)] != p:
                break
            depth += len(p)
        elif len(nib) == depth or s[nib[depth]] == b"":
            break
        else:
            depth += 1
    return refs.rlp([refs.hp(nib[depth:], True), b"null"])


def verifier_of(trie, secure, which):
    return trie if which else RootEMPT(trie.root(), secure=secure)


def why_not_inclusion(proof, trie, contents):
    """Why an accepted inclusion proof should not have been (None: fine)."""
    if proof.target_key not in contents:
        return "the target %r is not stored" % (proof.target_key,)
    return _why(proof, trie, contents)


def why_not_exclusion(proof, trie, contents):
    if proof.target_key in contents:
        return "the target %r is stored" % (proof.target_key,)
    w = _why(proof, trie, contents)
    if w:
        return w
    path = [e for e, _ in refs.trie_path(contents, proof.target_key)]
    for e in proof.proof[:-1]:
        if e not in path:
            return "a node that is not on the path of the target is included (%s)" % bytes(e).hex()[:60]
    return None


def _why(proof, trie, contents):
    if proof.trie_root not in (trie.root(), trie.root_hash()):
        return "the claimed root %s is not the trie's" % proof.trie_root.hex()[:70]
    for e, hashed in refs.trie_path(contents, proof.target_key):
        if hashed and e not in proof.proof:
            return "the node %s... on the path is missing or altered" % e.hex()[:60]
    return None


def node_sets(contents, target):
    """For small tries: every choice of its nodes, the root first."""
    root = refs.trie_root_node(contents)
    rest = [e for e in dict.fromkeys(refs.trie_nodes(contents)) if e != root]
    for n in range(len(rest) + 1):
        for sub in combinations(rest, n):
            yield (root,) + sub
