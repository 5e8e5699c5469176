"""C46: arguments stay as they are, and results belong to the caller."""
from hypothesis import strategies as st

import gens
import objs
import refs
from engine import Campaign
from lib import ensure, must, same
from props import merkle
from pymt.empt import EMPT, SparseEMPT
from pymt.merkletools import MerkleTools
from pymt.mpt import MPT
from pymt.mt import MerkleTree
from pymt.utils.hash import keccak_hash, keccak_hash_list
from pymt.utils.nibble_path import NibblePath
from pymt.utils.node import Branch, Extension, Leaf, Node

RULE = (
    "Histories in which keys, values and leaves are handed over as byte arrays, lists or objects of the caller, "
    "which have to be unaltered after every call and are then overwritten by the caller; and in which what a call "
    "returned (proof lists and their entries, dictionaries and lists of keys and items) is overwritten too. Root, "
    "contents, proofs and verdicts of plain and sparse tries, leaves, root and proofs of Merkle trees and tools, "
    "and the encodings of nodes have to remain those of the reference model. Non-trivial: something of the caller "
    "was overwritten and the object asked afterwards."
)
ASSUMPTIONS = [
    "A value put into an extended trie is the caller's object by design (altering it is caught on reading, C12), "
    "and so are the data of a path and the list of references of a branch."]


def spoil(b):
    """What a caller may do with its own byte array."""
    for i in range(len(b)):
        b[i] ^= 0xFF
    b += b"spoilt"


def tries(case, ctx):
    kind, secure = case["kind"], case["secure"]
    ctx.tag(kind, "secure" if secure else "plain")
    t = MPT({}, secure=secure) if kind == "mpt" else SparseEMPT({}, secure=secure)
    model = {}

    def own(k):
        return bytearray(k) if kind == "mpt" else k

    for op, i, *rest in case["ops"]:
        k = case["keys"][i]
        key = own(k)
        if op == "u":
            v = bytearray(rest[0])
            must(t.update, key, v, what="writing %r with byte arrays" % k)
            same(v, rest[0], "the value handed over")
            spoil(v)
            ctx.nt()
            model[k] = rest[0]
        elif k in model:
            must(t.delete, key, what="deleting %r" % k)
            del model[k]
        same(key, k, "the key handed over")
        if kind == "mpt":
            spoil(key)
        inside = model if kind == "mpt" else {q: refs.data_reference(q, v) for q, v in model.items()}
        same(t.root_hash(), refs.trie_root(gens.inner(inside, secure)), "root after %s of %r" % (op, k))
    for k in gens.probes(model, case["keys"], 14):
        for _ in range(2):
            key = own(k)
            same(must(t.contains, key), k in model, "membership of %r" % k)
            if kind == "mpt" and k in model:
                same(must(t.get, key), model[k], "value of %r" % k)
            same(key, k, "the key handed over")
            if model:
                name = "inclusion" if k in model else "exclusion"
                p = must(getattr(t, "get_proof_of_" + name), k)
                before = objs.proof_fields(p), p.timestamp
                for field in p.items():
                    list(field)
                d = p.__dict__()
                d.clear()
                same(must(getattr(t, "verify_proof_of_" + name), p), True, "verdict on the proof of %r" % k)
                same((objs.proof_fields(p), p.timestamp), before, "the verified proof")
    if kind == "mpt":
        e = must(t.encode)
        arr = bytearray(e)
        u = must(MPT.decode, bytes(arr))
        spoil(arr)
        same(u.root_hash(), t.root_hash(), "root of the decoded trie")
        for k in model:
            same(must(u.get, k), model[k], "value of %r in the decoded trie" % k)


def extended(case, ctx):
    t, model = EMPT(secure=case["secure"]), {}
    ctx.tag("empt")
    for op, i, *rest in case["ops"]:
        k = case["keys"][i]
        if op == "u":
            v = bytearray(rest[0])
            t[k] = v
            same(v, rest[0], "the value handed over")
            model[k] = rest[0]
        elif k in model:
            del t[k]
            del model[k]
        for view in (list(t), list(t.keys()), list(t.items()), list(t.values()), dict(t)):
            view.clear()
            ctx.nt(bool(model))
        given = {k: bytearray(b"several")}
        t.update(k, given[k])
        model[k] = b"several"
        same(given, {k: bytearray(b"several")}, "the values handed over")
        same(sorted(t), sorted(model), "keys")
        same({q: bytes(t[q]) for q in t}, model, "contents")
        same(t.root_hash(), objs.ref_root(model, case["secure"]), "root")
        r = t.get_reference(k)
        same((r.key, r.data), (k, model[k]), "reference of %r" % k)


def trees(case, ctx):
    name, secure = case["hash"], case["secure"]
    tools = MerkleTools(hash_type=name, secure=secure)
    tree = MerkleTree(hash_type=name, secure=secure)
    ls = []
    for group in case["groups"]:
        given = list(group)
        must(tree.put_list, given)
        same(given, list(group), "the list handed over")
        given[:] = [b"spoilt"] * (len(given) + 1)
        for v in group:
            b = bytearray(v)
            must(tools.add_leaf, b, what="adding a byte array")
            same(b, v, "the leaf handed over")
            spoil(b)
            ctx.nt()
        ls += group
        for t in (tools, tree):
            t.make_tree()
            for _ in range(2):
                same([t.get_leaf(i) for i in range(len(t))],
                     [refs.merkle_leaf(name, secure, v).hex() for v in ls], "leaves")
        ref = [refs.merkle_leaf(name, secure, v) for v in ls]
        root = refs.merkle_root(name, ref)
        for i in case["asked"]:
            v = ls[i % len(ls)]
            first = ref.index(refs.merkle_leaf(name, secure, v))
            for _ in range(3):
                p = must(tools.get_proof_of_inclusion, bytearray(v))
                got = [(s.encode(), bytes.fromhex(h)) for e in p for s, h in e.items()]
                same(refs.merkle_fold(name, ref[first], got), root, "what the proof of %r folds to" % v)
                before = [dict(e) for e in p]
                same(must(tools.verify_proof_of_inclusion, p, ref[first], root), True, "verdict")
                same(p, before, "the proof list that was verified")
                for e in p:
                    e.clear()
                p.append({"left": "00"})
                q = must(tree.get_proof_of_inclusion, v)
                q.__dict__().clear()
                same(must(tree.verify_proof_of_inclusion, q), True, "verdict of the tree")
                ctx.count("proofs", 2)
            same(tools.get_merkle_root(), root.hex(), "root")
            same(tree.get_merkle_root(), root.hex().encode(), "root")


def helpers(case, ctx):
    key, data, parts = case["key"], case["data"], case["parts"]
    off = case["offset"] % (2 * len(key) + 1)
    arr = bytearray(data)
    same(must(keccak_hash, arr), refs.keccak(data), "hash of a byte array")
    same(arr, data, "the hashed byte array")
    given = [bytearray(p) for p in parts]
    same(must(keccak_hash_list, given), refs.keccak(b"".join(parts)), "hash of a list")
    same(given, list(parts), "the hashed list")
    nib = refs.nibbles(key)[off:]
    raw = bytearray(key)
    path = NibblePath(raw, off)
    kids = [b""] * 16
    kids[off % 16] = refs.rlp([refs.hp((1, 2), True), b"v"])
    kids[3] = refs.keccak(data)
    given = list(kids)
    value = bytearray(data)
    nodes = [Leaf(path, value), Extension(path, bytearray(refs.keccak(key))), Branch(given, value)]
    want = [n.encode() for n in nodes]
    for _ in range(2):
        for n, w in zip(nodes, want):
            same(n.encode(), w, "encoding of a node")
            same(Node.into_reference(n), w if len(w) < 32 else refs.keccak(w), "reference of a node")
    same(given, kids, "the list of references handed over")
    same(value, data, "the value handed over")
    same(raw, key, "the data of the path")
    same(tuple(path.at(i) for i in range(len(path))), nib, "the path of the nodes")
    for w in want if nib else want[::2]:
        arr = bytearray(w)
        m = must(Node.decode, arr, what="decoding a byte array")
        same(arr, w, "the decoded byte array")
        same(m.encode(), w, "the decoded node")
    other = NibblePath(bytes(key), 0)
    for f in (path.common_prefix, path.combine, path.starts_with, path.__eq__):
        must(f, other)
        same(tuple(path.at(i) for i in range(len(path))), nib, "a path after it was used")
        same(tuple(other.at(i) for i in range(len(other))), refs.nibbles(key), "a path handed over")
    made = path.combine(other)
    made.consume(len(made))
    same(tuple(path.at(i) for i in range(len(path))), nib, "a path after the combined one was consumed")
    ctx.nt()


@st.composite
def trie_cases(draw):
    c = draw(gens.history(max_keys=8, max_ops=16))
    c["kind"] = draw(st.sampled_from(["mpt", "mpt", "sparse"]))
    return c


def tree_cases():
    return st.fixed_dictionaries({
        "secure": st.booleans(), "hash": st.sampled_from(merkle.NAMES),
        "groups": st.lists(st.lists(merkle.leaf(), min_size=1, max_size=6), min_size=1, max_size=4),
        "asked": st.lists(st.integers(0, 30), min_size=1, max_size=4)})


def helper_cases():
    return st.fixed_dictionaries({
        "key": st.binary(min_size=1, max_size=8) | st.binary(min_size=1, max_size=40),
        "data": gens.values(), "offset": st.integers(0, 20), "parts": st.lists(st.binary(max_size=8), max_size=5)})


CAMPAIGNS = [
    Campaign("tries", lambda tier: trie_cases(), tries, 1200, 30000),
    Campaign("extended", lambda tier: gens.history(max_keys=6, max_ops=10), extended, 500, 12000),
    Campaign("Merkle trees", lambda tier: tree_cases(), trees, 800, 20000),
    Campaign("helpers", lambda tier: helper_cases(), helpers, 1500, 30000),
]
