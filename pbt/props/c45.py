"""C45: copies show the same and go their own way."""
import copy
import pickle

from hypothesis import strategies as st

import gens
import objs
import refs
from engine import Campaign
from lib import attempt, ensure, must, same
from props import merkle
from pymt.empt import EMPT, DataReference, RootEMPT, SparseEMPT
from pymt.merkletools import MerkleTools
from pymt.mpt import MPT
from pymt.mt import MerkleTree
from pymt.proof import Proof
from pymt.utils.nibble_path import NibblePath
from pymt.utils.node import Branch, Extension, Leaf, Node

RULE = (
    "Histories over up to four tries of one kind (plain, sparse, extended with values of all kinds; both modes): "
    "writes, deletions, rebuilds, emptying, and deep or pickled copies (every protocol) of any of them. Every one has to have exactly "
    "the root, contents, membership and proofs of its own model afterwards, whatever was done to the others, root-only "
    "views included; Merkle trees and tools alike, copied empty, unbuilt, built and extended. Proofs, nodes, paths "
    "(partly consumed) and data references are copied in all ways, the shallow one included, and compared field by "
    "field. Non-trivial: a copy was made of something and one of the two changed after that, or a value was copied."
)
ASSUMPTIONS = ["The storages of a copied trie are dictionaries (which are copied along)."]

WAYS = ["deep"] + list(range(pickle.HIGHEST_PROTOCOL + 1))


def twin(o, way, what):
    def make():
        return copy.deepcopy(o) if way == "deep" else pickle.loads(pickle.dumps(o, way))

    new = must(make, what="copying (%s) %s" % (way, what))
    ensure(type(new) is type(o), "the copy (%s) of %s is a %s", way, what, type(new).__name__)
    ensure(new is not o, "the copy (%s) of %s is the same object", way, what)
    return new


class Trie:
    def __init__(self, kind, t, model, secure):
        self.kind, self.t, self.model, self.secure = kind, t, model, secure

    def inside(self):
        if self.kind == "mpt":
            return gens.inner(self.model, self.secure)
        return gens.inner({k: refs.data_reference(k, objs.encoding(v)) for k, v in self.model.items()}, self.secure)

    def look(self, keys, what):
        t, inside = self.t, self.inside()
        root = refs.trie_root(inside)
        same(must(t.root_hash), root, "root of " + what)
        same(t.secure if hasattr(t, "secure") else self.secure, self.secure, "mode of " + what)
        for k in keys:
            same(must(t.contains, k), k in self.model, "membership of %r in %s" % (k, what))
            if k in self.model:
                if self.kind == "sparse":
                    r = must(t.get_reference, k, what="the reference of %r in %s" % (k, what))
                    same(r.encode(), refs.data_reference(k, objs.encoding(self.model[k])), "reference of %r" % k)
                else:
                    same(must(t.get, k, what="reading %r from %s" % (k, what)), self.model[k],
                         "value of %r in %s" % (k, what))
            elif self.kind != "sparse":
                ok, v = attempt(t.get, k)
                ensure(not ok, "reading the absent %r from %s gives %r", k, what, v)
            if self.model:
                name = "inclusion" if k in self.model else "exclusion"
                p = must(getattr(t, "get_proof_of_" + name), k, what="%s proof of %r from %s" % (name, k, what))
                same(must(getattr(t, "verify_proof_of_" + name), p), True, "verdict of %s" % what)
        if self.kind == "empt":
            same(sorted(t), sorted(self.model), "keys of " + what)
            same(len(t), len(self.model), "length of " + what)


def tries(case, ctx):
    kind, secure, keys = case["kind"], case["secure"], case["keys"]
    ctx.tag(kind, "secure" if secure else "plain")
    first = {"mpt": lambda: MPT({}, secure=secure), "sparse": lambda: SparseEMPT(secure=secure),
             "empt": lambda: EMPT(secure=secure)}[kind]()
    all_ = [Trie(kind, first, {}, secure)]
    copied = False
    for op, which, i, *rest in case["ops"]:
        j = which % len(all_)
        x = all_[j]
        k = keys[i % len(keys)]
        if op == "u":
            v = objs.value(rest[0]) if kind != "mpt" else (rest[0][1] or b"0")
            must(x.t.update, k, v, what="writing %r to number %d" % (k, j))
            x.model[k] = copy.deepcopy(v)
            ctx.nt(copied)
        elif op == "d":
            if k in x.model:
                must(x.t.delete, k, what="deleting %r from number %d" % (k, j))
                del x.model[k]
                ctx.nt(copied)
        elif op == "b":
            if kind == "empt":
                must(x.t.build_trie, what="rebuilding number %d" % j)
                ctx.nt(copied)
        elif op == "D":
            for k in sorted(x.model):
                must(x.t.delete, k, what="emptying number %d" % j)
                ctx.nt(copied)
            x.model.clear()
        else:
            way = WAYS[rest[0] % len(WAYS)]
            new = twin(x.t, way, "number %d" % j)
            made = Trie(kind, new, dict(x.model), secure)
            ensure((new == x.t) is True if kind == "mpt" else True, "the copy is not equal")
            if len(all_) < 4:
                all_.append(made)
            else:
                all_[(j + 1) % 4] = made
            copied = True
            ctx.count("copies")
            ctx.tag("way %s" % way)
            if kind != "mpt" and x.model:
                view = x.t.get_root_trie()
                v2 = twin(view, way, "a root-only view")
                ensure(type(v2) is RootEMPT, "copy of a root-only view is %r", v2)
                same(v2.root_hash(), view.root_hash(), "root of the copied view")
                k0 = sorted(x.model)[0]
                same(must(v2.verify_proof_of_inclusion, x.t.get_proof_of_inclusion(k0)), True, "verdict of it")
        for n, y in enumerate(all_):
            same(y.t.root_hash(), refs.trie_root(y.inside()), "root of number %d after %s of number %d" % (n, op, j))
    for n, y in enumerate(all_):
        y.look(gens.probes({k: b"" for k in y.model}, keys, 14), "number %d" % n)


def leaves_of(t):
    return [t.get_leaf(i) for i in range(t.get_leaf_count())]


def trees(case, ctx):
    tools, secure, name = case["tools"], case["secure"], case["hash"]
    ctx.tag("tools" if tools else "tree", name)
    first = MerkleTools(hash_type=name, secure=secure) if tools else MerkleTree(hash_type=name, secure=secure)
    all_ = [[first, [], False]]
    copied = False
    for op, which, arg in case["ops"]:
        x = all_[which % len(all_)]
        t = x[0]
        if op == "put":
            must(t.add_leaf if tools else t.put, arg, what="adding a leaf")
            x[1].append(arg)
            x[2] = False
            ctx.nt(copied)
        elif op == "make":
            must(t.make_tree)
            x[2] = True
        elif op == "reset":
            must(t.reset_tree)
            x[1], x[2] = [], False
            ctx.nt(copied)
        else:
            way = WAYS[len(arg) % len(WAYS)]
            new = [twin(t, way, "the Merkle tree"), list(x[1]), x[2]]
            copied = True
            ctx.count("copies")
            if len(all_) < 4:
                all_.append(new)
            else:
                all_[(which + 1) % 4] = new
        for n, (u, ls, ready) in enumerate(all_):
            what = "of number %d" % n
            ref = [refs.merkle_leaf(name, secure, v) for v in ls]
            same(leaves_of(u), [v.hex() for v in ref], "leaves " + what)
            same(u.get_tree_ready_state(), ready, "state " + what)
            if ready and ls:
                root = refs.merkle_root(name, ref).hex()
                got = must(u.get_merkle_root, what="the root " + what)
                same(got, root if tools else root.encode(), "root " + what)
    for n, (u, ls, ready) in enumerate(all_):
        if not ls:
            continue
        u.make_tree()
        for v in ls[:4]:
            if tools:
                want = u.get_proof_of_inclusion(v)
                same(u.verify_proof_of_inclusion(want, refs.merkle_leaf(name, secure, v),
                                                 bytes.fromhex(u.get_merkle_root())), True, "verdict")
            else:
                p = must(u.get_proof_of_inclusion, v, what="a proof from number %d" % n)
                for m, (w, other, _) in enumerate(all_):
                    if other == ls:
                        same(must(w.verify_proof_of_inclusion, p), True, "verdict of number %d" % m)
                for way in WAYS + ["shallow"]:
                    proof(p, way)


def proof(p, way):
    q = must(copy.copy, p, what="copying a proof") if way == "shallow" else twin(p, way, "a proof")
    for name in ("type", "timestamp", "target_key", "trie_root", "proof"):
        same(getattr(q, name), getattr(p, name), "%s of the copied (%s) proof" % (name, way))
    same(dict(q.items()), dict(p.items()), "items of the copied (%s) proof" % way)
    same(list(q), list(p), "iteration of the copied (%s) proof" % way)
    ensure(q == p and hash(q) == hash(p), "the copied (%s) proof is not equal", way)


def things(case, ctx):
    key, data, off, items = case["key"], case["data"], case["offset"], case["items"]
    off = off % (2 * len(key) + 1)
    path = NibblePath(key, off)
    nib = refs.nibbles(key)[off:]
    ps = [Proof(target_key=key, root_hash=data, proof=tuple(items), proof_type=t)
          for t in (b"MPT-POI", b"MPT-POE", b"MT-POI")]
    ps.append(Proof(target_key=data, root_hash=key, proof=tuple((b"left", i) for i in items), proof_type=b"MT-POI"))
    dec = must(Proof.decode_rlp, ps[-1].encode_rlp(), what="decoding a proof")
    ref = DataReference(key, data)
    inline = refs.rlp([refs.hp(nib[:8], True), data[:8]])
    branches = [b""] * 16
    branches[off % 16] = inline
    branches[(off + 5) % 16] = refs.keccak(key)
    nodes = [Leaf(NibblePath(key, off), data), Extension(NibblePath(key or b"k", 0), refs.keccak(data)),
             Branch(list(branches), data)]
    nodes += [Node.decode(n.encode()) for n in nodes]
    ctx.nt()
    for way in WAYS + ["shallow"]:
        def cp(o, what):
            return must(copy.copy, o, what="copying " + what) if way == "shallow" else twin(o, way, what)

        for p in ps + [dec]:
            proof(p, way)
        r = cp(ref, "a data reference")
        same((r.key, r.data, r.hash, r.encode()), (key, data, ref.hash, ref.encode()), "the copied reference")
        ensure(r == ref and hash(r) == hash(ref), "the copied reference is not equal")
        q = cp(path, "a path")
        same(tuple(q.at(i) for i in range(len(q))), nib, "nibbles of the copied (%s) path" % way)
        ensure(q == path, "the copied path is not equal")
        if nib:
            q.consume(1)
            same(tuple(path.at(i) for i in range(len(path))), nib, "the path after its copy was consumed")
            same(tuple(q.at(i) for i in range(len(q))), nib[1:], "the copied path, consumed")
        for n in nodes:
            before = n.encode()
            m = cp(n, "a node")
            ensure(type(m) is type(n), "the copied node is a %s", type(m).__name__)
            same(m.encode(), before, "encoding of the copied node")
            same(Node.into_reference(m), Node.into_reference(n), "reference of the copied node")
            if way != "shallow":
                if isinstance(m, Branch):
                    m.branches[(off + 1) % 16] = refs.keccak(b"x")
                elif len(m.path):
                    m.path.consume(1)
                same(n.encode(), before, "encoding of a node after its copy was changed")
        ctx.count("copies", 3 + len(ps) + len(nodes))


which = st.integers(0, 3)


@st.composite
def trie_cases(draw):
    keys = draw(gens.key_pool(1, 8))
    ki = st.integers(0, len(keys) - 1)
    op = st.one_of(st.tuples(st.just("u"), which, ki, objs.data_specs()),
                   st.tuples(st.just("u"), which, ki, objs.data_specs()),
                   st.tuples(st.just("d"), which, ki),
                   st.tuples(st.just("c"), which, ki, st.integers(0, 6)),
                   st.tuples(st.sampled_from("bbcD"), which, ki, st.integers(0, 6)))
    ops = draw(st.lists(op, min_size=3, max_size=18))
    return {"kind": draw(st.sampled_from(["mpt", "sparse", "empt"])), "secure": draw(st.sampled_from([False, False, True])),
            "keys": keys, "ops": [list(o) for o in ops]}


def tree_cases():
    op = st.one_of(*[st.tuples(st.just("put"), which, merkle.leaf())] * 3, st.tuples(st.just("make"), which, st.just(b"")),
                   st.tuples(st.just("copy"), which, st.integers(0, 6).map(lambda n: b"." * n)),
                   st.tuples(st.sampled_from(["make", "reset", "put"]), which, merkle.leaf()))
    return st.fixed_dictionaries({
        "tools": st.booleans(), "secure": st.booleans(), "hash": st.sampled_from(merkle.NAMES),
        "ops": st.lists(op.map(list), min_size=2, max_size=18)})


def thing_cases():
    return st.fixed_dictionaries({
        "key": st.one_of(st.binary(max_size=6), st.binary(max_size=40)), "data": gens.values() | st.just(b""),
        "offset": st.integers(0, 20), "items": st.lists(st.binary(max_size=40), max_size=4)})


CAMPAIGNS = [
    Campaign("tries", lambda tier: trie_cases(), tries, 1500, 40000),
    Campaign("Merkle trees", lambda tier: tree_cases(), trees, 1200, 30000),
    Campaign("values", lambda tier: thing_cases(), things, 1000, 25000),
]
