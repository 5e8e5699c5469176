"""C30: wrongly typed input is refused without effect."""
import os
import shutil
import tempfile

from hypothesis import strategies as st

import gens
import keys
import objs
import refs
from engine import Campaign, Enumeration
from lib import Violation, attempt, ensure, must, refuses, same, short
from pymt.empt import EMPT, DataReference, RootEMPT, SparseEMPT
from pymt.mt import MerkleTree
from pymt.proof import Proof
from pymt.utils.hash import keccak_hash, keccak_hash_list
from pymt.utils.nibble_path import NibblePath
from pymt.utils.node import Branch, Extension, Leaf, Node
from pymt.utils.utils import Utils

RULE = (
    "Every argument position that documents a type is called with every value of a list of wrongly typed "
    "ones, enumerated completely on a fixed state and again at generated points of histories of an extended "
    "trie, its sparse twin and a Merkle tree. The call has to raise a type, value or not-implemented error, "
    "and contents, length, root hash, leaves, key pair and files are afterwards what they were; the history "
    "goes on against its model. Non-trivial: every refused call on objects that hold something."
)
ASSUMPTIONS = []

DOCUMENTED = (TypeError, ValueError, NotImplementedError)


class OnlyEncode:
    def encode_rlp(self):
        return b"x"


class OnlyDecode:
    def decode_rlp(self, data):
        return self


WRONG = {
    "none": lambda: None, "zero": lambda: 0, "int": lambda: 7, "negative": lambda: -1, "bool": lambda: True,
    "float": lambda: 1.5, "str": lambda: "key", "empty str": lambda: "", "long str": lambda: "k" * 40,
    "list": lambda: [], "list of bytes": lambda: [b"key"], "tuple": lambda: (), "tuple of bytes": lambda: (b"key",),
    "dict": lambda: {}, "dict of bytes": lambda: {b"key": b"v"}, "set": lambda: {b"key"}, "object": object,
    "bytearray": lambda: bytearray(b"key"), "memoryview": lambda: memoryview(b"key"), "class": lambda: bytes,
    "ellipsis": lambda: ..., "range": lambda: range(3), "bytes": lambda: b"key", "empty bytes": lambda: b"",
    "generator": lambda: (x for x in [b"key"]), "list of ints": lambda: [1, 2], "exception": lambda: KeyError("x"),
    "half": OnlyEncode, "other half": OnlyDecode, "path": lambda: NibblePath(b"ab"),
    "proof": lambda: Proof(b"a", b"b", (b"c",), b"MT-POI"), "node": lambda: Leaf(NibblePath(b"ab"), b"v"),
    "list with a fault": lambda: [b"one", b"two", "three"], "list with a late fault": lambda: [b"one", b"two", None],
    "tuple with a fault": lambda: (b"one", 3), "list with an array": lambda: [b"one", bytearray(b"two")],
    "branch list": lambda: [b""] * 15 + ["x"], "branch list 2": lambda: [None] + [b""] * 15,
}


def is_value(x):
    return isinstance(x, (bytes, bytearray)) or (hasattr(x, "encode_rlp") and hasattr(x, "decode_rlp"))


def by_type(*types):
    return lambda x: isinstance(x, types)


def list_of_bytes(x):
    return isinstance(x, (list, tuple)) and all(isinstance(i, bytes) for i in x)


def branches(x):
    return isinstance(x, list) and all(isinstance(i, (bytes, bytearray)) for i in x)


class State:
    """The objects the calls are made on."""

    def __init__(self, c, scratch):
        self.trie_nodes, self.data = {}, {}
        self.e = EMPT(self.trie_nodes, self.data, secure=c["secure"])
        self.s = SparseEMPT({}, secure=c["secure"])
        self.m = MerkleTree(secure=c["secure"])
        self.model = {}
        self.leaves = []
        for k, v in zip(c["keys"], c["vals"]):
            self.put(k, v)
        self.m.make_tree()
        self.k = keys.pair("all", 0, "me")
        self.other = keys.pair("all", 1, "you")
        self.sig = self.k.sign(b"m")
        self.env = self.other.encrypt(b"m", self.k.public_key)
        self.key = sorted(self.model)[0] if self.model else b"absent"
        self.file = os.path.join(scratch, "export.json")
        self.there = os.path.join(scratch, "there.json")
        with open(self.there, "w") as f:
            f.write("kept")
        self.secure = c["secure"]

    def put(self, k, v):
        self.e.update(k, v)
        self.s.update(k, v)
        self.m.put(v)
        self.model[k] = v
        self.leaves.append(v)

    def drop(self, k):
        self.e.delete(k)
        self.s.delete(k)
        del self.model[k]

    def judge(self, what):
        root = objs.ref_root(self.model, self.secure)
        same(self.e.root_hash(), root, "root hash of the extended trie after " + what)
        same(self.s.root_hash(), root, "root hash of the sparse trie after " + what)
        same(len(self.e), len(self.model), "length after " + what)
        same({k: self.e[k] for k in self.e}, self.model, "contents after " + what)
        for k in self.model:
            ensure(k in self.s, "a key of the sparse trie is gone after %s", what)
        same(self.m.get_count(), len(self.leaves), "number of leaves after " + what)
        same([self.m.get(i) for i in range(len(self.leaves))],
             [refs.merkle_leaf("sha256", self.secure, v).hex() for v in self.leaves], "leaves after " + what)
        if self.leaves:
            same(self.m.get_merkle_root(),
                 refs.merkle_root("sha256", [refs.merkle_leaf("sha256", self.secure, v) for v in self.leaves]).hex().encode(),
                 "Merkle root after " + what)
        same((self.k.nickname, self.k.public_key), ("me", self.other_public), "key pair after " + what)
        ensure(not os.path.exists(self.file), "%s made a file", what)
        same(open(self.there).read(), "kept", "file after " + what)

    @property
    def other_public(self):
        return self._pub

    def remember(self):
        self._pub = self.k.public_key


B = by_type(bytes)
BA = by_type(bytes, bytearray)
S = by_type(str)
BOOL = by_type(bool)
PROOF = by_type(Proof)
PATH = by_type(NibblePath)
BUFFER = by_type(bytes, bytearray, memoryview)


def setitem(o, k, v):
    o[k] = v


def delitem(o, k):
    del o[k]


CALLS = {
    # extended trie
    "EMPT.update key": (B, lambda s, x: s.e.update(x, b"v")),
    "EMPT.update value": (is_value, lambda s, x: s.e.update(b"new", x)),
    "EMPT.update value of a key": (is_value, lambda s, x: s.e.update(s.key, x)),
    "EMPT[] = key": (B, lambda s, x: setitem(s.e, x, b"v")),
    "EMPT[] = value": (is_value, lambda s, x: setitem(s.e, s.key, x)),
    "EMPT.delete": (B, lambda s, x: s.e.delete(x)),
    "del EMPT[]": (B, lambda s, x: delitem(s.e, x)),
    "EMPT.get": (B, lambda s, x: s.e.get(x)),
    "EMPT[]": (B, lambda s, x: s.e[x]),
    "EMPT.contains": (B, lambda s, x: s.e.contains(x)),
    "in EMPT": (B, lambda s, x: x in s.e),
    "EMPT.get_reference": (B, lambda s, x: s.e.get_reference(x)),
    "EMPT.get_proof_of_inclusion": (B, lambda s, x: s.e.get_proof_of_inclusion(x)),
    "EMPT.get_proof_of_exclusion": (B, lambda s, x: s.e.get_proof_of_exclusion(x)),
    "EMPT.verify_proof_of_inclusion": (PROOF, lambda s, x: s.e.verify_proof_of_inclusion(x)),
    "EMPT.verify_proof_of_exclusion": (PROOF, lambda s, x: s.e.verify_proof_of_exclusion(x)),
    "EMPT.pop": (B, lambda s, x: s.e.pop(x)),
    "EMPT.setdefault key": (B, lambda s, x: s.e.setdefault(x, b"v")),
    # sparse trie
    "SparseEMPT.update key": (B, lambda s, x: s.s.update(x, b"v")),
    "SparseEMPT.update value": (is_value, lambda s, x: s.s.update(b"new", x)),
    "SparseEMPT.update value of a key": (is_value, lambda s, x: s.s.update(s.key, x)),
    "SparseEMPT[] = key": (B, lambda s, x: setitem(s.s, x, b"v")),
    "SparseEMPT[] = value": (is_value, lambda s, x: setitem(s.s, s.key, x)),
    "SparseEMPT.delete": (B, lambda s, x: s.s.delete(x)),
    "del SparseEMPT[]": (B, lambda s, x: delitem(s.s, x)),
    "SparseEMPT[]": (lambda x: False, lambda s, x: s.s[x]),
    "SparseEMPT.contains": (B, lambda s, x: s.s.contains(x)),
    "in SparseEMPT": (B, lambda s, x: x in s.s),
    "SparseEMPT.get_reference": (B, lambda s, x: s.s.get_reference(x)),
    "SparseEMPT.get_proof_of_inclusion": (B, lambda s, x: s.s.get_proof_of_inclusion(x)),
    "SparseEMPT.get_proof_of_exclusion": (B, lambda s, x: s.s.get_proof_of_exclusion(x)),
    "SparseEMPT.verify_proof_of_inclusion": (PROOF, lambda s, x: s.s.verify_proof_of_inclusion(x)),
    "SparseEMPT.verify_proof_of_exclusion": (PROOF, lambda s, x: s.s.verify_proof_of_exclusion(x)),
    "RootEMPT.verify_proof_of_inclusion": (PROOF, lambda s, x: s.e.get_root_trie().verify_proof_of_inclusion(x)),
    "RootEMPT.verify_proof_of_exclusion": (PROOF, lambda s, x: s.e.get_root_trie().verify_proof_of_exclusion(x)),
    # Merkle tree
    "MerkleTree secure": (BOOL, lambda s, x: MerkleTree(secure=x)),
    "MerkleTree.put": (B, lambda s, x: s.m.put(x)),
    "MerkleTree.put_list": (list_of_bytes, lambda s, x: s.m.put_list(x)),
    "MerkleTree.get": (by_type(int), lambda s, x: s.m.get(x)),
    "MerkleTree.get_proof_of_inclusion": (B, lambda s, x: s.m.get_proof_of_inclusion(x)),
    "MerkleTree.verify_proof_of_inclusion": (PROOF, lambda s, x: s.m.verify_proof_of_inclusion(x)),
    # proofs
    "Proof target": (B, lambda s, x: Proof(x, b"r", (b"p",), b"MT-POI")),
    "Proof root": (B, lambda s, x: Proof(b"t", x, (b"p",), b"MT-POI")),
    "Proof proof": (by_type(tuple), lambda s, x: Proof(b"t", b"r", x, b"MT-POI")),
    "Proof type": (lambda x: False, lambda s, x: Proof(b"t", b"r", (b"p",), x)),
    "Proof.decode_json": (S, lambda s, x: Proof.decode_json(x)),
    "Proof.decode_rlp": (B, lambda s, x: Proof.decode_rlp(x)),
    # data references
    "DataReference key": (B, lambda s, x: DataReference(x, b"d")),
    "DataReference data": (B, lambda s, x: DataReference(b"k", x)),
    "DataReference.decode": (B, lambda s, x: DataReference.decode(x)),
    # nodes
    "Node.decode": (BA, lambda s, x: Node.decode(x)),
    "Node.decode include_data": (BOOL, lambda s, x: Node.decode(refs.rlp([b"\x20", b"v"]), x)),
    "Node.into_reference": (by_type(Node), lambda s, x: Node.into_reference(x)),
    "Leaf path": (PATH, lambda s, x: Leaf(x, b"v")),
    "Leaf data": (BA, lambda s, x: Leaf(NibblePath(b"a"), x)),
    "Leaf.encode": (BOOL, lambda s, x: Leaf(NibblePath(b"a"), b"v").encode(x)),
    "Extension path": (PATH, lambda s, x: Extension(x, b"v" * 32)),
    "Extension reference": (BA, lambda s, x: Extension(NibblePath(b"a"), x)),
    "Extension.encode": (BOOL, lambda s, x: Extension(NibblePath(b"a"), b"v" * 32).encode(x)),
    "Branch branches": (branches, lambda s, x: Branch(x, b"v")),
    "Branch data": (lambda x: x is None or BA(x), lambda s, x: Branch([b""] * 16, x)),
    "Branch.encode": (BOOL, lambda s, x: Branch([b""] * 16, b"v").encode(x)),
    # key pairs
    "key pair nickname": (lambda x: x is None or S(x), lambda s, x: keys.CLASSES["all"](x, _generate_keys=False)),
    "key pair length": (by_type(int), lambda s, x: s.k.generate_keypair(x)),
    "sign": (B, lambda s, x: s.k.sign(x)),
    "signature_valid data": (B, lambda s, x: s.k.signature_valid(x, s.sig)),
    "signature_valid signature": (B, lambda s, x: s.k.signature_valid(b"m", x)),
    "signature_valid key": (lambda x: x is None or B(x), lambda s, x: s.k.signature_valid(b"m", s.sig, x)),
    "encrypt data": (B, lambda s, x: s.k.encrypt(x, s.k.public_key)),
    "encrypt key": (B, lambda s, x: s.k.encrypt(b"m", x)),
    "decrypt data": (B, lambda s, x: s.k.decrypt(x, s.other.public_key)),
    "decrypt key": (B, lambda s, x: s.k.decrypt(s.env, x)),
    "to_key_string": (S, lambda s, x: s.k.to_key_string(x)),
    "to_key_file passphrase": (S, lambda s, x: s.k.to_key_file(s.file, x)),
    "to_key_file passphrase, file there": (S, lambda s, x: s.k.to_key_file(s.there, x)),
    "to_key_file file": (S, lambda s, x: s.k.to_key_file(x, "p")),
    "from_key_string text": (S, lambda s, x: keys.CLASSES["all"].from_key_string(x, "p")),
    "from_key_string passphrase": (S, lambda s, x: keys.CLASSES["all"].from_key_string("{}", x)),
    "from_key_file file": (S, lambda s, x: keys.CLASSES["all"].from_key_file(x, "p")),
    "from_key_file passphrase": (S, lambda s, x: keys.CLASSES["all"].from_key_file(s.there, x)),
    # helpers
    "hash_data": (B, lambda s, x: Utils.hash_data(x)),
    "hash_data type": (lambda x: False, lambda s, x: Utils.hash_data(b"d", True, x)),
    "sha256": (B, lambda s, x: Utils.sha256(x)),
    "sha512": (B, lambda s, x: Utils.sha512(x)),
    "sha256 object": (B, lambda s, x: Utils.sha256(x, False)),
    "sha512 object": (B, lambda s, x: Utils.sha512(x, False)),
    "keccak_hash": (BUFFER, lambda s, x: keccak_hash(x)),
    "keccak_hash_list": (BUFFER, lambda s, x: keccak_hash_list([b"a", x])),
    "encrypt helper data": (B, lambda s, x: Utils.encrypt(x, "p")),
    "encrypt helper password": (S, lambda s, x: Utils.encrypt(b"d", x)),
    "decrypt helper data": (B, lambda s, x: Utils.decrypt(x, "p")),
    "decrypt helper password": (S, lambda s, x: Utils.decrypt(b"d" * 40, x)),
    "rsa_key_valid key": (B, lambda s, x: Utils.rsa_key_valid(x)),
    "rsa_key_valid kind": (lambda x: False, lambda s, x: Utils.rsa_key_valid(b"k", x)),
    "rsa_key_valid errors": (BOOL, lambda s, x: Utils.rsa_key_valid(b"k", "public", x)),
    "file_exists": (S, lambda s, x: Utils.file_exists(x)),
    "dir_exists": (S, lambda s, x: Utils.dir_exists(x)),
}
NAMES = sorted(CALLS)
VALUES = sorted(WRONG)


def refused(state, name, which, ctx):
    fine, call = CALLS[name]
    x = WRONG[which]()
    if fine(x):
        return False
    what = "%s with %s" % (name, which)
    try:
        got = call(state, x)
    except DOCUMENTED:
        pass
    except Exception as e:
        raise Violation("%s raised %s (%s)" % (what, type(e).__name__, short(str(e))))
    else:
        raise Violation("%s returned %s" % (what, short(got)))
    ctx.count("refused calls")
    return True


def run(case, ctx, fn):
    scratch = tempfile.mkdtemp(prefix="pbt-c30-")
    try:
        state = State(case["c"], scratch)
        state.remember()
        fn(state)
    finally:
        shutil.rmtree(scratch)


def every(tier):
    for i, name in enumerate(NAMES):
        for secure in (False, True):
            yield {"call": name, "c": {"secure": secure, "keys": [b"key", b"keys", b"other", b""],
                                       "vals": [b"v", b"w" * 40, b"x", b"y"]}}
        yield {"call": name, "c": {"secure": False, "keys": [], "vals": []}}


def check_every(case, ctx):
    def go(state):
        for which in VALUES:
            if refused(state, case["call"], which, ctx):
                state.judge("%s with %s" % (case["call"], which))
                ctx.nt(bool(state.model))

    run(case, ctx, go)


@st.composite
def histories(draw):
    c = draw(gens.contents(1, 5))
    i = st.integers(0, 20)
    op = st.one_of(
        st.tuples(st.just("bad"), st.sampled_from(NAMES), st.sampled_from(VALUES)),
        st.tuples(st.just("bad"), st.sampled_from([n for n in NAMES if "EMPT" in n or "MerkleTree" in n]), st.sampled_from(VALUES)),
        st.tuples(st.just("put"), i, gens.values()), st.tuples(st.just("drop"), i, st.none()))
    return {"c": {"secure": c["secure"], "keys": c["keys"], "vals": c["vals"]},
            "ops": [list(o) for o in draw(st.lists(op, min_size=5, max_size=20))]}


def check_history(case, ctx):
    ks = case["c"]["keys"]

    def go(state):
        for n, (op, a, b) in enumerate(case["ops"]):
            if op == "bad":
                if refused(state, a, b, ctx):
                    ctx.nt(bool(state.model))
                    ctx.tag(a.split()[0])
            elif op == "put":
                state.put(ks[a % len(ks)], b)
            elif ks[a % len(ks)] in state.model:
                state.drop(ks[a % len(ks)])
            state.key = sorted(state.model)[0] if state.model else b"absent"
            state.judge("step %d (%s %s)" % (n, op, a if op == "bad" else ""))

    run(case, ctx, go)


def check_no_data(case, ctx):
    for secure in (False, True):
        refuses(EMPT, {}, None, secure=secure, types=DOCUMENTED, what="EMPT without a data storage")
        refuses(MerkleTree().get_proof_of_exclusion, types=DOCUMENTED, what="a Merkle proof of exclusion")
        refuses(MerkleTree().verify_proof_of_exclusion, types=DOCUMENTED, what="a Merkle proof of exclusion")
    ctx.nt()


CAMPAIGNS = [
    Enumeration("every position", every, check_every),
    Campaign("histories", lambda tier: histories(), check_history, 800, 40000),
    Enumeration("no data storage", lambda tier: [{}], check_no_data, shards=1),
]
