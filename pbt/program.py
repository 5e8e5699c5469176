"""Programs: lists of operations on objects of their own, run to a transcript.

A program uses the public interface only, shares no object with another one, and
everything in its transcript is determined by the program (time stamps, nonces
and identifiers are left out), so the transcript has to be the same however,
wherever and next to whatever the program runs.
"""
import hashlib
import json

from hypothesis import strategies as st

import gens
import objs
import refs
from pymt.empt import EMPT, DataReference, SparseEMPT
from pymt.merkletools import MerkleTools
from pymt.mpt import MPT
from pymt.mt import MerkleTree
from pymt.proof import Proof
from pymt.utils.hash import keccak_hash, keccak_hash_list
from pymt.utils.nibble_path import NibblePath
from pymt.utils.node import Node
from pymt.utils.utils import Utils


def _blob(x):
    """Anything an operation gives, as text."""
    if isinstance(x, (bytes, bytearray)):
        x = bytes(x)
        return x.hex() if len(x) <= 40 else "%d:%s" % (len(x), hashlib.sha256(x).hexdigest()[:32])
    if isinstance(x, (list, tuple)):
        return [_blob(i) for i in x]
    if x is None or isinstance(x, (bool, int, str)):
        return x
    if hasattr(x, "trie_root"):
        return ["proof", _blob(list(objs.proof_fields(x)))]
    if hasattr(x, "encode_rlp"):
        return ["object", _blob(x.encode_rlp())]
    if hasattr(x, "encode"):
        return ["coded", _blob(x.encode())]
    return type(x).__name__


class Machine:
    """The objects of one program."""

    def __init__(self, prog):
        secure = prog["secure"]
        self.keys, self.vals = prog["keys"], prog["vals"]
        self.nodes = {}
        self.mpt = MPT(self.nodes, secure=secure)
        self.empt = EMPT({}, {}, secure=secure)
        self.sparse = SparseEMPT(secure=secure)
        self.tree = MerkleTree(secure=secure, hash_type=prog["hash"])
        self.tools = MerkleTools(secure=secure, hash_type=prog["hash"])
        self.pair = prog.get("pair")
        self.proofs = []
        self.texts = []
        self.there = {"mpt": [], "empt": [], "sparse": []}
        self.roots = []
        self.put = []

    def proof(self, p):
        self.proofs.append(p)
        return p

    def note(self, kind, k, here):
        there = self.there[kind]
        if here and k not in there:
            there.append(k)
        if not here and k in there:
            there.remove(k)

    def do(self, op, i, j):
        k = self.keys[i % len(self.keys)]
        v = self.vals[j % len(self.vals)]
        near = gens.near(k)
        q = (near + [k, k, k])[j % (len(near) + 3)]
        m, e, s, t, w = self.mpt, self.empt, self.sparse, self.tree, self.tools
        kind = op.rstrip("-?+:")
        if op != kind and self.there.get(kind) and j % 4:  # mostly keys that are there
            k = q = self.there[kind][i % len(self.there[kind])]
        if op == "mpt":  # one step of a plain trie
            m.update(k, v)
            self.note("mpt", k, True)
            self.roots.append(m.root())
            return [m.root_hash(), m.get(k), m.contains(q), len(m)]
        if op == "mpt-":
            m.delete(k)
            self.note("mpt", k, False)
            return [m.root_hash(), m.contains(k)]
        if op == "mpt?":
            return [m.root(), m.contains(q), m.get(q)]
        if op == "mpt+":
            p = self.proof(m.get_proof_of_inclusion(k))
            return [p, m.verify_proof_of_inclusion(p)]
        if op == "mpt!":
            p = self.proof(m.get_proof_of_exclusion(q))
            return [p, m.verify_proof_of_exclusion(p)]
        if op == "mpt=":
            c = MPT.decode(m.encode())
            return [c.root_hash(), c == m, hash(c) == hash(m), hash(m)]
        if op == "mpt@":
            return [m.encode(), self.sparse.encode_rlp(), e.get_sparse_trie().encode_rlp()]
        if op == "verify":  # the proofs made so far, once more
            out = []
            for p in self.proofs[-3:]:
                name = bytes(p.type)
                if name == b"MT-POI":
                    out.append(t.verify_proof_of_inclusion(p))
                elif name.endswith(b"POI"):
                    out.append([m.verify_proof_of_inclusion(p), e.verify_proof_of_inclusion(p)])
                else:
                    out.append([m.verify_proof_of_exclusion(p), e.verify_proof_of_exclusion(p)])
            return out
        if op == "old":
            o = MPT(self.nodes, root=self.roots[j % len(self.roots)], secure=m.secure) if self.roots else m
            return [o.root_hash(), [o.contains(x) for x in self.keys]]
        if op == "empt":
            e[k] = [v, bytearray(v), objs.Obj(v)][j % 3]
            self.note("empt", k, True)
            return [e.root_hash(), e[k], len(e), q in e]
        if op == "empt-":
            r = e.pop(k)
            self.note("empt", k, False)
            return [r, e.root_hash(), len(e)]
        if op == "empt?":
            return [list(e), e.get_reference(k).encode(), e.get(k)]
        if op == "empt:":
            e.build_trie()
            r = e.get_sparse_trie()
            return [e.root_hash(), r.root_hash(), r.contains(q), e.get_root_trie().encode_rlp(), r.encode_rlp()]
        if op == "empt+":
            p = self.proof(e.get_proof_of_inclusion(k))
            return [p, e.verify_proof_of_inclusion(p), e.get_root_trie().verify_proof_of_inclusion(p)]
        if op == "empt!":
            p = self.proof(e.get_proof_of_exclusion(q))
            return [p, e.verify_proof_of_exclusion(p)]
        if op == "sparse":
            s[k] = v
            self.note("sparse", k, True)
            return [s.root_hash(), q in s, s.get_reference(k).data]
        if op == "sparse-":
            del s[k]
            self.note("sparse", k, False)
            return [s.root_hash(), k in s]
        if op == "tree":
            self.put.append(v)
            t.put(v)
            t.put_list([k, v])
            t.make_tree()
            return [t.get_merkle_root(), t.get_count(), t.get(0)]
        if op == "tree+":
            if v not in self.put:
                t.put(v)
                t.make_tree()
                self.put.append(v)
            p = self.proof(t.get_proof_of_inclusion(v))
            return [p, t.verify_proof_of_inclusion(p)]
        if op == "tree0":
            t.reset_tree()
            self.put = []
            return [t.get_count(), len(t)]
        if op == "tools":
            w.add_leaf(v)
            w.make_tree()
            r = w.get_merkle_root()
            p = w.get_proof_of_inclusion(v)
            return [r, json.dumps(p), w.verify_proof_of_inclusion(p, w.get_leaf(w.get_leaf_count() - 1), r)]
        if op == "hash":
            return [keccak_hash(v), keccak_hash(k, hexdigest=True), keccak_hash_list([k, v, b""]),
                    Utils.hash_data(v), Utils.sha256(k), Utils.sha512(v)]
        if op == "crypt":
            c = Utils.encrypt(v, "pass" + k.hex())
            self.texts.append((c, "pass" + k.hex()))
            return [len(c), Utils.decrypt(c, "pass" + k.hex())]
        if op == "crypt-":
            return [Utils.decrypt(*x) for x in self.texts[-2:]]
        if op == "path":
            a, b = NibblePath(k, min(j % 2, len(k))), NibblePath(v, min(i % 2, len(v)))
            c = a.common_prefix(b)
            d = a.combine(b)
            return [a.encode(True), b.encode(False), len(c), c.encode(), len(d), [d.at(x) for x in range(len(d))],
                    a.starts_with(c), repr(a), str(b)]
        if op == "node":
            nodes = refs.trie_nodes({x: v for x in self.keys[: j % 5 + 1]}) if self.keys else []
            return [[Node.decode(n).encode() for n in nodes], [Node.into_reference(Node.decode(n)) for n in nodes]]
        if op == "ref":
            r = DataReference(k, v)
            return [r.encode(), r.hash, DataReference.decode(r.encode()) == r, hash(r)]
        if op == "coded":
            mine = [p for p in self.proofs if p.type == b"MT-POI"]
            if not mine:
                t.put(v)
                t.make_tree()
                mine = [self.proof(t.get_proof_of_inclusion(v))]
            p = mine[j % len(mine)]
            a, b = Proof.decode_json(p.encode_json()), Proof.decode_rlp(p.encode_rlp())
            return [a, b, a == p, b == p, hash(a) == hash(p), [str(n) for n, _ in p], len(repr(p)) > 0]
        if op == "stamp":
            x = Utils.get_timestamp_string()
            return [len(Utils.get_id()), Utils.from_timstamp_string(x) is not None]
        if op == "pair":
            x = self.pair
            sig = x.sign(v)
            return [sig, x.signature_valid(v, sig), x.signature_valid(v + b"1", sig), x.public_key, hash(x)]
        if op == "pair*":
            x = self.pair
            return [x.decrypt(x.encrypt(v, x.public_key), x.public_key), Utils.rsa_key_valid(x.public_key)]
        raise KeyError(op)


OPS = ["mpt"] * 6 + ["mpt-"] * 3 + ["mpt?", "mpt?", "mpt+", "mpt!", "mpt=", "mpt@", "old"] + ["empt"] * 4 + [
    "empt-", "empt-", "empt?", "empt:", "empt+", "empt!", "sparse", "sparse", "sparse-", "tree", "tree", "tree",
    "tree+", "tree0", "tools", "hash", "crypt", "path", "path", "node", "ref", "coded", "coded", "stamp"]
SETS = [OPS, [o for o in OPS if o.startswith("mpt")], [o for o in OPS if o.startswith(("empt", "sparse"))],
        ["tree", "tree", "tree", "tree+", "tree+", "tree0", "tools", "coded"],
        ["path", "node", "ref", "hash", "mpt", "mpt-", "crypt", "coded", "mpt+"]]


def steps(m, ops):
    out = []
    for op, i, j in ops:
        try:
            out.append([op, _blob(m.do(op, i, j))])
        except Exception as e:
            out.append([op, "raised " + type(e).__name__])
    return out


def run(prog, pair=None):
    """The transcript: one entry for each operation."""
    p = dict(prog, pair=pair)
    return steps(Machine(p), prog["ops"])


@st.composite
def programs(draw, most=10, pair=False):
    keys = draw(gens.key_pool(1, 5))
    vals = [draw(gens.values()) for _ in range(draw(st.integers(1, 3)))]
    names = draw(st.sampled_from(SETS))
    if pair and draw(st.sampled_from([0, 0, 0, 1])):
        names = names + ["pair"] * 3
    ops = []
    for kind in ("mpt", "empt", "sparse"):
        if kind in names and draw(st.sampled_from([1, 1, 0])):
            ops += [[kind, i, i] for i in range(len(keys))]
    ops += draw(st.lists(st.tuples(st.sampled_from(names), st.integers(0, 9), st.integers(0, 14)).map(list),
                         min_size=2, max_size=most))
    return {"secure": draw(st.sampled_from([False, False, True])), "keys": keys, "vals": vals,
            "hash": draw(st.sampled_from(["sha256", "sha256", "sha512", "md5", "sha3_256"])), "ops": ops}
