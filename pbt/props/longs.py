"""Values of every length next to a power of two up to two megabytes, and next
to the numbers written in the code, in tries, extended tries and Merkle trees;
next to each of them a twin that differs in one byte."""
import gens
import objs
import refs
from lib import ensure, must, refuses, same
from pymt.empt import EMPT, DataReference, RootEMPT, SparseEMPT
from pymt.mpt import MPT
from pymt.mt import MerkleTree
from pymt.proof import Proof
from pymt.utils import InvalidReferenceError

RULE = (
    " An enumeration takes values of every length next to a power of two from 4 KiB to 2 MiB and next to the "
    "numbers in the code, with twins that differ in one byte."
)


def cases(tier):
    for i, n in enumerate(gens.LONG_SIZES):
        yield {"n": n, "secure": bool(i % 2)}


def places(n):
    return sorted({0, n // 4, n // 2, max(0, n - 4097), n - 33, n - 1})


def twins(v):
    for i in places(len(v)):
        yield i, v[:i] + bytes([v[i] ^ 1]) + v[i + 1:]
    yield -1, v[:-1]


def contents(n):
    v = gens.long_data(n)
    return {b"a": v, b"ab": b"short", b"b": gens.long_data(n, b"other"), b"c" * 40: gens.long_data(n + 7, b"c")}


def built(case, ctx):
    model = contents(case["n"])
    store = {}
    t = MPT(store, secure=case["secure"])
    for k, v in model.items():
        must(t.update, k, v, what="update with %d bytes" % len(v))
    ctx.nt()
    return t, model, store


def check_map(case, ctx):
    t, model, store = built(case, ctx)
    n = case["n"]
    for x in (t, must(MPT, store, root=t.root(), secure=case["secure"])):
        for k in model:
            ensure(must(x.get, k, what="get") == model[k], "get(%r) gives another value of %d bytes", k[:9], n)
    for i, v in twins(model[b"a"]):
        must(t.update, b"a", v, what="update")
        ensure(must(t.get, b"a") == v, "a value of %d bytes with byte %d changed comes back another", n, i)
        ensure(must(t.get, b"b") == model[b"b"], "the value beside it changed")
    must(t.delete, b"a", what="delete")
    same(must(t.contains, b"a"), False, "contains of the deleted key")
    ensure(must(t.get, b"ab") == b"short" and must(t.get, b"b") == model[b"b"], "another value changed")


def check_root(case, ctx):
    t, model, store = built(case, ctx)
    secure = case["secure"]
    same(must(t.root_hash), refs.trie_root(gens.inner(model, secure)), "root hash with values of %d bytes" % case["n"])
    for i, v in twins(model[b"b"]):
        must(t.update, b"b", v, what="update")
        same(must(t.root_hash), refs.trie_root(gens.inner({**model, b"b": v}, secure)),
             "root hash with byte %d of %d changed" % (i, case["n"]))
    must(t.update, b"b", model[b"b"])
    must(t.delete, b"a")
    del model[b"a"]
    same(must(t.root_hash), refs.trie_root(gens.inner(model, secure)), "root hash after a deletion")
    for h, e in store.items():
        ensure(refs.keccak(e) == h, "an entry of %d bytes is stored under another address", len(e))


def check_proofs(case, ctx):
    t, model, store = built(case, ctx)
    verifier = must(RootEMPT, t.root())
    for k in list(model) + [b"x", b"abc"]:
        name = "inclusion" if k in model else "exclusion"
        p = must(getattr(t, "get_proof_of_" + name), k, what="%s proof of %r" % (name, k))
        for v in (t, verifier):
            ensure(must(getattr(v, "verify_proof_of_" + name), p) is True,
                   "the %s proof of %r over %d bytes does not verify", name, k[:9], case["n"])


def check_forged(case, ctx):
    """A byte changed in any node of a proof of long nodes: refused."""
    t, model, store = built(case, ctx)
    verifier = must(RootEMPT, t.root())
    for k in (b"a", b"c" * 40):
        p = must(t.get_proof_of_inclusion, k)
        for j, node in enumerate(p.proof):
            if not isinstance(node, bytes) or len(node) < 33:
                continue
            for i in places(len(node)):
                bad = node[:i] + bytes([node[i] ^ 1]) + node[i + 1:]
                q = Proof(p.target_key, p.trie_root, tuple(p.proof[:j]) + (bad,) + tuple(p.proof[j + 1:]), p.type)
                try:
                    got = verifier.verify_proof_of_inclusion(q)
                except Exception:
                    got = False
                ensure(got is False, "a proof verifies with byte %d of the %d bytes of node %d changed", i, len(node), j)


def specs(model):
    return {k: objs.value(["baos"[i % 4], v]) for i, (k, v) in enumerate(model.items())}


def extended(case, ctx, cls=EMPT):
    model = specs(contents(case["n"]))
    data = {}
    e = EMPT({}, data, secure=case["secure"])
    for k, v in model.items():
        must(e.update, k, v, what="update with %d bytes" % case["n"])
    ctx.nt()
    return e, model, data


def check_mapping(case, ctx):
    e, model, data = extended(case, ctx)
    want = objs.ref_root(model, case["secure"])
    same(must(e.root_hash), want, "root hash with values of %d bytes" % case["n"])
    for k, v in model.items():
        ensure(must(lambda: e[k]) == v, "the value of %r of %d bytes comes back another", k[:9], case["n"])
        r = must(e.get_reference, k)
        d = objs.encoding(v)
        ensure((r.key, r.data, r.hash) == (k, d, refs.data_hash(k, d)), "reference of %r over %d bytes", k[:9], case["n"])
    ensure(dict(e.items()) == model, "items of long values")
    must(e.build_trie, what="build_trie")
    same(must(e.root_hash), want, "root hash of the rebuilt trie over %d bytes" % case["n"])
    del e[b"a"]
    del model[b"a"]
    same(must(e.root_hash), objs.ref_root(model, case["secure"]), "root hash after a deletion")


def check_tamper(case, ctx):
    e, model, data = extended(case, ctx)
    for k in (b"a", b"b"):
        good = objs.encoding(model[k])
        for i, bad in twins(good):
            data[k] = bad
            refuses(e.get, k, types=InvalidReferenceError, what="reading %d bytes with byte %d altered" % (len(good), i))
        data[k] = model[k]
        ensure(must(e.get, k) == model[k], "a restored value is another")


def check_views(case, ctx):
    e, model, data = extended(case, ctx)
    sparse = SparseEMPT(secure=case["secure"])
    for k, v in model.items():
        must(sparse.update, k, v, what="update of the sparse trie")
    want = objs.ref_root(model, case["secure"])
    for x in (sparse, e.get_sparse_trie(), e.get_root_trie()):
        same(must(x.root_hash), want, "root hash of a view over %d bytes" % case["n"])
    for k, v in model.items():
        for x in (sparse, e.get_sparse_trie()):
            ensure(must(x.get_reference, k).data == objs.encoding(v), "reference in a view over %d bytes", case["n"])


def check_rebuild(case, ctx):
    e, model, data = extended(case, ctx)
    for i, v in twins(objs.encoding(model[b"a"])):
        model[b"a"] = data[b"a"] = v
        must(e.build_trie, what="build_trie")
        same(must(e.root_hash), objs.ref_root(model, case["secure"]),
             "root hash rebuilt with byte %d of %d changed" % (i, case["n"]))
        ensure(must(e.get, b"a") == v, "the changed value of %d bytes", case["n"])
    f = EMPT({}, dict(data), secure=case["secure"])
    must(f.build_trie, what="build_trie")
    same(must(f.root_hash), e.root_hash(), "root hash of a new trie over the data")


def check_reference(case, ctx):
    n = case["n"]
    ctx.nt()
    for k, d in ((b"key", gens.long_data(n)), (gens.long_data(n), b"data"), (gens.long_data(n // 2), gens.long_data(n))):
        r = must(DataReference, k, d)
        ensure(r.hash == refs.data_hash(k, d), "the hash of a reference over %d bytes", n)
        e = bytes(must(r.encode))
        ensure(e == refs.data_reference(k, d), "the encoding of a reference over %d bytes", n)
        q = must(DataReference.decode, e)
        ensure((q.key, q.data, q.hash) == (k, d, r.hash) and q == r, "the decoded reference over %d bytes", n)
        for i in sorted({12, len(e) // 4, len(e) // 2, len(e) - 5000, len(e) - 40}):
            bad = e[:i] + bytes([e[i] ^ 1]) + e[i + 1:]
            refuses(DataReference.decode, bad, what="decoding %d bytes with byte %d changed" % (len(e), i))
        for x in (d[:-1] + bytes([d[-1] ^ 1]), d[:1] + bytes([d[1] ^ 1]) + d[2:], d + b"\x00"):
            ensure((must(DataReference, k, x) == r) is False, "references over two data of %d bytes are equal", n)


def check_merkle(case, ctx):
    n = case["n"]
    ctx.nt()
    name = ("sha256", "sha3_256", "sha512")[n % 3]
    ls = [gens.long_data(n), b"short", gens.long_data(n, b"other")]
    for secure in (False, True):
        t = MerkleTree(secure=secure, hash_type=name)
        must(t.put_list, ls, what="put_list")

        def root(x):
            out = refs.merkle_root(name, [refs.merkle_leaf(name, secure, v) for v in x])
            return out.hex().encode()

        got = must(t.get_merkle_root)
        if len(root(ls)) < 1000:
            same(got if isinstance(got, bytes) else got.encode(), root(ls), "root over leaves of %d bytes" % n)
        for v in ls:
            p = must(t.get_proof_of_inclusion, v, what="proof of a leaf of %d bytes" % n)
            q = must(Proof.decode_rlp, must(p.encode_rlp))
            ensure(q == p and must(t.verify_proof_of_inclusion, q) is True, "the proof does not survive serialisation")
            ensure(must(t.verify_proof_of_inclusion, p) is True, "the proof of a leaf of %d bytes does not verify", n)
        for i, v in twins(ls[0]):
            u = MerkleTree(secure=secure, hash_type=name)
            must(u.put_list, [v] + ls[1:], what="put_list")
            other = must(u.get_merkle_root)
            ensure(other != got, "leaves of %d bytes that differ at %d have one root", n, i)
            same(other if isinstance(other, bytes) else other.encode(), root([v] + ls[1:]), "root with byte %d changed" % i)
            ensure(must(u.verify_proof_of_inclusion, p) is False, "a proof of another tree verifies")
