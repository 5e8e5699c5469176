"""C10: serialising and reloading a trie preserves it."""
from hypothesis import strategies as st

import gens
import objs
import refs
from engine import Campaign, Enumeration
from lib import attempt, ensure, must, refuses, same
from props import again, endurance, large
from pymt.empt import EMPT, RootEMPT, SparseEMPT
from pymt.mpt import MPT

RULE = (
    "A generated history is cut at a generated point, where the trie is encoded and decoded (plain form; "
    "sparse and root-only form of extended tries, from the trie itself and from reloaded copies); root, "
    "mode, contents, membership of pool and near-miss keys and proofs are compared, then the rest of the "
    "history is applied to both (roots compared after every step) or to one of them (the other must "
    "not change). Non-trivial: at least two keys at the cut and at least one operation after it. Cuts "
    "at empty, emptied and single short entries are counted as classes."
) + large.RULE + endurance.RULE + again.RULE
ASSUMPTIONS = ["Keys and values are bytes, values are not empty."]


def view(t, keys):
    out = []
    for k in keys:
        ok, v = attempt(t.get, k)
        out.append((k, must(t.contains, k, what="contains(%r)" % k), v if ok else None))
    return out


def compare_proofs(a, b, model, keys, what):
    if not model:
        refuses(b.get_proof_of_inclusion, keys[0], what="inclusion proof in the empty " + what)
        return
    for k in keys:
        name = "inclusion" if k in model else "exclusion"
        p = must(getattr(a, "get_proof_of_" + name), k, what="%s proof of %r" % (name, k))
        q = must(getattr(b, "get_proof_of_" + name), k, what="%s proof of %r from the %s" % (name, k, what))
        same(objs.proof_fields(q), objs.proof_fields(p), "%s proof of %r from the %s" % (name, k, what))
        ensure(must(getattr(b, "verify_proof_of_" + name), p) is True,
               "the %s proof of %r does not verify against the %s", name, k, what)


def classify(t, model, past, ctx):
    if not model:
        ctx.tag("emptied" if past else "empty")
    elif len(t.root()) < 32:
        ctx.tag("inline root")
    else:
        ctx.tag("hashed root")


def check_plain(case, ctx):
    secure, keys, ops = case["secure"], case["keys"], case["ops"]
    cut = case["cut"] % (len(ops) + 1)
    t = MPT({}, secure=secure)
    model = {}

    def step(tries, op, model):
        k = keys[op[1]]
        if op[0] == "u":
            for x in tries:
                must(x.update, k, op[2], what="update(%r)" % k)
            model[k] = op[2]
        elif k in model:
            for x in tries:
                must(x.delete, k, what="delete(%r)" % k)
            del model[k]
        else:
            for x in tries:
                refuses(x.delete, k, what="delete of the absent key %r" % k)

    for op in ops[:cut]:
        step([t], op, model)
    classify(t, model, cut, ctx)
    ctx.tag("secure" if secure else "plain")
    ctx.nt(len(model) > 1 and cut < len(ops))
    code = must(t.encode, what="encode")
    ensure(isinstance(code, bytes), "encode gave %r", type(code))
    c = must(MPT.decode, code, what="decode")
    want = refs.trie_root(gens.inner(model, secure))
    same(t.root_hash(), want, "root hash after encoding")
    same(c.root_hash(), want, "root hash of the copy")
    same(c.root(), t.root(), "root of the copy")
    same(c.secure, secure, "mode of the copy")
    ensure(c == t and hash(c) == hash(t), "the copy is not equal to the trie")
    asked = gens.probes(model, keys, 24)
    same(view(c, asked), [(k, k in model, model.get(k)) for k in asked], "contents of the copy")
    compare_proofs(t, c, model, asked[:10], "copy")
    c2 = must(lambda: MPT.decode(c.encode()), what="encoding the copy")
    same(c2.root_hash(), want, "root hash of the copy's copy")
    same(view(c2, keys), view(t, keys), "contents of the copy's copy")
    # On with both, with the second copy left alone, then with one only.
    frozen = view(c2, asked)
    twin = must(MPT.decode, code, what="decoding again")
    whole = [(x, len(x), must(x.encode)) for x in (c2, twin)]
    rest = ops[cut:]
    split = case["split"] % (len(rest) + 1)
    for op in rest[:split]:
        step([t, c], op, model)
        same(c.root_hash(), t.root_hash(), "root hash of the copy after %s %r on both" % (op[0], keys[op[1]]))
        same(t.root_hash(), refs.trie_root(gens.inner(model, secure)), "root hash")
    mid = dict(model)
    mover, still = (t, c) if case["who"] else (c, t)
    at = still.root()
    whole.append((still, len(still), must(still.encode)))
    for op in rest[split:]:
        step([mover], op, model)
        same(still.root(), at, "root of the other after %s %r" % (op[0], keys[op[1]]))
    for x, n, e in whole:
        same((len(x), must(x.encode)), (n, e), "number of nodes and encoding of a copy that was left alone")
    late = must(MPT.decode, code, what="decoding again later")
    same((late.root_hash(), len(late), view(late, asked)), (want, whole[1][1], frozen), "a copy made later")
    same(view(still, keys), [(k, k in mid, mid.get(k)) for k in keys], "contents of the other")
    same(view(mover, keys), [(k, k in model, model.get(k)) for k in keys], "contents")
    same(c2.root_hash(), want, "root hash of the untouched copy")
    same(view(c2, asked), frozen, "contents of the untouched copy")


def check_extended(case, ctx):
    secure, keys, ops = case["secure"], case["keys"], case["ops"]
    cut = case["cut"] % (len(ops) + 1)
    full = EMPT(secure=secure) if case["who"] else None
    s = SparseEMPT(secure=secure)
    model = {}

    def step(tries, op, model):
        k = keys[op[1]]
        if op[0] == "u":
            for x in tries:
                must(x.update, k, objs.value(op[2]), what="update(%r)" % k)
            model[k] = objs.value(op[2])
        elif k in model:
            for x in tries:
                must(x.delete, k, what="delete(%r)" % k)
            del model[k]

    for op in ops[:cut]:
        step([s] + ([full] if full is not None else []), op, model)
    if full is not None:
        s = full.get_sparse_trie()
        ctx.tag("from a full trie")
    classify(s, model, cut, ctx)
    ctx.nt(len(model) > 1 and cut < len(ops))
    want = objs.ref_root(model, secure)
    copy = must(lambda: SparseEMPT.decode_rlp(s.encode_rlp()), what="reloading a sparse trie")
    root = must(s.get_root_trie, what="get_root_trie")
    recopy = must(lambda: RootEMPT.decode_rlp(root.encode_rlp()), what="reloading a root trie")
    for label, x in (("sparse", s), ("sparse copy", copy), ("root", root), ("root copy", recopy)):
        same(x.root_hash(), want, "root hash of the %s trie" % label)
    same(recopy.secure, secure, "mode of the root copy")
    same(copy.root(), s.root(), "root of the sparse copy")
    for k in gens.probes(model, keys, 16):
        same(must(copy.contains, k), k in model, "contains(%r) of the copy" % k)
        if k in model:
            r = must(copy.get_reference, k, what="get_reference(%r) of the copy" % k)
            same((r.key, r.data), (k, objs.encoding(model[k])), "reference of %r in the copy" % k)
        if model:
            name = "inclusion" if k in model else "exclusion"
            p = must(getattr(s, "get_proof_of_" + name), k)
            q = must(getattr(copy, "get_proof_of_" + name), k)
            same(objs.proof_fields(q), objs.proof_fields(p), "%s proof of %r from the copy" % (name, k))
            for x in (copy, recopy):
                ensure(must(getattr(x, "verify_proof_of_" + name), p) is True,
                       "the %s proof of %r does not verify against a copy", name, k)
    rest = ops[cut:]
    split = case["split"] % (len(rest) + 1)
    for op in rest[:split]:
        step([s, copy], op, model)
        same(copy.root_hash(), s.root_hash(), "root hash of the copy after an operation on both")
        same(s.root_hash(), objs.ref_root(model, secure), "root hash")
    at = copy.root_hash()
    for op in rest[split:]:
        step([s], op, model)
        same(copy.root_hash(), at, "root hash of the copy after an operation on the source")
    same(recopy.root_hash(), want, "root hash of the root copy at the end")


@st.composite
def plain(draw, **kw):
    c = draw(gens.history(**kw))
    c["cut"] = draw(st.sampled_from(list(range(2, 30)) + [0, 1, 99]))
    c["split"] = draw(st.integers(0, 20))
    c["who"] = draw(st.booleans())
    return c


@st.composite
def extended(draw):
    c = draw(plain(max_keys=6, max_ops=14))
    for op in c["ops"]:
        if op[0] == "u":
            op[2] = [draw(st.sampled_from("baos")), op[2]]
    return c


CAMPAIGNS = [
    Campaign("plain", lambda tier: plain(max_keys=8, max_ops=20), check_plain, 1600, 80000),
    Campaign("extended", lambda tier: extended(), check_extended, 700, 36000),
    Campaign("again", lambda tier: again.programs(("mpt", "mpt", "sparse")), again.check_codec, 1200, 24000),
    Campaign("scale", lambda tier: gens.scale(400), large.check_codec, 40, 1500),
    Enumeration("endurance", endurance.tries, endurance.check_reload),
]
