"""C05: every stored key has a verifiable inclusion proof."""
from hypothesis import strategies as st

import gens
import objs
from engine import Campaign, Enumeration
from lib import ensure, must, refuses, same
from props import again, endurance, large, longs
from pymt.empt import EMPT, RootEMPT, SparseEMPT
from pymt.mpt import MPT
from pymt.proof import Proof

RULE = (
    "For generated contents (prefix families, few-nibble keys, nested prefixes, equal values, keys "
    "inserted and deleted again, plain and secure) an inclusion proof of every stored key is made and "
    "verified by the trie, a sparse copy, a serialised and reloaded copy and verifiers that know only "
    "the root; proofs of absent and near-miss keys have to be refused. Non-trivial: at least two "
    "stored keys. The enumeration takes every set of up to three (thorough: four) keys of a universe of nine."
) + large.RULE + endurance.RULE + again.RULE + longs.RULE
ASSUMPTIONS = ["A verifier that knows only the root is given what root() returns."]


def check_proofs(case, ctx, inclusion=True, probe_limit=40, universe=None):
    storage = {}
    t, model = gens.build(MPT, case, storage)
    secure = case["secure"]
    ctx.tag("secure" if secure else "plain")
    asked = universe or gens.probes(model, case["keys"], probe_limit)
    if not model:
        for k in asked[:3]:
            refuses(t.get_proof_of_inclusion, k, what="inclusion proof in an empty trie")
            refuses(t.get_proof_of_exclusion, k, what="exclusion proof in an empty trie")
        ctx.tag("empty")
        return
    root = t.root()
    if len(root) < 32:
        ctx.tag("inline root")
    copy = must(lambda: MPT.decode(t.encode()), what="reloading")
    sparse = SparseEMPT(dict(storage), root=root, secure=secure)
    resparse = must(lambda: SparseEMPT.decode_rlp(sparse.encode_rlp()), what="reloading")
    only = RootEMPT(root, secure=secure)
    reonly = must(lambda: RootEMPT.decode_rlp(only.encode_rlp()), what="reloading")
    bare = MPT({}, root=root, secure=secure)
    who = [("the trie", t), ("the reloaded trie", copy), ("a sparse trie", sparse),
           ("a reloaded sparse trie", resparse), ("a root-only trie", only),
           ("a reloaded root-only trie", reonly), ("a trie that knows only the root", bare)]
    makers = [("the trie", t), ("the reloaded trie", copy), ("a sparse trie", sparse),
              ("a reloaded sparse trie", resparse)]
    name = "inclusion" if inclusion else "exclusion"
    n = 0
    for k in asked:
        if (k in model) is not inclusion:
            for label, m in makers[:2]:
                refuses(getattr(m, "get_proof_of_" + name), k,
                        what="%s proof of the %s key %r from %s" % (
                            name, "stored" if k in model else "absent", k, label))
                ctx.count("refusals")
            continue
        n += 1
        first = None
        for i, (label, m) in enumerate(makers):
            if i and n % 3 != i % 3:
                continue
            p = must(getattr(m, "get_proof_of_" + name), k, what="%s proof of %r from %s" % (name, k, label))
            ensure(isinstance(p, Proof), "%s proof of %r is %r", name, k, p)
            same(p.type, b"MPT-POI" if inclusion else b"MPT-POE", "type of the proof of %r" % k)
            if first is None:
                first = p
            for vlabel, v in who if i == 0 else who[:1] + who[-1:]:
                ctx.count("verifications")
                got = must(getattr(v, "verify_proof_of_" + name), p,
                           what="verifying the %s proof of %r against %s" % (name, k, vlabel))
                ensure(got is True, "the %s proof of %r made by %s does not verify against %s: %r",
                       name, k, label, vlabel, got)
    same(t.root(), root, "root after making proofs")
    if inclusion:
        ctx.nt(n > 1)
    else:
        ctx.nt(n > 0 and len(model) > 1)
        near = [k for k in asked if k not in model and any(
            s.startswith(k) or k.startswith(s) for s in model)]
        if near:
            ctx.tag("prefix or extension of a stored key")


def check_contents(case, ctx):
    check_proofs(case, ctx, True)


def check_small(case, ctx):
    check_proofs(case, ctx, True, universe=gens.UNIVERSE)


# -------------------------------------------------------------- extended tries
@st.composite
def extended(draw):
    c = draw(gens.history(max_keys=7, max_ops=14))
    for op in c["ops"]:
        if op[0] == "u":
            op[2] = [draw(st.sampled_from("baos")), op[2]]
    return c


def check_extended(case, ctx, inclusion=True):
    secure = case["secure"]
    e = EMPT(secure=secure)
    model = {}
    for op in case["ops"]:
        k = case["keys"][op[1]]
        if op[0] == "u":
            e[k] = objs.value(op[2])
            model[k] = op[2]
        elif k in model:
            del e[k]
            del model[k]
    asked = gens.probes(model, case["keys"], 24)
    name = "inclusion" if inclusion else "exclusion"
    if not model:
        refuses(getattr(e, "get_proof_of_" + name), b"k", what="proof in an empty trie")
        return
    sparse = e.get_sparse_trie()
    resparse = must(lambda: SparseEMPT.decode_rlp(sparse.encode_rlp()), what="reloading")
    who = [("the trie", e), ("its sparse trie", sparse), ("the reloaded sparse trie", resparse),
           ("its root trie", e.get_root_trie()), ("the root trie of the sparse one", sparse.get_root_trie())]
    n = 0
    for k in asked:
        if (k in model) is not inclusion:
            for label, m in who[:3]:
                refuses(getattr(m, "get_proof_of_" + name), k, what="%s proof of %r from %s" % (name, k, label))
            continue
        n += 1
        for label, m in who[:3]:
            p = must(getattr(m, "get_proof_of_" + name), k, what="%s proof of %r from %s" % (name, k, label))
            for vlabel, v in who:
                ctx.count("verifications")
                got = must(getattr(v, "verify_proof_of_" + name), p, what="verifying against " + vlabel)
                ensure(got is True, "the %s proof of %r made by %s does not verify against %s",
                       name, k, label, vlabel)
    ctx.nt(n > 0 and len(model) > 1)


CAMPAIGNS = [
    Enumeration("long values", longs.cases, longs.check_proofs),
    Enumeration("small-sets", lambda tier: gens.small_contents(most=3 if tier == "quick" else 4), check_small),
    Campaign("contents", lambda tier: gens.contents(1, 12), check_contents, 1000, 60000),
    Campaign("extended", lambda tier: extended(), check_extended, 250, 16000),
    Campaign("scale", lambda tier: gens.scale(200), lambda case, ctx: large.check_proofs(case, ctx, True), 32, 900),
    Enumeration("endurance", endurance.tries, endurance.check_proofs),
    Campaign("again", lambda tier: again.programs(("mpt", "mpt", "sparse", "empt")),
             lambda case, ctx: again.check_proofs(case, ctx, True), 1200, 18000),
]
