"""One object asked the same questions again and again while its contents
change and change back. The contents that follow each other are near twins (as
many entries, values of the same length, the same ends), so that an answer
remembered from before under too coarse a mark is a wrong answer now."""
from hypothesis import strategies as st

import gens
import objs
import refs
from lib import attempt, ensure, must, refuses, same
from props import merkle
from pymt import MerkleTools
from pymt.empt import EMPT, RootEMPT, SparseEMPT
from pymt.mpt import MPT
from pymt.mt import MerkleTree
from pymt.proof import Proof

RULE = (
    " A campaign of its own asks one object all its questions again after each of a few changes that lead to "
    "near twins of its former contents (as many entries, values of the same length with one byte changed, two "
    "values exchanged, entries removed and put back); every answer is compared with the reference of the moment."
)


# --------------------------------------------------------------------- tries
def twin(v, i):
    """As long as v, other in one place."""
    if not v:
        return b"\x01"
    b = bytearray(v)
    b[(len(b) // 2 + i // 8) % len(b)] ^= 1 << (i % 8)
    return bytes(b)


@st.composite
def programs(draw, kinds=("mpt",)):
    keys = draw(gens.key_pool(2, 4))
    ki = st.integers(0, len(keys) - 1)
    vs = gens.value_choice(draw)
    vals = [draw(st.one_of(vs, st.integers(1, 300).map(lambda n: b"\x61" * n))) for _ in keys]
    op = st.one_of(
        st.tuples(st.just("twin"), ki, st.integers(0, 40)), st.tuples(st.just("twin"), ki, st.integers(0, 40)),
        st.tuples(st.just("back"), ki, st.integers(0, 40)),
        st.tuples(st.just("swap"), ki, ki), st.tuples(st.just("gone"), ki, st.integers(0, 1)),
        st.tuples(st.just("same"), ki, ki), st.tuples(st.just("move"), ki, ki))
    return {"secure": draw(st.sampled_from([False, False, False, True])), "keys": keys, "vals": vals,
            "kind": draw(st.sampled_from(kinds)), "filler": draw(st.sampled_from([0, 0, 0, 2, 12])),
            "steps": [list(o) for o in draw(st.lists(op, min_size=2, max_size=7))]}


def make(c):
    s = c["secure"]
    return {"mpt": lambda: MPT({}, secure=s), "sparse": lambda: SparseEMPT({}, secure=s),
            "empt": lambda: EMPT({}, {}, secure=s)}[c["kind"]]()


def walk(c, t):
    """Yields after each step; the model is the contents of then."""
    keys, model = c["keys"], {}
    vals = [v if v else b"0" for v in c["vals"]]

    def put(k, v):
        must(t.update, k, v, what="update(%r)" % k)
        model[k] = v

    for i in range(c["filler"]):
        put(b"filler %d" % i, b"value %d" % i * 5)
    for k, v in zip(keys, vals):
        put(k, v)
    yield "at the start", model
    for n, (op, i, j) in enumerate(c["steps"]):
        k = keys[i]
        if op == "twin":
            put(k, twin(model.get(k, vals[i]), j))
        elif op == "back":
            put(k, vals[i])
        elif op == "swap" and k in model and keys[j] in model:
            a, b = model[k], model[keys[j]]
            put(k, b)
            put(keys[j], a)
        elif op == "gone" and k in model:
            must(t.delete, k, what="delete(%r)" % k)
            v = model.pop(k)
            if j:
                yield "with step %d under way" % n, model
                put(k, v)
        elif op == "move":  # one entry less and one more
            if k in model and keys[j] not in model:
                v = model.pop(k)
                must(t.delete, k, what="delete(%r)" % k)
                put(keys[j], v)
        elif op == "same" and k in model:
            put(k, model[k])
        yield "after step %d (%s)" % (n, op), model


def inside(c, model):
    m = model if c["kind"] == "mpt" else {k: refs.data_reference(k, v) for k, v in model.items()}
    return gens.inner(m, c["secure"])


def asked(c, model):
    return gens.probes(model, c["keys"], len(c["keys"]) + 5)


def begin(c, ctx):
    ctx.tag("again: " + c["kind"])
    ctx.nt(len(c["steps"]) > 2)
    return make(c)


def check_map(c, ctx):
    t = begin(c, ctx)
    for what, model in walk(c, t):
        for k in asked(c, model):
            same(must(t.contains, k), k in model, "contains(%r) %s" % (k, what))
            same(k in t, k in model, "membership of %r %s" % (k, what))
            if c["kind"] == "sparse":
                continue
            if k in model:
                same(must(t.get, k, what="get(%r) %s" % (k, what)), model[k], "get(%r) %s" % (k, what))
                same(must(t.__getitem__, k), model[k], "[%r] %s" % (k, what))
            else:
                refuses(t.get, k, what="get(%r) %s" % (k, what))


def check_root(c, ctx):
    t = begin(c, ctx)
    for what, model in walk(c, t):
        same(must(t.root_hash), refs.trie_root(inside(c, model)), "root hash " + what)


def check_mapping(c, ctx):
    t = begin(c, ctx)
    for what, model in walk(c, t):
        for k in asked(c, model):
            same(k in t, k in model, "membership of %r %s" % (k, what))
            same(must(t.contains, k), k in model, "contains(%r) %s" % (k, what))
            if k in model:
                same(must(t.__getitem__, k, what="[%r] %s" % (k, what)), model[k], "[%r] %s" % (k, what))
                same(must(t.get_reference, k).data, model[k], "reference of %r %s" % (k, what))
            else:
                refuses(t.__getitem__, k, what="[%r] %s" % (k, what))
        same(sorted(t.items()), sorted(model.items()), "items " + what)
        same(len(t), len(model), "len " + what)
        same(must(t.root_hash), refs.trie_root(inside(c, model)), "root hash " + what)
        ensure(t == dict(model), "equality %s", what)


def check_proofs(c, ctx, inclusion):
    t = begin(c, ctx)
    name = "inclusion" if inclusion else "exclusion"
    for what, model in walk(c, t):
        if not model:
            continue
        bare = MPT({}, root=t.root(), secure=c["secure"])
        same(bare.root_hash(), refs.trie_root(inside(c, model)), "root hash " + what)
        for k in asked(c, model):
            if (k in model) is not inclusion:
                refuses(getattr(t, "get_proof_of_" + name), k, what="%s proof of %r %s" % (name, k, what))
                continue
            p = must(getattr(t, "get_proof_of_" + name), k, what="%s proof of %r %s" % (name, k, what))
            for label, v in (("the trie", t), ("one that knows only the root", bare)):
                ensure(must(getattr(v, "verify_proof_of_" + name), p) is True,
                       "the %s proof of %r %s does not verify against %s", name, k, what, label)
            ctx.count("proofs")


def check_ways(c, ctx, one):
    t = begin(c, ctx)
    for what, model in walk(c, t):
        if not model:
            continue
        inn = inside(c, model)
        for k in asked(c, model):
            nodes = refs.trie_path(inn, refs.keccak(k) if c["secure"] else k)
            root = refs.trie_root(inn)
            every = {refs.keccak(e): e for e in refs.trie_nodes(inn)}
            ways, _, rest, _ = refs.trie_way(every.__getitem__, root, refs.keccak(k) if c["secure"] else k)
            same(tuple(ways), tuple(e for e, _ in nodes), "the two references")
            one(t, k, k in model, c["secure"], ways, rest, root, "the trie " + what)
            ctx.count("proofs")


def check_old_proofs(c, ctx, inclusion):
    """All proofs of all former contents, judged by the trie of now."""
    t = begin(c, ctx)
    name = "inclusion" if inclusion else "exclusion"
    old = []
    for what, model in walk(c, t):
        if not model:
            continue
        root = refs.trie_root(inside(c, model))
        for k in c["keys"]:
            if (k in model) is inclusion:
                old.append((k, root, must(getattr(t, "get_proof_of_" + name), k)))
        del old[:-24]
        for k, then, p in old:
            got = must(getattr(t, "verify_proof_of_" + name), p, what="verifying " + what)
            same(got, then == root, "verdict on the %s proof of %r for the root %s, %s" % (
                name, k, "of now" if then == root else "of before", what))
            ctx.count("verifications")


def check_codec(c, ctx):
    """The trie is encoded after every step, and all encodings are read again at the end."""
    t = begin(c, ctx)
    made = []
    full = c["kind"] == "mpt"

    def compare(form, model, what):
        r = must(MPT.decode if full else SparseEMPT.decode_rlp, form, what="reloading " + what)
        same(must(r.root_hash), refs.trie_root(inside(c, model)), "root hash of the copy " + what)
        for k in asked(c, model):
            same(must(r.contains, k), k in model, "contains(%r) of the copy %s" % (k, what))
            if k not in model:
                refuses(r.get if full else r.get_reference, k, what="get(%r) of the copy %s" % (k, what))
            elif full:
                same(must(r.get, k), model[k], "get(%r) of the copy %s" % (k, what))
            else:
                same(must(r.get_reference, k).data, model[k], "reference of %r in the copy %s" % (k, what))
        ctx.count("copies")
        return r

    for what, model in walk(c, t):
        form = must(t.encode if full else t.encode_rlp, what="encoding " + what)
        same(must(t.encode if full else t.encode_rlp), form, "encoding again " + what)
        compare(form, model, what)
        made.append((form, dict(model), what))
        root = RootEMPT.decode_rlp(must(t.get_root_trie).encode_rlp()) if not full else None
        if root is not None:
            same(must(root.root_hash), must(t.root_hash), "root hash of the root copy " + what)
    for form, model, what in made:
        compare(form, model, what + ", read at the end")


def check_views(c, ctx):
    """Two sparse views and a root view after each step; one of the sparse views goes its own way."""
    t = begin(c, ctx)
    views = []
    for n, (what, model) in enumerate(walk(c, t)):
        want = objs.ref_root(model, c["secure"])
        a, b, r = must(t.get_sparse_trie), must(t.get_sparse_trie), must(t.get_root_trie)
        for label, v in (("sparse view", a), ("second sparse view", b), ("root view", r)):
            same(must(v.root_hash), want, "root hash of the %s %s" % (label, what))
            if v is not a:
                views.append([label + " taken " + what, v, dict(model), must(v.encode_rlp)])
        mine = dict(model)
        k = c["keys"][n % len(c["keys"])]
        mine[k] = twin(mine.get(k, b"own"), n)
        must(a.update, k, mine[k], what="update of a sparse view")
        views.append(["sparse view taken %s and changed" % what, a, mine, None])
        del views[:-12]
        for label, v, m, form in views:
            if form is not None:
                same(must(v.encode_rlp), form, "serialised form of the %s, %s" % (label, what))
            same(must(v.root_hash), objs.ref_root(m, c["secure"]), "root hash of the %s, %s" % (label, what))
            for k in c["keys"]:
                if isinstance(v, SparseEMPT):
                    same(must(v.contains, k), k in m, "contains(%r) of the %s, %s" % (k, label, what))
                    if k in m:
                        same(must(v.get_reference, k).data, m[k], "reference of %r in the %s, %s" % (k, label, what))
            ctx.count("views")
        same(must(t.root_hash), want, "root hash of the source " + what)


# -------------------------------------------------------------- Merkle trees
@st.composite
def merkle_programs(draw):
    n = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 33, 65, 70, 131]))
    i = st.integers(0, n + 5)
    step = st.one_of(
        st.tuples(st.just("twin"), i, i), st.tuples(st.just("twin"), i, i), st.tuples(st.just("swap"), i, i),
        st.tuples(st.just("back"), i, i), st.tuples(st.just("more"), i, i), st.tuples(st.just("less"), i, i),
        st.tuples(st.just("same"), i, i))
    return {"hash": draw(st.one_of(st.just("sha256"), st.sampled_from(merkle.NAMES))), "secure": draw(st.booleans()),
            "n": n, "long": draw(st.sampled_from([0, 0, 0, 40, 5000 if n < 10 else 0])),
            "steps": [list(s) for s in draw(st.lists(step, min_size=2, max_size=6))]}


def leaf_lists(c):
    """The leaf list after each step, and how many leaves of the list before stay put."""
    first = [b"leaf %d " % i + b"z" * c["long"] for i in range(c["n"])]
    ls = list(first)
    yield "at the start", list(ls), 0
    for n, (op, i, j) in enumerate(c["steps"]):
        keep = 0
        if op == "twin":
            ls[i % len(ls)] = twin(ls[i % len(ls)], j)
        elif op == "swap":
            a, b = i % len(ls), j % len(ls)
            ls[a], ls[b] = ls[b], ls[a]
        elif op == "back":
            ls = list(first)
        elif op == "more":
            keep = len(ls)
            ls += [b"leaf %d of step %d" % (x, n) for x in range(1 + j % 3)]
        elif op == "less" and len(ls) > 1:
            ls = ls[:-1]
        yield "after step %d (%s)" % (n, op), list(ls), keep


def merkle_walk(c, t, put, build):
    for what, ls, keep in leaf_lists(c):
        if not keep:
            must(t.reset_tree)
        for v in ls[keep:]:
            must(put, v)
        build()
        yield what, ls


def places(c, ls):
    out = {0, len(ls) - 1, len(ls) // 2}
    for _, i, j in c["steps"]:
        out |= {i % len(ls), j % len(ls)}
    return sorted(out)[:9]


def merkle_begin(c, ctx):
    ctx.tag("again: merkle")
    ctx.nt(c["n"] > 2)
    t = MerkleTree(secure=c["secure"], hash_type=c["hash"])
    return t, merkle_walk(c, t, t.put, t.make_tree)


def check_merkle_root(c, ctx):
    t, steps = merkle_begin(c, ctx)
    for what, ls in steps:
        same(must(t.get_merkle_root), merkle.ref_root(c, ls), "root " + what)
        same((len(t), t.get_count()), (len(ls), len(ls)), "counts " + what)
        for i in places(c, ls):
            same(merkle.hexed(must(t.get, i)), refs.merkle_leaf(c["hash"], c["secure"], ls[i]).hex().encode(),
                 "get(%d) %s" % (i, what))


def check_merkle_proofs(c, ctx):
    t, steps = merkle_begin(c, ctx)
    seen = []
    for what, ls in steps:
        for i in places(c, ls):
            seen.append(ls[i])
        for v in dict.fromkeys(seen[-24:]):
            if v in ls:
                p = must(t.get_proof_of_inclusion, v, what="proof of %r %s" % (v[:40], what))
                merkle.good_proof(c, ls, p, v, "of %r %s" % (v[:40], what))
                same(must(t.verify_proof_of_inclusion, p), True, "verdict on the proof of %r %s" % (v[:40], what))
                ctx.count("proofs")
            else:
                refuses(t.get_proof_of_inclusion, v, what="proof of %r, gone %s" % (v[:40], what))


def check_merkle_old(c, ctx):
    """All proofs of all former leaves, and altered ones, judged by the tree of now."""
    t, steps = merkle_begin(c, ctx)
    old = []
    for what, ls in steps:
        root = merkle.ref_root(c, ls)
        for i in places(c, ls):
            p = must(t.get_proof_of_inclusion, ls[i])
            old.append((p, root, "genuine"))
            items = [list(x) for x in p.proof]
            for j, x in enumerate(items[:3]):
                wrong = [list(y) for y in items]
                wrong[j][1] = twin(bytes.fromhex(x[1].decode()), i).hex().encode()
                old.append((Proof(p.target_key, p.trie_root, tuple(map(tuple, wrong)), p.type), None,
                            "sibling %d altered" % j))
            other = twin(ls[i], 3)
            if other not in ls:
                old.append((Proof(other, p.trie_root, p.proof, p.type), None, "target altered"))
        del old[:-60]
        for p, then, how in old:
            same(must(t.verify_proof_of_inclusion, p, what="verifying " + what), then == root,
                 "verdict on the proof of %r (%s) for a root %s, %s" % (
                     p.target_key[:40], how, "of now" if p.trie_root == root else "of before", what))
            ctx.count("verifications")


def check_tools(c, ctx):
    ctx.tag("again: tools")
    ctx.nt(c["n"] > 2)
    t = must(MerkleTools, hash_type=c["hash"], secure=c["secure"])
    old = []
    for what, ls in merkle_walk(c, t, t.add_leaf, t.make_tree):
        root = merkle.ref_root(c, ls).decode()
        same(must(t.get_merkle_root), root, "root " + what)
        for i in places(c, ls):
            leaf = refs.merkle_leaf(c["hash"], c["secure"], ls[i])
            same(must(t.get_leaf, i), leaf.hex(), "leaf %d %s" % (i, what))
            p = must(t.get_proof_of_inclusion, ls[i], what="proof of leaf %d %s" % (i, what))
            sib = [(s.encode(), bytes.fromhex(h)) for x in p for s, h in x.items()]
            same(refs.merkle_fold(c["hash"], leaf, sib).hex(), root, "what the proof of leaf %d folds to %s" % (i, what))
            forms = [p]
            for j in range(min(2, len(p))):
                wrong, turned = [dict(x) for x in p], [dict(x) for x in p]
                (side, h), = p[j].items()
                wrong[j][side] = twin(bytes.fromhex(h), i).hex()
                turned[j] = {"left" if side == "right" else "right": h}
                forms += [wrong, turned]
            for q in forms:
                sib = [(s.encode(), bytes.fromhex(h)) for x in q for s, h in x.items()]
                old.append((q, leaf, root, refs.merkle_fold(c["hash"], leaf, sib).hex()))
        del old[:-60]
        for p, leaf, then, folded in old:
            for claim in dict.fromkeys((then, root)):
                got = must(t.verify_proof_of_inclusion, p, target_hash=leaf, merkle_root=bytes.fromhex(claim))
                same(got, claim == folded, "verdict on a proof for the root %s %s" % (claim, what))
                ctx.count("verifications")


def check_merkle_texts(c, ctx):
    """The text of a tree, before and after it is built, is that of a tree made anew from the same leaves."""
    for cls, put in ((MerkleTree, "put"), (MerkleTools, "add_leaf")):
        t = must(cls, hash_type=c["hash"], secure=c["secure"])
        ls = []

        def compare(leaves, built, what):
            f = cls(hash_type=c["hash"], secure=c["secure"])
            for v in leaves:
                getattr(f, put)(v)
            if built:
                f.make_tree()
            for form in (str, repr, format):
                same(must(form, t), must(form, f), "%s of a %s %s" % (form.__name__, cls.__name__, what))
            ctx.count("texts")

        for what, new, keep in leaf_lists(c):
            if not keep:
                must(t.reset_tree)
                compare([], False, what + ", reset")
            for n, v in enumerate(new[keep:]):
                must(getattr(t, put), v)
                if n < 2:
                    compare(new[: keep + n + 1], False, what + ", not built yet")
            must(t.make_tree)
            compare(new, True, what)
    ctx.nt(c["n"] > 2)
