"""Tries of a size that the histories do not reach: many keys, long keys, deep
paths, big values. A case is a few numbers (gens.scale); gens.expand makes the
contents of it."""
import gens
import objs
import refs
from lib import attempt, ensure, must, refuses, same
from pymt.empt import EMPT, SparseEMPT
from pymt.mpt import MPT
from pymt.proof import Proof
from pymt.utils import InvalidReferenceError

RULE = (
    " A further campaign takes large tries: up to 400 keys, paths up to 130 branches deep, keys up to a "
    "kilobyte, values up to 130 kilobytes (lengths around powers of two and around the numbers that occur "
    "in the code under test), with deletions."
)


def spread(model, keys, most):
    """Some stored and some absent keys from all over, and near misses."""
    step = max(1, len(keys) // most)
    out = list(dict.fromkeys(keys[::step] + keys[-1:] + sorted(model)[:1] + sorted(model)[-1:] + [b""]))
    for k in list(out)[: most // 2]:
        out += [q for q in gens.near(k)[:: 3] if q not in out]
    return list(dict.fromkeys(out))


def built(case, ctx):
    c = gens.expand(case)
    t, model = gens.build(MPT, c)
    ctx.tag(case["shape"], "secure" if c["secure"] else "plain")
    ctx.nt(len(model) > 1)
    ctx.count("entries", len(model))
    return c, t, model


def check_map(case, ctx):
    """C01: the trie as a map, while growing and while shrinking to nothing."""
    c, t, model = built(case, ctx)
    from props.c01 import EMPTY, LOOKUP

    def look(keys):
        for k in keys:
            same(must(t.contains, k, what="contains"), k in model, "contains(%r)" % k[:40])
            if k in model:
                same(must(t.get, k, what="get"), model[k], "get(%r)" % k[:40])
            else:
                refuses(t.get, k, types=LOOKUP if model else EMPTY, what="get of the absent key %r" % k[:40])

    look(c["keys"])
    look(spread(model, c["keys"], 30))
    for i, k in enumerate(c["keys"][::2]):
        must(t.update, k, b"again %d" % i, what="update")
        model[k] = b"again %d" % i
    look(c["keys"])
    order = sorted(model, key=lambda k: refs.keccak(k))
    for i, k in enumerate(order):
        must(t.delete, k, what="delete(%r)" % k[:40])
        del model[k]
        if i % max(1, len(order) // 6) == 0:
            look(c["keys"])
    look(c["keys"][:20])


def check_root(case, ctx):
    """C02: the root of large contents, in two orders and after deletions."""
    c, t, model = built(case, ctx)

    def now(x, what):
        same(must(x.root_hash, what="root_hash"), refs.trie_root(gens.inner(model, c["secure"])), "root hash " + what)

    now(t, "of %d entries" % len(model))
    u = MPT({}, secure=c["secure"])
    for k in sorted(model, key=lambda k: refs.keccak(k)):
        u.update(k, model[k])
    now(u, "of the entries in another order")
    order = sorted(model)
    for i, k in enumerate(order[1::2] + order[::2]):
        must(u.delete, k, what="delete")
        del model[k]
        if i % max(1, len(order) // 5) == 0 or len(model) < 2:
            now(u, "with %d entries left" % len(model))


def check_history(case, ctx):
    """C03: the roots on the way to large contents and back stay readable."""
    c = gens.expand(case)
    store = {}
    t = MPT(store, secure=c["secure"])
    model, past = {}, []
    n = len(c["keys"])
    for i, (k, v) in enumerate(list(zip(c["keys"], c["vals"])) + [(c["keys"][j], None) for j in range(0, n, 2)]):
        if v is None:
            t.delete(k)
            del model[k]
        else:
            t.update(k, v)
            model[k] = v
        if i % max(1, n // 5) == 1:
            past.append((t.root(), dict(model)))
    ctx.nt(len(past) > 1)
    ctx.tag(case["shape"])
    for h, e in store.items():
        same(refs.keccak(e), h, "address of a stored entry")
    for root, m in past:
        old = MPT(store, root=root, secure=c["secure"])
        if not m:
            continue
        for k in spread(m, c["keys"], 30):
            same(must(old.contains, k, what="contains"), k in m, "contains(%r) at an old root" % k[:40])
            if k in m:
                same(must(old.get, k, what="get"), m[k], "get(%r) at an old root" % k[:40])


def check_proofs(case, ctx, inclusion):
    """C05, C07."""
    from props.c05 import check_proofs as proofs

    c = gens.expand(case)
    model = {k: v for i, (k, v) in enumerate(zip(c["keys"], c["vals"])) if i not in set(c["gone"])}
    ctx.tag(case["shape"])
    proofs(c, ctx, inclusion, universe=spread(model, c["keys"], 6))


def check_forged(case, ctx, exclusion):
    """C06, C08: genuine proofs turned on other keys, and with a node missing."""
    from props import attack

    c, t, model = built(case, ctx)
    if not model:
        return
    inner = gens.inner(model, c["secure"])
    kind = b"MPT-POE" if exclusion else b"MPT-POI"
    asked = spread(model, c["keys"], 8)
    if c["secure"]:
        asked = [refs.keccak(k) for k in asked]
    stored = [k for k in asked if k in inner]
    absent = [k for k in asked if k not in inner]
    why = attack.why_not_exclusion if exclusion else attack.why_not_inclusion

    def one(target, nodes):
        p = Proof(target, t.root_hash(), tuple(nodes), kind)
        ctx.count("verifications")
        ok, got = attempt(t.verify_proof_of_exclusion if exclusion else t.verify_proof_of_inclusion, p)
        if ok and got:
            w = why(p, t, inner)
            ensure(w is None, "an %s proof verified although %s", "exclusion" if exclusion else "inclusion", w)

    for k in (stored + absent)[:20]:
        path = [e for e, _ in refs.trie_path(inner, k)]
        for target in [k] + [x for x in stored + absent if x[:1] == k[:1]][:3] + gens.near(k)[:6]:
            nodes = path + ([attack.null_leaf(inner, target)] if exclusion else [])
            one(target, nodes)
        end = [attack.null_leaf(inner, k)] if exclusion else []
        for i in sorted({0, 1, len(path) // 2, len(path) - 1}):
            if 0 <= i < len(path):
                one(k, path[:i] + path[i + 1:] + end)
                one(k, path[: i + 1] + end)


def check_codec(case, ctx):
    """C10."""
    c, t, model = built(case, ctx)
    want = refs.trie_root(gens.inner(model, c["secure"]))
    u = must(lambda: MPT.decode(t.encode()), what="encoding and decoding")
    same(u.root_hash(), want, "root hash of the copy")
    for k in spread(model, c["keys"], 30):
        same(must(u.contains, k, what="contains"), k in model, "contains(%r) of the copy" % k[:40])
        if k in model:
            same(must(u.get, k, what="get"), model[k], "get(%r) of the copy" % k[:40])
    for i, k in enumerate(c["keys"][::3]):
        u.update(k, b"new %d" % i)
        t.update(k, b"new %d" % i)
    same(u.root_hash(), t.root_hash(), "root hash of the copy after the same updates")


def extended(case, ctx):
    """An extended trie of the case, its model and its data storage."""
    c = gens.expand(case)
    data = {}
    e = EMPT({}, data, secure=c["secure"])
    model = {}
    for i, (k, v) in enumerate(zip(c["keys"], c["vals"])):
        spec = ["baos"[(i + case["salt"]) % 4], v]
        must(e.update, k, objs.value(spec), what="update")
        model[k] = objs.value(spec)
    for i in c["gone"]:
        must(e.delete, c["keys"][i], what="delete")
        del model[c["keys"][i]]
    ctx.tag(case["shape"], "secure" if c["secure"] else "plain")
    ctx.nt(len(model) > 1)
    ctx.count("entries", len(model))
    return c, e, model, data


def entries(e, model, what):
    same(len(e), len(model), "len " + what)
    same(sorted(e), sorted(model), "keys " + what)
    for k, v in must(lambda: list(e.items()), what="items " + what):
        same(v, model[k], "item of %r %s" % (k[:40], what))


def check_mapping(case, ctx):
    """C11."""
    c, e, model, _ = extended(case, ctx)
    entries(e, model, "of the large trie")
    same(e.root_hash(), objs.ref_root(model, c["secure"]), "root hash of the large trie")
    for k in spread(model, c["keys"], 20):
        same(must(e.contains, k, what="contains"), k in model, "contains(%r)" % k[:40])
        if k in model:
            r = must(e.get_reference, k, what="get_reference")
            d = objs.encoding(model[k])
            same((r.key, r.data, r.hash), (k, d, refs.data_hash(k, d)), "reference of %r" % k[:40])
        else:
            refuses(e.get, k, what="get of the absent key %r" % k[:40])
    for k in sorted(model)[::2]:
        same(must(e.pop, k, what="pop"), model.pop(k), "pop of %r" % k[:40])
    entries(e, model, "after every second entry was popped")
    same(e.root_hash(), objs.ref_root(model, c["secure"]), "root hash after that")
    must(e.clear, what="clear")
    entries(e, {}, "after clear")
    same(e.root_hash(), refs.EMPTY_ROOT, "root hash after clear")


def check_tamper(case, ctx):
    """C12: one bit anywhere in a large value, one entry of many."""
    c, e, model, data = extended(case, ctx)
    for k in sorted(model)[:: max(1, len(model) // 5)]:
        good = objs.encoding(model[k])
        for i in sorted({0, len(good) // 2, len(good) - 1} | {n for n in gens.SIZES if n < len(good)}):
            bad = bytearray(good)
            bad[i] ^= 1 << (i % 8)
            data[k] = bytes(bad)
            refuses(e.get, k, types=InvalidReferenceError, what="reading %r with byte %d altered" % (k[:40], i))
        for bad in (good[:-1], good + b"\x00", good + good, b""):
            if bad != good:
                data[k] = bad
                refuses(e.get, k, types=InvalidReferenceError, what="reading %r with an altered end" % k[:40])
        data[k] = objs.value(["b", good])
        same(must(e.get, k, what="get of the restored"), good, "restored value")
        data[k] = model[k]
    entries(e, model, "after restoring")


def check_views(case, ctx):
    """C13."""
    c, e, model, _ = extended(case, ctx)
    sparse = SparseEMPT(secure=c["secure"])
    for k, v in model.items():
        must(sparse.update, k, v, what="update of the sparse trie")
    derived, root = e.get_sparse_trie(), e.get_root_trie()
    want = objs.ref_root(model, c["secure"])
    for label, x in (("sparse trie", sparse), ("derived sparse trie", derived), ("root trie", root)):
        same(x.root_hash(), want, "root hash of the " + label)
    for k in spread(model, c["keys"], 12):
        for label, x in (("sparse trie", sparse), ("derived sparse trie", derived)):
            same(must(x.contains, k, what="contains"), k in model, "contains(%r) of the %s" % (k[:40], label))
            if k in model:
                same(must(x.get_reference, k).data, objs.encoding(model[k]), "reference in the " + label)
            if model:
                name = "inclusion" if k in model else "exclusion"
                p = must(getattr(x, "get_proof_of_" + name), k, what="%s proof from the %s" % (name, label))
                ensure(must(getattr(root, "verify_proof_of_" + name), p) is True,
                       "the %s proof of %r by the %s does not verify against the root", name, k[:40], label)
    for k in c["keys"][::2]:
        e[k] = b"changed"
    for label, x in (("derived sparse trie", derived), ("root trie", root)):
        same(x.root_hash(), want, "root hash of the %s after the source changed" % label)
    for k in c["keys"][:10]:
        if k in model:
            same(must(derived.get_reference, k).data, objs.encoding(model[k]), "reference after the source changed")


def check_rebuild(case, ctx):
    """C14."""
    c, e, model, data = extended(case, ctx)
    want = objs.ref_root(model, c["secure"])
    must(e.build_trie, what="build_trie")
    same(e.root_hash(), want, "root hash of the rebuilt trie")
    entries(e, model, "of the rebuilt trie")
    f = EMPT({}, dict(data), secure=c["secure"])
    must(f.build_trie, what="build_trie")
    same(f.root_hash(), want, "root hash of a new trie over the data")
    for k in spread(model, c["keys"], 10):
        same(must(f.contains, k, what="contains"), k in model, "contains(%r)" % k[:40])
