"""C13: full, sparse and root-only views agree and are isolated."""
from hypothesis import strategies as st

import gens
import objs
from engine import Campaign, Enumeration
from lib import attempt, ensure, must, refuses, same
from props import again, endurance, large, longs
from pymt.empt import EMPT, RootEMPT, SparseEMPT

RULE = (
    "A full and a sparse trie are fed the same generated operations; roots, membership, references and "
    "proofs are compared after each. Views are derived at generated moments (sparse and root-only from "
    "the full trie, root-only from the sparse one), sparse views are changed on their own (the storages of the source stay as they were), the nodes of the source are lost and made anew, and at the "
    "end every view is compared with the model of its own moment and every proof of every view is "
    "verified against every view. Non-trivial: a view with entries whose source changed afterwards."
) + large.RULE + endurance.RULE + again.RULE + longs.RULE
ASSUMPTIONS = []


@st.composite
def cases(draw):
    keys = draw(gens.key_pool(1, 6))
    ki = st.integers(0, len(keys) - 1)
    op = st.one_of(
        st.tuples(st.just("u"), ki, objs.data_specs()),
        st.tuples(st.just("u"), ki, objs.data_specs()),
        st.tuples(st.just("u"), ki, objs.data_specs()),
        st.tuples(st.just("d"), ki, st.none()),
        st.tuples(st.just("d"), ki, st.none()),
        st.tuples(st.just("view"), st.integers(0, 2), st.none()),
        st.tuples(st.just("view"), st.integers(0, 2), st.none()),
        st.tuples(st.just("vu"), ki, objs.data_specs()),
        st.tuples(st.just("vd"), ki, st.none()),
        st.tuples(st.just("rebuild"), st.integers(0, 2), st.none()),
    )
    ops = [("u", i, draw(objs.data_specs())) for i in range(len(keys))] if draw(st.sampled_from([1, 1, 0])) else []
    ops += draw(st.lists(op, min_size=draw(st.sampled_from([6, 2, 1])), max_size=18))
    return {"secure": draw(st.booleans()), "keys": keys, "ops": [list(o) for o in ops],
            "pick": draw(st.integers(0, 9)), "storage": draw(st.sampled_from(["own", "given", "given"]))}


def agree(full, sparse, model, k, secure, what):
    want = objs.ref_root(model, secure)
    same(full.root_hash(), want, "root hash of the full trie " + what)
    same(sparse.root_hash(), want, "root hash of the sparse trie " + what)
    same(sparse.root(), full.root(), "root of the sparse trie " + what)
    for q in [k] + gens.near(k)[:3]:
        same(must(sparse.contains, q), q in model, "contains(%r) of the sparse trie %s" % (q, what))
        same(q in sparse, q in model, "membership of %r in the sparse trie %s" % (q, what))
        same(must(full.contains, q), q in model, "contains(%r) of the full trie %s" % (q, what))
        if q in model:
            a, b = must(full.get_reference, q), must(sparse.get_reference, q)
            same(b.encode(), a.encode(), "reference of %r %s" % (q, what))
            same((b.key, b.data), (q, objs.encoding(model[q])), "reference of %r %s" % (q, what))
        else:
            refuses(sparse.get_reference, q, what="reference of the absent key %r" % q)
        for name in ("inclusion", "exclusion"):
            oka, pa = attempt(getattr(full, "get_proof_of_" + name), q)
            okb, pb = attempt(getattr(sparse, "get_proof_of_" + name), q)
            same(okb, oka, "whether there is an %s proof of %r %s" % (name, q, what))
            if oka:
                same(objs.proof_fields(pb), objs.proof_fields(pa), "%s proof of %r %s" % (name, q, what))


def check(case, ctx):
    secure, keys = case["secure"], case["keys"]
    nodes, data = {}, {}
    if case.get("storage", "own") == "given":
        full = EMPT(nodes, data, secure=secure)
    else:
        full = EMPT(secure=secure)
    sparse = SparseEMPT(secure=secure)
    model = {}
    views = []  # [label, view, model, makes proofs]
    for step, (op, i, spec) in enumerate(case["ops"]):
        what = "after step %d (%s)" % (step, op)
        k = keys[i % len(keys)]
        if op == "u":
            must(full.update, k, objs.value(spec), what="update(%r) of the full trie" % k)
            if step % 2:
                must(sparse.update, k, objs.value(spec), what="update(%r) of the sparse trie" % k)
            else:
                must(sparse.__setitem__, k, objs.value(spec), what="update(%r) of the sparse trie" % k)
            model[k] = objs.value(spec)
        elif op == "d":
            if k in model:
                must(full.delete, k, what="delete(%r) of the full trie" % k)
                must(sparse.delete if step % 2 else sparse.__delitem__, k,
                     what="delete(%r) of the sparse trie" % k)
                del model[k]
            else:
                refuses(full.delete, k, what="delete of the absent %r" % k)
                refuses(sparse.delete, k, what="delete of the absent %r from the sparse trie" % k)
        elif op == "view":
            label = ["sparse view", "root view", "root view of the sparse trie"][i]
            v = must([full.get_sparse_trie, full.get_root_trie, sparse.get_root_trie][i], what=label)
            views.append([label, v, dict(model)])
            same(v.root_hash(), objs.ref_root(model, secure), "root hash of the new " + label)
            if i:
                same(v.secure, secure, "mode of the " + label)
            elif case["pick"] % 2 and len(views) < 6:  # and one derived from the view
                r = must(v.get_root_trie, what="root view of the sparse view")
                same(r.secure, secure, "mode of the root view of the sparse view")
                views.append(["root view of the sparse view", r, dict(model)])
        elif op == "rebuild":  # lose the nodes of the source and make them anew
            if i:
                nodes.clear()
            must(full.build_trie, what="rebuilding the full trie")
            if i > 1:
                for label, v, m in views + [["sparse trie", sparse, model]]:
                    if isinstance(v, SparseEMPT):
                        for q in keys:
                            same(must(v.contains, q, what="contains(%r) of a %s after a rebuild of the source" % (q, label)),
                                 q in m, "contains(%r) of a %s after a rebuild of the source" % (q, label))
        else:  # change a sparse view on its own
            mine = [v for v in views if isinstance(v[1], SparseEMPT)]
            if not mine:
                continue
            label, v, m = mine[(case["pick"] + step) % len(mine)]
            before = [dict(nodes), dict(data), len(full)]
            if op == "vu":
                must(v.update, k, objs.value(spec), what="update(%r) of a sparse view" % k)
                m[k] = objs.value(spec)
            elif k in m:
                must(v.delete, k, what="delete(%r) of a sparse view" % k)
                del m[k]
            same([nodes, data, len(full)], before, "storages of the source after a change of its sparse view")
            ctx.tag("changed a view")
        ctx.tag("op " + op)
        agree(full, sparse, model, k, secure, what)
        for label, v, m in views:
            same(v.root_hash(), objs.ref_root(m, secure), "root hash of a %s %s" % (label, what))
    now = objs.ref_root(model, secure)
    ctx.nt(any(m and objs.ref_root(m, secure) != now for _, _, m in views))
    # Contents of the sparse views, values of the full trie.
    for k in keys:
        if k in model:
            same(must(full.get, k), model[k], "get(%r) of the full trie at the end" % k)
    everyone = [["full trie", full, model], ["sparse trie", sparse, model]] + views
    proofs = []
    for label, v, m in everyone:
        if isinstance(v, RootEMPT):
            continue
        for k in keys:
            same(must(v.contains, k), k in m, "contains(%r) of the %s at the end" % (k, label))
            if k in m:
                same(must(v.get_reference, k).data, objs.encoding(m[k]),
                     "reference of %r in the %s at the end" % (k, label))
            if m:
                name = "inclusion" if k in m else "exclusion"
                proofs.append((name, must(getattr(v, "get_proof_of_" + name), k,
                                          what="%s proof of %r from the %s" % (name, k, label)),
                               objs.ref_root(m, secure), k, label))
    for name, p, root, k, maker in proofs[:40]:
        for label, v, m in everyone:
            if not m:
                continue
            ctx.count("verifications")
            got = must(getattr(v, "verify_proof_of_" + name), p, what="verifying against the " + label)
            ensure(got is (v.root_hash() == root),
                   "the %s proof of %r by the %s gives %r against the %s (roots %s)",
                   name, k, maker, got, label, "equal" if v.root_hash() == root else "different")


CAMPAIGNS = [
    Enumeration("long values", longs.cases, longs.check_views),
    Campaign("views", lambda tier: cases(), check, 1400, 70000),
    Campaign("scale", lambda tier: gens.scale(200), large.check_views, 32, 900),
    Enumeration("endurance", endurance.small, endurance.check_views),
    Campaign("again", lambda tier: again.programs(("empt",)), again.check_views, 700, 16000),
]
