"""C14: rebuilding the trie from the data reproduces it."""
from hypothesis import strategies as st

import gens
import objs
import refs
from engine import Campaign, Enumeration
from lib import attempt, ensure, must, refuses, same
from props import large, longs
from pymt.empt import EMPT

RULE = (
    "Histories of writes and deletions on an extended trie with rebuilds at generated points: directly, "
    "after values in the data storage were replaced (also by values of the same length), added or removed, after trie nodes were lost (all, some or only the "
    "root), in a new trie over the data alone. After each rebuild the trie is also reopened over the storages it was given. Root hash, contents, references, membership and proofs "
    "are compared with the model; the history goes on after the rebuild. Non-trivial: a rebuild with "
    "at least two entries."
) + large.RULE + longs.RULE
ASSUMPTIONS = []


@st.composite
def cases(draw):
    keys = draw(gens.key_pool(1, 7))
    ki = st.integers(0, len(keys) - 1)
    op = st.one_of(
        st.tuples(st.just("u"), ki, objs.data_specs()),
        st.tuples(st.just("u"), ki, objs.data_specs()),
        st.tuples(st.just("u"), ki, objs.data_specs()),
        st.tuples(st.just("d"), ki, st.none()),
        st.tuples(st.just("build"), ki, st.none()),
        st.tuples(st.just("swap"), ki, st.lists(objs.data_specs(), min_size=1, max_size=3)),
        st.tuples(st.just("lose"), st.integers(0, 9), st.none()),
        st.tuples(st.just("fresh"), ki, st.none()),
        st.tuples(st.just("drop"), ki, st.integers(0, 9)),
        st.tuples(st.just("add"), ki, objs.data_specs()),
        st.tuples(st.just("alter"), st.integers(0, 40), st.integers(0, 400)),
    )
    start = [["u", i, draw(objs.data_specs())] for i in range(len(keys))] if draw(st.booleans()) else []
    return {"secure": draw(st.booleans()), "keys": keys,
            "ops": start + [list(o) for o in draw(st.lists(op, min_size=1, max_size=14))] + [["build", 0, None]]}


def altered(v, at):
    """A value of the same kind and length with one byte changed."""
    kind, raw = objs.spec(v)
    raw = bytearray(raw or b"\x00")
    raw[at % len(raw)] ^= 1 + at % 255
    return objs.value([kind, bytes(raw)])


def intact(e, model, keys, secure, what, ctx):
    same(e.root_hash(), objs.ref_root(model, secure), "root hash " + what)
    same(len(e), len(model), "len " + what)
    same(set(e), set(model), "keys " + what)
    same(e.secure, secure, "mode " + what)
    for k in gens.probes(model, keys, 14):
        same(must(e.contains, k), k in model, "contains(%r) %s" % (k, what))
        if k in model:
            got = must(e.get, k, what="get(%r) %s" % (k, what))
            same(got, model[k], "get(%r) %s" % (k, what))
            ensure(type(got) is type(model[k]), "get(%r) %s gives a %s", k, what, type(got).__name__)
            r = must(e.get_reference, k, what="get_reference(%r) %s" % (k, what))
            same((r.key, r.data), (k, objs.encoding(model[k])), "reference of %r %s" % (k, what))
        if model:
            name = "inclusion" if k in model else "exclusion"
            p = must(getattr(e, "get_proof_of_" + name), k, what="%s proof of %r %s" % (name, k, what))
            same(p.trie_root in (e.root(), e.root_hash()), True, "root in the proof of %r %s" % (k, what))
            ensure(must(getattr(e, "verify_proof_of_" + name), p) is True,
                   "the %s proof of %r %s does not verify", name, k, what)
            ctx.count("proofs")


def check(case, ctx):
    secure, keys = case["secure"], case["keys"]
    nodes, data = {}, {}
    e = EMPT(nodes, data, secure=secure)
    model = {}
    for step, (op, i, spec) in enumerate(case["ops"]):
        k = keys[i % len(keys)]
        what = "after step %d (%s)" % (step, op)
        ctx.tag("op " + op)
        if op == "u":
            must(e.update, k, objs.value(spec), what="update(%r)" % k)
            model[k] = objs.value(spec)
            same(e.root_hash(), objs.ref_root(model, secure), "root hash " + what)
            continue
        if op == "d":
            if k in model:
                must(e.delete, k, what="delete(%r)" % k)
                del model[k]
                same(e.root_hash(), objs.ref_root(model, secure), "root hash " + what)
            continue
        ctx.nt(len(model) > 1)
        if not model:
            ctx.tag("rebuilt empty")
        if op == "swap" and model:
            for j, s in enumerate(spec):
                q = sorted(model)[(i + j) % len(model)]
                data[q] = objs.value(s)
                model[q] = objs.value(s)
        elif op == "drop":  # the data lost entries
            for j, q in enumerate(sorted(model)):
                if spec == 0 or j % 2 == spec % 2 or q == k:
                    del data[q], model[q]
        elif op == "add":  # and got others
            data[k] = objs.value(spec)
            if k not in model:  # it is no entry of the trie yet
                same((must(e.contains, k), k in e), (False, False), "membership of a key added to the data, before the rebuild")
                refuses(e.get, k, what="reading a key added to the data, before the rebuild")
            model[k] = objs.value(spec)
        elif op == "alter" and model:
            for j, q in enumerate(sorted(model)):
                if j % (1 + spec % 3) == 0 or j == i % len(model):
                    data[q] = altered(model[q], i + spec)
                    model[q] = altered(model[q], i + spec)
        elif op == "lose":
            for j, h in enumerate(list(nodes)):
                if i < 4 or (i < 7 and j % 2) or h == e.root():
                    del nodes[h]
        elif op == "fresh":
            other = EMPT({}, dict(data), secure=secure)
            must(other.build_trie, what="build_trie of a new trie over the data")
            intact(other, model, keys, secure, "in a new trie " + what, ctx)
        must(e.build_trie, what="build_trie " + what)
        intact(e, model, keys, secure, what, ctx)
        same(dict(data), model, "data storage " + what)
        if model:
            again = must(EMPT, nodes, data, e.root(), secure, what="reopening " + what)
            intact(again, model, keys, secure, "in the reopened trie " + what, ctx)


CAMPAIGNS = [
    Enumeration("long values", longs.cases, longs.check_rebuild),
    Campaign("rebuild", lambda tier: cases(), check, 2000, 100000),
    Campaign("scale", lambda tier: gens.scale(300), large.check_rebuild, 40, 1500),
]
