"""C11: the extended trie is a faithful mutable mapping."""
from hypothesis import strategies as st

import gens
import objs
import refs
from engine import Campaign, Enumeration
from lib import ensure, must, refuses, same
from props import again, endurance, large, longs
from pymt.empt import EMPT

RULE = (
    "Random sequences of all mapping operations over a small pool of related keys, with values that are "
    "bytes, bytearrays and two kinds of objects that encode themselves, compared step by step with a "
    "dictionary; the root hash after every step is the reference root over one reference data reference "
    "per entry. Non-trivial: at least two keys were stored at once and one was removed or overwritten."
) + large.RULE + endurance.RULE + again.RULE + longs.RULE
ASSUMPTIONS = [
    "popitem may take any entry; iteration may have any order that keys, values and items share.",
]

OPS = ["set", "set", "set", "set", "get", "del", "del", "in", "pop", "popdef", "popitem", "setdefault",
       "clear", "iter", "eq", "ref"]


@st.composite
def cases(draw, max_ops=24):
    keys = draw(gens.key_pool(1, 7))
    ki = st.integers(0, len(keys) - 1)
    ops = [["set", i, draw(objs.data_specs()), i] for i in range(len(keys))] if draw(st.sampled_from([1, 1, 0])) else []
    for name in draw(st.lists(st.sampled_from(OPS), min_size=draw(st.sampled_from([8, 2, 0])), max_size=max_ops)):
        ops.append([name, draw(ki), draw(objs.data_specs()) if name in ("set", "setdefault", "popdef") else None,
                    draw(st.integers(0, 9))])
    return {"secure": draw(st.sampled_from([False, False, True])), "keys": keys, "ops": ops}


def same_value(got, want, what):
    same(got, want, what)
    ensure(type(got) is type(want), "%s: a %s, not a %s", what, type(got).__name__, type(want).__name__)


def whole(e, model, secure, ctx):
    """Everything the mapping tells about itself."""
    same(must(len, e, what="len"), len(model), "len")
    ks = must(list, e, what="iteration")
    same(len(ks), len(model), "number of keys iterated over")
    same(set(ks), set(model), "keys iterated over")
    same(must(lambda: list(e.keys()), what="keys"), ks, "keys()")
    its = must(lambda: list(e.items()), what="items")
    same([k for k, _ in its], ks, "keys of items()")
    for k, v in its:
        same_value(v, model[k], "item of %r" % k)
    vs = must(lambda: list(e.values()), what="values")
    same(vs, [model[k] for k in ks], "values()")
    ctx.count("whole readings")


def unchanged(e, model, secure, what):
    same(len(e), len(model), "len after " + what)
    same(e.root_hash(), objs.ref_root(model, secure), "root hash after " + what)


def check(case, ctx):
    secure, keys = case["secure"], case["keys"]
    e = EMPT(secure=secure)
    model = {}
    ctx.tag("secure" if secure else "plain")
    for step, (op, i, spec, n) in enumerate(case["ops"]):
        k = keys[i]
        v = objs.value(spec) if spec else None
        what = "step %d: %s of %r" % (step, op, k)
        ctx.tag("op " + op)
        if op in ("set", "setdefault"):
            ctx.tag("value " + spec[0])
        if op == "set":
            ctx.nt(k in model and len(model) > 1)
            if n % 2:
                must(e.update, k, v, what=what)
            else:
                must(e.__setitem__, k, v, what=what)
            model[k] = objs.value(spec)
        elif op == "get":
            if k in model:
                same_value(must(e.get, k, what=what), model[k], what)
                same_value(must(lambda: e[k], what=what), model[k], what)
            else:
                refuses(e.get, k, what=what)
                refuses(lambda: e[k], what=what)
        elif op == "del":
            if k in model:
                ctx.nt(len(model) > 1)
                must(e.delete if n % 2 else e.__delitem__, k, what=what)
                del model[k]
            else:
                refuses(e.delete if n % 2 else e.__delitem__, k, what=what)
        elif op == "in":
            for q in [k] + gens.near(k)[:6]:
                here = must(e.__contains__ if n % 2 else e.contains, q, what="membership of %r" % q)
                ensure(here is (q in model), "membership of %r is %r", q, here)
        elif op == "pop":
            if k in model:
                ctx.nt(len(model) > 1)
                same_value(must(e.pop, k, what=what), model.pop(k), what)
            else:
                refuses(e.pop, k, what=what)
        elif op == "popdef":
            if k in model:
                same_value(must(e.pop, k, v, what=what), model.pop(k), what)
            else:
                ensure(must(e.pop, k, v, what=what) is v, "%s did not return the default", what)
        elif op == "popitem":
            if model:
                q, got = must(e.popitem, what=what)
                ensure(q in model, "popitem returned the key %r that is not stored", q)
                same_value(got, model.pop(q), "value popitem returned for %r" % q)
            else:
                refuses(e.popitem, what=what)
        elif op == "setdefault":
            got = must(e.setdefault, k, v, what=what)
            same_value(got, model.setdefault(k, objs.value(spec)), what)
        elif op == "clear":
            if n < 4:
                must(e.clear, what=what)
                model.clear()
        elif op == "eq":
            ensure((e == dict(model)) is True, "%s: not equal to a dictionary of its entries", what)
            ensure((dict(model) == e) is True, "%s: a dictionary of its entries is not equal", what)
            ensure((e != dict(model)) is False, "%s: != to a dictionary of its entries", what)
            other = EMPT(secure=bool(n % 2))
            for q in sorted(model, reverse=True):
                other[q] = model[q]
            ensure((e == other) is True, "%s: not equal to a trie of the same entries", what)
            other[k] = b"something else" + objs.encoding(model.get(k, b""))
            ensure((e == other) is False, "%s: equal to a trie of other entries", what)
            ensure((e == dict(model, **{})) is True and (e == 3) is False, "%s: equality", what)
        elif op == "ref":
            if k in model:
                r = must(e.get_reference, k, what=what)
                d = objs.encoding(model[k])
                same((r.key, r.data, r.hash), (k, d, refs.data_hash(k, d)), what)
            else:
                refuses(e.get_reference, k, what=what)
        else:
            whole(e, model, secure, ctx)
        unchanged(e, model, secure, what)
        here = must(e.contains, k, what="contains(%r)" % k)
        ensure(here is (k in model), "after %s contains is %r", what, here)
    whole(e, model, secure, ctx)
    for k in gens.probes(model, keys, 24):
        if k in model:
            same_value(must(e.get, k, what="get(%r)" % k), model[k], "get(%r)" % k)
            r = must(e.get_reference, k, what="get_reference(%r)" % k)
            d = objs.encoding(model[k])
            same((r.key, r.data, r.hash), (k, d, refs.data_hash(k, d)), "reference of %r" % k)
        else:
            refuses(e.get, k, what="get of the absent key %r" % k)
            refuses(e.get_reference, k, what="get_reference of the absent key %r" % k)
            refuses(e.delete, k, what="delete of the absent key %r" % k)
            ensure(e.contains(k) is False, "contains(%r)", k)
    unchanged(e, model, secure, "reading everything")


CAMPAIGNS = [
    Enumeration("long values", longs.cases, longs.check_mapping),
    Campaign("mapping", lambda tier: cases(24 if tier == "quick" else 40), check, 2600, 120000),
    Campaign("scale", lambda tier: gens.scale(300), large.check_mapping, 40, 1500),
    Enumeration("endurance", endurance.tries, endurance.check_mapping),
    Campaign("again", lambda tier: again.programs(("empt",)), again.check_mapping, 900, 20000),
]
