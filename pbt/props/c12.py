"""C12: reading never returns data that was tampered with."""
from hypothesis import strategies as st

import gens
import objs
import refs
from engine import Campaign, Enumeration
from lib import ensure, must, refuses, same
from props import endurance, large, longs
from pymt.empt import EMPT, SparseEMPT
from pymt.utils import InvalidReferenceError

RULE = (
    "An extended trie over a data storage that the test holds: values are replaced there by other values "
    "(small changes, values of other keys, older values of the same key, values of another kind) or "
    "changed in place, in between writes through the trie and restorations. Reading a key whose held "
    "value differs in its encoding from the one last written must raise InvalidReferenceError, every "
    "other key must read normally. Non-trivial: a key was read while tampered with, and a key that was "
    "not while another one was. The same with sparse tries and views as values, which change after they were stored."
) + large.RULE + endurance.RULE + longs.RULE
ASSUMPTIONS = ["Held values that encode to the same bytes as the written value are not tampering."]


@st.composite
def cases(draw):
    keys = draw(gens.key_pool(1, 6))
    ki = st.integers(0, len(keys) - 1)
    ops = [["write", i, draw(objs.data_specs()), 0] for i in range(len(keys))]
    for _ in range(draw(st.integers(1, 10))):
        name = draw(st.sampled_from(["write", "del", "replace", "replace", "old", "other", "swap", "inplace",
                                     "tweak", "tweak", "kind", "restore", "restore", "again", "again"]))
        ops.append([name, draw(ki), draw(objs.data_specs()), draw(st.integers(0, 300))])
    return {"secure": draw(st.booleans()), "keys": keys, "ops": ops}


def tweaked(b, n):
    """b with a small change."""
    how = n % 5
    if how == 0 or not b:
        return b + bytes([n % 256])
    if how == 1:
        return b[:-1]
    if how == 2:
        return b"\x00" + b
    x = bytearray(b)
    x[n % len(x)] ^= 1 << (n // 5 % 8)
    return bytes(x)


def check(case, ctx):
    secure, keys = case["secure"], case["keys"]
    data = {}
    e = EMPT({}, data, secure=secure)
    last = {}  # key -> (spec, encoding) last written
    history = {}
    held_change = set()
    for step, (op, i, spec, n) in enumerate(case["ops"]):
        k = keys[i]
        if op == "write":
            must(e.update, k, objs.value(spec), what="update(%r)" % k)
            last[k] = spec
            history.setdefault(k, []).append(spec)
        elif k not in last:
            continue
        elif op == "del":
            must(e.delete, k, what="delete(%r)" % k)
            del last[k]
        elif op == "replace":
            data[k] = objs.value(spec)
        elif op == "old":
            data[k] = objs.value(history[k][n % len(history[k])])
        elif op == "other":
            q = sorted(last)[n % len(last)]
            data[k] = objs.value(last[q])
        elif op == "swap":
            q = sorted(last)[n % len(last)]
            data[k], data[q] = data[q], data[k]
        elif op == "inplace":
            if isinstance(data[k], bytearray):
                data[k].append(n % 256)
                ctx.tag("changed in place")
            elif isinstance(data[k], objs.Obj):
                data[k].payload = tweaked(data[k].payload, n)
                ctx.tag("changed in place")
        elif op == "tweak":
            kind, body = last[k]
            data[k] = objs.value([kind, tweaked(body, n)])
        elif op == "kind":
            data[k] = objs.value(["baosp"[n % 5], last[k][1]])
        elif op == "restore":
            data[k] = objs.value(last[k])
        elif op == "again":  # the same value through the trie
            must(e.update, k, objs.value(last[k]), what="update(%r)" % k)
        bad = {q for q in last if objs.encoding(data[q]) != objs.encoding(objs.value(last[q]))}
        ctx.nt(bool(bad) and len(bad) < len(last))
        ctx.tag("op " + op)
        before = (e.root_hash(), dict(data))
        for q in last:
            what = "after step %d (%s %r): reading %r" % (step, op, k, q)
            if q in bad:
                ctx.count("tampered reads")
                for fn in (e.get, e.__getitem__) if step % 2 else (e.__getitem__, e.pop):
                    refuses(fn, q, types=InvalidReferenceError, what=what)
            else:
                ctx.count("untouched reads")
                got = must(e.get, q, what=what)
                same(got, data[q], what)
                same(objs.encoding(got), objs.encoding(objs.value(last[q])), what)
        if bad:
            refuses(lambda: list(e.items()), types=InvalidReferenceError, what="reading all items")
        same((e.root_hash(), dict(data)), before, "trie and data after reading")


# --------------------------------------------- objects of the library as values
@st.composite
def nested_cases(draw):
    keys = draw(gens.key_pool(2, 5))
    ki = st.integers(0, len(keys) - 1)
    ops = []
    for _ in range(draw(st.integers(3, 14))):
        ops.append([draw(st.sampled_from(["store", "store", "store", "grow", "grow", "shrink", "again", "del", "rebuild",
                                          "view", "twice"])),
                    draw(ki), draw(ki), draw(gens.values())])
    return {"secure": draw(st.booleans()), "inner": draw(st.booleans()), "keys": keys, "ops": ops}


def check_nested(case, ctx):
    """Sparse tries, root-only views of them and proofs are values; the tries go
    on changing. The encoding is that of the moment of the write."""
    keys = case["keys"]
    data = {}
    e = EMPT({}, data, secure=case["secure"])
    tries = [SparseEMPT(secure=case["inner"]) for _ in range(3)]
    has = [{}, {}, {}]
    stored = {}  # key -> (object, encoding when stored)
    for step, (op, i, j, v) in enumerate(case["ops"]):
        k = keys[i]
        n = j % 3
        if op == "store":
            must(e.update, k, tries[n], what="storing a trie")
            stored[k] = (tries[n], tries[n].encode_rlp())
        elif op == "twice":  # one trie under two keys
            for q in keys[:2]:
                must(e.__setitem__, q, tries[n], what="storing a trie")
                stored[q] = (tries[n], tries[n].encode_rlp())
        elif op == "view":
            o = must(tries[n].get_root_trie)
            must(e.update, k, o, what="storing a view")
            stored[k] = (o, o.encode_rlp())
        elif op == "grow":
            must(tries[n].update, keys[j], v)
            has[n][keys[j]] = v
        elif op == "shrink":
            if keys[j] in has[n]:
                must(tries[n].delete, keys[j])
                del has[n][keys[j]]
        elif op == "again":
            if k in stored:
                must(e.update, k, stored[k][0], what="storing the object again")
                stored[k] = (stored[k][0], stored[k][0].encode_rlp())
        elif op == "del":
            if k in stored:
                must(e.delete, k)
                del stored[k]
        elif op == "rebuild":
            must(e.build_trie)
            stored = {q: (o, o.encode_rlp()) for q, (o, _) in stored.items()}
        bad = {q for q, (o, was) in stored.items() if o.encode_rlp() != was}
        ctx.tag("op " + op)
        ctx.nt(bool(bad))
        what = "after step %d (%s)" % (step, op)
        same(e.root_hash(), refs.trie_root(gens.inner(
            {q: refs.data_reference(q, was) for q, (o, was) in stored.items()}, case["secure"])), "root " + what)
        same(sorted(e), sorted(stored), "keys " + what)
        for q, (o, was) in stored.items():
            if q in bad:
                ctx.count("changed values")
                refuses(e.get, q, types=InvalidReferenceError, what="reading a trie that was changed since, " + what)
            else:
                ensure(must(e.get, q, what="reading a trie " + what) is o, "another object was read")
            same(must(e.verify_proof_of_inclusion, must(e.get_proof_of_inclusion, q)), True, "verdict " + what)
        for t, m in zip(tries, has):
            same(t.root_hash(), refs.trie_root(gens.inner(
                {q: refs.data_reference(q, w) for q, w in m.items()}, case["inner"])), "root of a stored trie " + what)


CAMPAIGNS = [
    Enumeration("long values", longs.cases, longs.check_tamper),
    Campaign("library objects", lambda tier: nested_cases(), check_nested, 800, 20000),
    Campaign("tamper", lambda tier: cases(), check, 3000, 150000),
    Campaign("scale", lambda tier: gens.scale(60), large.check_tamper, 64, 1500),
    Enumeration("endurance", endurance.small, endurance.check_tampered),
]
