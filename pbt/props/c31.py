"""C31: any storage with the documented interface gives the same results."""
from hypothesis import strategies as st

import gens
import objs
import refs
from engine import Campaign
from lib import attempt, ensure, must, refuses, same
from pymt.empt import EMPT
from pymt.mpt import MPT

RULE = (
    "Tries in lockstep over one generated history, each over a storage of another kind: a dictionary; items "
    "only; items only with fresh copies on every read; the same reopened from the last root over a copy of "
    "the storage after every step or after generated steps; for extended tries the documented methods only "
    "(with keys in several orders), fresh copies of the values, and reopened extended tries. After every "
    "step the outcome of the operation, root, root hash, values, membership of pool and near-miss keys and "
    "proofs are compared with the trie over dictionaries and with a model; for extended tries also length, "
    "iteration, references and the root after a rebuild. Non-trivial: at least two keys held at once, or a "
    "reopening of a trie that holds something or was emptied."
)
ASSUMPTIONS = ["The storage keeps what it is given. Keys are bytes, values are not empty."]


class Docs(objs.DocStore):
    """The documented methods; keys in some order; fresh copies if wanted."""

    def __init__(self, order, fresh):
        objs.DocStore.__init__(self)
        self._order, self._fresh = order, fresh

    def __getitem__(self, key):
        v = self._d[key]
        if not self._fresh:
            return v
        if isinstance(v, bytes):
            return bytes(bytearray(v))
        if isinstance(v, bytearray):
            return bytearray(v)
        return v.decode_rlp(v.encode_rlp())

    def keys(self):
        ks = list(self._d)
        if self._order == "sorted":
            ks.sort()
        elif self._order == "reversed":
            ks.reverse()
        return ks

    def snapshot(self):
        new = Docs(self._order, self._fresh)
        new._d = dict(self._d)
        return new


class Items(objs.ItemStore):
    def snapshot(self):
        new = Items(self._fresh)
        new._d = dict(self._d)
        return new


# ---------------------------------------------------------------- plain tries
@st.composite
def plain_cases(draw):
    c = draw(gens.history(max_keys=6, max_ops=16, kinds={"r": ()}))
    c["reopen"] = draw(st.sampled_from(["each", "marked"]))
    return c


def proofs_of(t, model, keys):
    out = []
    for k in keys:
        if not model:
            break
        name = "inclusion" if k in model else "exclusion"
        p = must(getattr(t, "get_proof_of_" + name), k, what="%s proof of %r" % (name, k))
        out.append((k, name, p))
    return out


def check_plain(case, ctx):
    secure, keys = case["secure"], case["keys"]
    base = MPT({}, secure=secure)
    others = {"items": [MPT(Items(), secure=secure), None, False],
              "fresh items": [MPT(Items(True), secure=secure), None, False]}
    for fresh in (False, True):
        s = Items(fresh)
        others["reopened" + (" fresh" if fresh else "")] = [MPT(s, secure=secure), s, True]
    d = {}
    others["reopened dictionary"] = [MPT(d, secure=secure), d, True]
    model = {}
    held = False
    for step, op in enumerate(case["ops"]):
        k = keys[op[1]]
        what = "step %d %s %r" % (step, op[0], k)
        if op[0] == "u":
            must(base.update, k, op[2], what=what)
            model[k] = op[2]
        elif op[0] == "d":
            ok, err = attempt(base.delete, k)
            same(ok, k in model, "success of " + what)
            if ok:
                del model[k]
        for name, slot in others.items():
            w = "%s with %s" % (what, name)
            if op[0] == "u":
                must(slot[0].update, k, op[2], what=w)
            elif op[0] == "d":
                good, e = attempt(slot[0].delete, k)
                same(good, ok, "success of " + w)
                if not ok:
                    same(type(e), type(err), "type of the error of " + w)
            if slot[2] and (case["reopen"] == "each" or op[0] == "r"):
                slot[1] = dict(slot[1]) if isinstance(slot[1], dict) else slot[1].snapshot()
                slot[0] = must(MPT, slot[1], root=slot[0].root(), secure=secure, what="reopening at " + w)
                ctx.nt(bool(model) or held)
                ctx.tag("reopened " + ("holding something" if model else "emptied" if held else "empty"))
        held = held or bool(model)
        ctx.nt(len(model) > 1)
        ctx.tag("op " + op[0])
        want = refs.trie_root(gens.inner(model, secure))
        same(base.root_hash(), want, "root hash after " + what)
        asked = gens.probes(model, keys, 10)
        proofs = proofs_of(base, model, asked)
        for name, (t, _, _) in others.items():
            w = "%s with %s" % (what, name)
            same(t.root_hash(), want, "root hash after " + w)
            same(t.root(), base.root(), "root after " + w)
            for q in asked:
                same(must(t.contains, q, what="contains(%r) after %s" % (q, w)), q in model,
                     "contains(%r) after %s" % (q, w))
                if q in model:
                    same(must(t.get, q, what="get(%r) after %s" % (q, w)), model[q], "get(%r) after %s" % (q, w))
                else:
                    refuses(t.get, q, what="get(%r) after %s" % (q, w))
            for (q, kind, p), (_, _, p2) in zip(proofs, proofs_of(t, model, asked)):
                same(objs.proof_fields(p2), objs.proof_fields(p), "%s proof of %r after %s" % (kind, q, w))
                ensure(must(getattr(t, "verify_proof_of_" + kind), p) is True,
                       "%s proof of %r does not verify after %s", kind, q, w)


# ------------------------------------------------------------- extended tries
@st.composite
def extended_cases(draw):
    keys = draw(gens.key_pool(1, 6))
    ki = st.integers(0, len(keys) - 1)
    up = st.tuples(st.just("u"), ki, objs.data_specs())
    op = st.one_of(up, up, up, st.tuples(st.just("d"), ki), st.tuples(st.just("d"), ki),
                   st.tuples(st.just("r"), ki), st.tuples(st.just("b"), ki), st.tuples(st.just("c"), ki),
                   st.tuples(st.just("p"), ki))
    ops = [["u", i, draw(objs.data_specs())] for i in range(len(keys))] if draw(st.booleans()) else []
    ops += [list(o) for o in draw(st.lists(op, min_size=1, max_size=12))]
    return {"secure": draw(st.sampled_from([False, False, True])), "keys": keys, "ops": ops,
            "order": draw(st.sampled_from(["plain", "sorted", "reversed"])),
            "fresh": draw(st.booleans()), "reopen": draw(st.sampled_from(["each", "marked"]))}


def check_extended(case, ctx):
    secure, keys = case["secure"], case["keys"]
    order, fresh = case["order"], case["fresh"]

    def docs():
        return Docs(order, fresh)

    base = EMPT({}, {}, secure=secure)
    s1, s2 = docs(), docs()
    d1, d2 = {}, {}
    tries = {
        "documented methods": [EMPT(docs(), docs(), secure=secure), None, None],
        "documented methods for the data": [EMPT(data_storage=docs(), secure=secure), None, None],
        "documented methods for the nodes": [EMPT(docs(), secure=secure), None, None],
        "reopening": [EMPT(s1, s2, secure=secure), s1, s2],
        "reopened dictionaries": [EMPT(d1, d2, secure=secure), d1, d2],
    }
    model = {}
    held = False
    for step, op in enumerate(case["ops"]):
        k = keys[op[1]]
        what = "step %d %s %r" % (step, op[0], k)
        there = k in model

        def act(t, w):
            if op[0] == "u":
                must(t.update, k, objs.value(op[2]), what=w)
            elif op[0] == "d":
                if there:
                    must(t.delete, k, what=w)
                else:
                    ok, e = attempt(t.delete, k)
                    ensure(not ok, "%s of an absent key: %r", w, e)
            elif op[0] == "b":
                must(t.build_trie, what=w)
            elif op[0] == "c":
                must(t.clear, what=w)
            elif op[0] == "p":
                if there:
                    v = must(t.pop, k, what=w)
                    same(objs.encoding(v), objs.encoding(model[k]), "value of " + w)
                else:
                    refuses(t.pop, k, what=w)

        act(base, what)
        for name, slot in tries.items():
            act(slot[0], "%s with %s" % (what, name))
            if slot[1] is not None and (case["reopen"] == "each" or op[0] == "r"):
                slot[1] = dict(slot[1]) if isinstance(slot[1], dict) else slot[1].snapshot()
                slot[2] = dict(slot[2]) if isinstance(slot[2], dict) else slot[2].snapshot()
                slot[0] = must(EMPT, slot[1], slot[2], root=slot[0].root(), secure=secure,
                               what="reopening at %s with %s" % (what, name))
                ctx.nt(bool(model) or held)
        if op[0] == "u":
            model[k] = objs.value(op[2])
        elif op[0] in "dp":
            model.pop(k, None)
        elif op[0] == "c":
            model.clear()
        held = held or bool(model)
        if not model and held:
            ctx.tag("emptied")
        ctx.tag("op " + op[0], "order " + order)
        ctx.nt(len(model) > 1)
        want = objs.ref_root(model, secure)
        same(base.root_hash(), want, "root hash after " + what)
        asked = gens.probes(model, keys, 8)
        proofs = proofs_of(base, model, asked)
        for name, (t, _, _) in tries.items():
            w = "%s with %s" % (what, name)
            same(t.root_hash(), want, "root hash after " + w)
            same(t.root(), base.root(), "root after " + w)
            same(must(len, t, what="len after " + w), len(model), "length after " + w)
            same(sorted(must(lambda: list(t), what="iterating after " + w)), sorted(model), "keys after " + w)
            same({q: objs.encoding(v) for q, v in must(lambda: list(t.items()), what="items after " + w)},
                 {q: objs.encoding(v) for q, v in model.items()}, "items after " + w)
            for q in asked:
                same(must(t.contains, q, what="contains(%r) after %s" % (q, w)), q in model,
                     "contains(%r) after %s" % (q, w))
                if q in model:
                    got = must(t.get, q, what="get(%r) after %s" % (q, w))
                    same(got, model[q], "get(%r) after %s" % (q, w))
                    r = must(t.get_reference, q, what="get_reference(%r) after %s" % (q, w))
                    same((r.key, r.data), (q, objs.encoding(model[q])), "reference of %r after %s" % (q, w))
                else:
                    refuses(t.get, q, what="get(%r) after %s" % (q, w))
            for (q, kind, p), (_, _, p2) in zip(proofs, proofs_of(t, model, asked)):
                same(objs.proof_fields(p2), objs.proof_fields(p), "%s proof of %r after %s" % (kind, q, w))
                ensure(must(getattr(t, "verify_proof_of_" + kind), p) is True,
                       "%s proof of %r does not verify after %s", kind, q, w)
    for name, (t, _, _) in tries.items():
        must(t.build_trie, what="rebuild at the end with " + name)
        same(t.root_hash(), objs.ref_root(model, secure), "root hash after the rebuild with " + name)
        v = must(t.get_sparse_trie, what="sparse view with " + name)
        same(v.root_hash(), t.root_hash(), "root hash of the sparse view with " + name)


CAMPAIGNS = [
    Campaign("plain", lambda tier: plain_cases(), check_plain, 640, 24000),
    Campaign("extended", lambda tier: extended_cases(), check_extended, 480, 18000),
]
