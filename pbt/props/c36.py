"""C36: tries that share one node storage do not disturb each other."""
from hypothesis import strategies as st

import gens
import objs
import refs
from engine import Campaign, Enumeration
from lib import attempt, ensure, must, refuses, same
from pymt.empt import EMPT, RootEMPT, SparseEMPT
from pymt.mpt import MPT

RULE = (
    "Up to six tries of all kinds and both modes over one node storage, made empty or forked from a present or "
    "earlier root of another, changed in generated interleavings; after each step every trie has the canonical "
    "root of its own model, and the trie that moved and one other give exactly their contents, membership and "
    "proofs; at the end all do, and every root that ever was is opened and holds what it held. Extended tries "
    "over the storage without a root are refused once it holds anything. Non-trivial: a trie changed after a "
    "fork of it, or two tries held a common key with different values."
)
ASSUMPTIONS = ["Each extended trie has a data storage of its own. Rebuilding, which empties the node storage, is left out."]
KINDS = ["mpt", "mpt", "mpt-secure", "sparse", "sparse-secure", "empt", "empt", "empt-secure"]


@st.composite
def cases(draw):
    keys = draw(gens.key_pool(2, 6))
    vs = gens.value_choice(draw)
    some = [draw(vs) for _ in range(draw(st.integers(1, 3)))]  # equal values make equal nodes
    v = st.one_of(st.sampled_from(some), st.sampled_from(some), vs)
    t, k = st.integers(0, 5), st.integers(0, len(keys) - 1)
    op = st.one_of(
        st.tuples(st.just("put"), t, k, v), st.tuples(st.just("put"), t, k, v), st.tuples(st.just("put"), t, k, v),
        st.tuples(st.just("del"), t, k), st.tuples(st.just("del"), t, k), st.tuples(st.just("fork"), t, st.integers(0, 20)),
        st.tuples(st.just("fork"), t, st.integers(0, 20)), st.tuples(st.just("make"), st.sampled_from(KINDS)),
        st.tuples(st.sampled_from(["empty", "proof", "proof", "read", "refused"]), t, k))
    made = [["make", draw(st.sampled_from(KINDS))] for _ in range(draw(st.integers(1, 3)))]
    filled = []
    for i in range(len(made)):
        for j in range(len(keys)):
            if draw(st.sampled_from([1, 1, 0])):
                filled.append(["put", i, j, draw(v)])
    if draw(st.booleans()):
        filled = draw(st.permutations(filled))
    return {"keys": keys, "store": draw(st.sampled_from(["dict", "dict", "record"])),
            "ops": made + [list(x) for x in filled] +
                   [list(o) for o in draw(st.lists(op, min_size=3, max_size=18))]}


class One:
    def __init__(self, kind, obj, model, data):
        self.kind, self.obj, self.model, self.data = kind.split("-")[0], obj, model, data
        self.secure = kind.endswith("secure")
        self.past = []
        self.forked = False

    def want(self):
        if self.kind == "mpt":
            return refs.trie_root(gens.inner(self.model, self.secure))
        return objs.ref_root(self.model, self.secure)

    def value(self, k):
        if self.kind == "mpt":
            return self.obj.get(k)
        if self.kind == "empt":
            return self.obj.get(k)
        r = self.obj.get_reference(k)
        same(r.key, k, "key of the reference")
        return r.data

    def check_root(self, what):
        same(must(self.obj.root_hash, what="root_hash " + what), self.want(), "root hash " + what)

    def check(self, keys, what):
        self.check_root(what)
        for k in keys:
            same(must(self.obj.contains, k, what="contains(%r) %s" % (k, what)), k in self.model,
                 "contains(%r) %s" % (k, what))
            if k in self.model:
                same(must(self.value, k, what="value of %r %s" % (k, what)), self.model[k], "value of %r %s" % (k, what))
            else:
                refuses(self.value, k, what="value of %r %s" % (k, what))
        if self.kind == "empt":
            same(len(self.obj), len(self.model), "len " + what)
            same(set(self.obj), set(self.model), "keys " + what)

    def fork(self, nodes, at):
        """Another trie of this kind at a root it has or had."""
        root, model = (self.past + [(self.obj.root(), dict(self.model))])[at]
        kind = self.kind + ("-secure" if self.secure else "")
        data = dict(model)
        if self.kind == "mpt":
            o = must(MPT, nodes, root, self.secure, what="MPT over shared nodes")
        elif self.kind == "sparse":
            o = must(SparseEMPT, nodes, root=root, secure=self.secure, what="SparseEMPT over shared nodes")
        else:
            o = must(EMPT, nodes, data, root=root, secure=self.secure, what="EMPT over shared nodes")
        return One(kind, o, dict(model), data)


def make(kind, nodes, others):
    secure = kind.endswith("secure")
    if kind.startswith("mpt"):
        return One(kind, must(MPT, nodes, secure=secure), {}, None)
    if kind.startswith("sparse"):
        return One(kind, must(SparseEMPT, nodes, secure=secure), {}, None)
    data = {}
    if len(nodes):
        refuses(EMPT, nodes, data, secure=secure, types=ValueError, what="EMPT over nodes without a root")
        empty = MPT({}).root()  # the root of an empty trie
        return One(kind, must(EMPT, nodes, data, root=empty, secure=secure, what="EMPT at the empty root"), {}, data)
    return One(kind, must(EMPT, nodes, data, secure=secure), {}, data)


def check(case, ctx):
    keys = case["keys"]
    nodes = objs.RecordingStore() if case["store"] == "record" else {}
    tries = []
    for step, o in enumerate(case["ops"]):
        op = o[0]
        what = "after step %d (%s)" % (step, op)
        moved = None
        if op == "make":
            if len(tries) < 6:
                tries.append(make(o[1], nodes, tries))
                ctx.tag("made " + o[1])
        elif not tries:
            continue
        else:
            t = tries[o[1] % len(tries)]
            k = keys[o[2] % len(keys)]
            if op in ("put", "del", "empty"):
                was = (t.obj.root(), dict(t.model))
                if op == "put":
                    must(t.obj.update, k, o[3], what="update %s of trie %d" % (what, o[1] % len(tries)))
                    t.model[k] = o[3]
                elif op == "del":
                    if k in t.model:
                        must(t.obj.delete, k, what="delete %s" % what)
                        del t.model[k]
                    else:
                        refuses(t.obj.delete, k, what="delete of an absent key " + what)
                else:
                    for x in list(t.model):
                        must(t.obj.delete, x, what="delete %s" % what)
                        del t.model[x]
                t.past.append(was)
                ctx.nt(t.forked)
                for u in tries:
                    if u is not t and any(u.model.get(x) not in (None, t.model[x]) for x in t.model):
                        ctx.nt()
                        ctx.tag("one key, two values")
            elif op == "fork":
                if len(tries) < 6:
                    at = o[2] % (len(t.past) + 1)
                    new = t.fork(nodes, at)
                    tries.append(new)
                    t.forked = new.forked = True
                    ctx.tag("fork of the past" if at < len(t.past) else "fork")
            elif op == "refused":
                if len(nodes):
                    refuses(EMPT, nodes, {}, types=ValueError, what="EMPT over nodes without a root")
                    refuses(EMPT, nodes, dict(t.model), types=ValueError, what="EMPT over nodes without a root")
                    ctx.tag("refused")
            elif op == "proof" and t.model:
                inc = k in t.model
                p = must(t.obj.get_proof_of_inclusion if inc else t.obj.get_proof_of_exclusion, k,
                         what="proof of %r %s" % (k, what))
                for i, u in enumerate(tries):
                    if u.model:
                        v = must(u.obj.verify_proof_of_inclusion if inc else u.obj.verify_proof_of_exclusion, p,
                                 what="verifying %s with trie %d" % (what, i))
                        fits = u.want() == t.want() and u.secure == t.secure
                        if fits or u.want() != t.want():
                            same(v, fits, "verdict of trie %d on a proof of another %s" % (i, what))
                            ctx.count("verdicts")
            moved = t
        for i, u in enumerate(tries):
            if u is moved or (i + step) % 3 == 0:
                u.check(keys, "of trie %d (%s) %s" % (i, u.kind, what))
            else:
                u.check_root("of trie %d (%s) %s" % (i, u.kind, what))
        if case["store"] == "record":
            ensure(not nodes.bad, "%s: %s", what, nodes.bad[:1])
    for i, u in enumerate(tries):
        u.check(keys, "of trie %d (%s) at the end" % (i, u.kind))
        for at in range(len(u.past)):
            v = u.fork(nodes, at)
            v.check(keys, "of root %d of trie %d (%s), opened at the end" % (at, i, u.kind))
    ctx.count("tries", len(tries))


def together_cases(tier):
    """Two tries over one storage, every order of four writes and removals of each of three."""
    most = 3 if tier == "quick" else 4
    ks = 3
    from itertools import product

    for kind in ("mpt", "sparse", "empt", "mpt-secure"):
        for n in range(1, most + 1):
            for seq in product(range(2 * (ks if n < 4 else 2)), repeat=n):
                yield {"kind": kind, "seq": list(seq)}


def check_together(case, ctx):
    """Both start with the same; trie 0 makes the moves, trie 1 the same in the
    reverse order; in between each is what its model says."""
    keys = [b"\x00", b"\x00\x10", b"\x01"]
    nodes = {}
    a = make(case["kind"], nodes, [])
    for k in keys[:2]:
        a.obj.update(k, b"start" * 7)
        a.model[k] = b"start" * 7
    b = a.fork(nodes, 0)
    b.check(keys, "of the fork")
    ctx.nt()
    for x, y in zip(case["seq"], reversed(case["seq"])):
        for t, m in ((a, x), (b, y)):
            k = keys[m // 2 % 3]
            if m % 2 and k in t.model:
                must(t.obj.delete, k)
                del t.model[k]
            else:
                must(t.obj.update, k, b"new" * (1 + m * 4))
                t.model[k] = b"new" * (1 + m * 4)
            a.check(keys, "of the first")
            b.check(keys, "of the second")


CAMPAIGNS = [
    Campaign("shared", lambda tier: cases(), check, 1600, 40000),
    Enumeration("together", together_cases, check_together),
]
