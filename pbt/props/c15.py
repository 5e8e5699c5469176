"""C15: separate tries never share state."""
from hypothesis import strategies as st

import gens
import objs
import refs
from engine import Campaign
from lib import attempt, ensure, must, refuses, same
from pymt.empt import EMPT, RootEMPT, SparseEMPT
from pymt.mpt import MPT
from pymt.mt import MerkleTree

RULE = (
    "Several tries and Merkle trees of all classes, made with and without naming storages, as copies, "
    "views and reloaded forms of one another, some made in the middle; operations go to one of them at "
    "a time and after each everything observable of all the others (root, length, iteration, contents, "
    "membership) is compared with a model of its own. New objects have to start empty. Each case runs "
    "in a process of its own. Non-trivial: an operation changed one of at least two objects, of which "
    "another held something or was made later without naming a storage."
)
ASSUMPTIONS = ["Objects are given different storages unless they are made without any."]

MAKE = ["empt", "empt", "empt-secure", "empt-data", "empt-nodes", "sparse", "sparse", "sparse-secure",
        "mpt", "tree", "tree", "tree-plain", "tree-plain", "view", "root", "reload", "again"]


@st.composite
def cases(draw):
    keys = draw(gens.key_pool(1, 4))
    op = st.one_of(
        st.tuples(st.just("make"), st.sampled_from(MAKE), st.integers(0, 9)),
        st.tuples(st.just("put"), st.integers(0, 9), st.integers(0, 9), gens.values()),
        st.tuples(st.just("put"), st.integers(0, 9), st.integers(0, 9), gens.values()),
        st.tuples(st.just("put"), st.integers(0, 9), st.integers(0, 9), gens.values()),
        st.tuples(st.just("del"), st.integers(0, 9), st.integers(0, 9)),
        st.tuples(st.just("clear"), st.integers(0, 9)),
        st.tuples(st.just("build"), st.integers(0, 9)),
        st.tuples(st.just("read"), st.integers(0, 9), st.integers(0, 9)),
        st.tuples(st.just("list"), st.integers(0, 9), st.integers(0, 9)),
        st.tuples(st.just("list"), st.integers(0, 9), st.integers(0, 9)),
        st.tuples(st.just("grow"), st.integers(0, 9), st.integers(0, 9), gens.values()),
    )
    ops = [["make", draw(st.sampled_from(MAKE[:-4])), 0] for _ in range(draw(st.integers(1, 3)))]
    for i in range(len(ops)):  # most hold something from the start
        if draw(st.sampled_from([1, 1, 1, 0])):
            if draw(st.sampled_from([0, 0, 1])):
                ops.append(["list", i, 0])
            ops.append(["put", i, draw(st.integers(0, 3)), draw(gens.values())])
            if draw(st.booleans()):
                ops.append(["make", draw(st.sampled_from(["view", "root", "reload", "again"])), draw(st.integers(0, 9))])
    ops += [list(o) for o in draw(st.lists(op, min_size=draw(st.sampled_from([6, 2, 1])), max_size=16))]
    ops += [["make", draw(st.sampled_from(["empt", "sparse", "tree", "empt-secure"])), 0]]
    return {"keys": keys, "ops": ops}


class Thing:
    def __init__(self, kind, obj, model, secure):
        self.kind, self.obj, self.model, self.secure = kind, obj, model, secure
        self.code = None
        self.moved()

    def bulk(self):
        """The size and the serialised form, which no other object may change."""
        if self.kind == "mpt":
            return len(self.obj), must(self.obj.encode)
        if self.kind in ("sparse", "root"):
            return must(self.obj.encode_rlp)
        return None

    def moved(self):
        self.size = self.bulk()

    def root(self):
        if self.kind == "tree":
            if not self.model:
                return None
            return refs.merkle_root("sha256", [
                refs.merkle_leaf("sha256", self.secure, v) for v in self.model]).hex().encode()
        if self.kind in ("empt", "sparse", "root"):
            return objs.ref_root(self.model, self.secure)
        return refs.trie_root(gens.inner(self.model, self.secure))

    def check(self, keys, what):
        o, m = self.obj, self.model
        what = "%s (a %s)" % (what, self.kind)
        same(self.bulk(), self.size, "size and serialised form " + what)
        if self.kind == "tree":
            same(o.get_count(), len(m), "number of leaves " + what)
            same(len(o), len(m), "len " + what)
            for i, v in enumerate(m):
                same(must(o.get, i, what="get(%d)" % i),
                     refs.merkle_leaf("sha256", self.secure, v).hex(), "leaf %d %s" % (i, what))
            ok, r = attempt(o.get_merkle_root)
            if m:
                same(r, self.root(), "Merkle root " + what)
            return
        same(must(o.root_hash), self.root(), "root hash " + what)
        if self.kind == "root":
            return
        for k in keys:
            same(must(o.contains, k), k in m, "contains(%r) %s" % (k, what))
        if self.kind == "empt":
            same(len(o), len(m), "len " + what)
            same(set(o), set(m), "keys " + what)
            for k in m:
                same(must(o.get, k, what="get(%r) %s" % (k, what)), m[k], "get(%r) %s" % (k, what))
        elif self.kind == "mpt":
            for k in m:
                same(must(o.get, k), m[k], "get(%r) %s" % (k, what))
        else:
            for k in m:
                same(must(o.get_reference, k).data, m[k], "reference of %r %s" % (k, what))


def make(kind, things, n):
    plain = {
        "empt": lambda: Thing("empt", EMPT(), {}, False),
        "empt-secure": lambda: Thing("empt", EMPT(secure=True), {}, True),
        "empt-data": lambda: Thing("empt", EMPT(data_storage={}), {}, False),
        "empt-nodes": lambda: Thing("empt", EMPT(trie_storage={}), {}, False),
        "sparse": lambda: Thing("sparse", SparseEMPT(), {}, False),
        "sparse-secure": lambda: Thing("sparse", SparseEMPT(secure=True), {}, True),
        "mpt": lambda: Thing("mpt", MPT({}), {}, False),
        "tree": lambda: Thing("tree", MerkleTree(), [], True),
        "tree-plain": lambda: Thing("tree", MerkleTree(secure=False), [], False),
    }
    if kind in plain:
        return must(plain[kind], what="making a %s" % kind)
    if kind == "view":
        src = [t for t in things if t.kind == "empt"]
        if not src:
            return None
        t = src[n % len(src)]
        return Thing("sparse", must(t.obj.get_sparse_trie), dict(t.model), t.secure)
    if kind == "root":
        src = [t for t in things if t.kind in ("empt", "sparse")]
        if not src:
            return None
        t = src[n % len(src)]
        return Thing("root", must(t.obj.get_root_trie), dict(t.model), t.secure)
    src = [t for t in things if t.kind in ("mpt", "sparse", "root")]
    if kind == "again":  # from bytes that another one was made of
        src = [t for t in src if t.code] or src
    if not src:
        return None
    t = src[n % len(src)]
    if kind == "again" and t.code:
        code, model = t.code
    else:
        code, model = must(t.obj.encode if t.kind == "mpt" else t.obj.encode_rlp), dict(t.model)
    cls = {"mpt": MPT.decode, "sparse": SparseEMPT.decode_rlp, "root": RootEMPT.decode_rlp}[t.kind]
    new = Thing(t.kind, must(cls, code, what="decoding"), dict(model), t.secure)
    new.code = t.code = code, dict(model)
    return new


def check(case, ctx):
    keys = case["keys"]
    things = []
    changed = False
    mine, mine_now = [], []  # a list of the caller, and what it should hold
    for step, op in enumerate(case["ops"]):
        what = "after step %d (%s)" % (step, op[0])
        if op[0] == "make":
            if len(things) >= 7:
                continue
            t = make(op[1], things, op[2])
            if t is None:
                continue
            things.append(t)
            ctx.tag("made " + op[1])
            ctx.nt(changed)
        elif things:
            t = things[op[1] % len(things)]
            o, m = t.obj, t.model
            k = keys[(op[2] if len(op) > 2 else 0) % len(keys)]
            if op[0] == "grow":
                mine.append(op[3])
                mine_now.append(op[3])
            if t.kind == "root":
                continue
            if op[0] == "put":
                if t.kind == "tree":
                    must(o.put, op[3], what="put")
                    m.append(op[3])
                else:
                    must(o.update, k, op[3], what="update(%r)" % k)
                    m[k] = op[3]
                changed = True
                ctx.nt(any(x is not t and x.model for x in things))
            elif op[0] == "del":
                if t.kind != "tree" and k in m:
                    must(o.delete, k, what="delete(%r)" % k)
                    del m[k]
                    changed = True
                    ctx.nt(any(x is not t and x.model for x in things))
            elif op[0] == "list":
                if not mine:
                    mine += keys
                    mine_now += keys
                if t.kind == "tree":
                    must(o.put_list, mine, what="put_list")
                    m.extend(mine_now)
                    changed = True
                    ctx.nt(any(x is not t and x.model for x in things))
            elif op[0] == "clear":
                if t.kind == "tree":
                    must(o.reset_tree, what="reset_tree")
                    del m[:]
                elif t.kind == "empt":
                    must(o.clear, what="clear")
                    m.clear()
            elif op[0] == "build":
                if t.kind == "tree" and m:
                    must(o.make_tree, what="make_tree")
                elif t.kind == "empt":
                    must(o.build_trie, what="build_trie")
            elif op[0] == "read":
                if t.kind == "tree":
                    if m:
                        must(o.make_tree, what="make_tree")
                        must(o.get_proof_of_inclusion, m[0], what="get_proof_of_inclusion")
                elif m:
                    attempt(o.get_proof_of_exclusion, k)
                    attempt(o.get_proof_of_inclusion, k)
            ctx.tag("op " + op[0])
            t.moved()
        same(mine, mine_now, "the list given to trees " + what)
        for i, t in enumerate(things):
            t.check(keys, "of object %d %s" % (i, what))
    ctx.count("objects", len(things))


CAMPAIGNS = [Campaign("objects", lambda tier: cases(), check, 1600, 60000, isolate=True)]
