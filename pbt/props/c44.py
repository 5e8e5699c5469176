"""C44: operations touch only the nodes on the way of their key."""
from hypothesis import strategies as st

import gens
import objs
import refs
from engine import Campaign, Enumeration
from lib import attempt, ensure, must, same
from props import endurance
from pymt.empt import EMPT, RootEMPT, SparseEMPT
from pymt.mpt import MPT

RULE = (
    "Tries over storages that note every access: every lookup, membership test, proof, verification, write and "
    "deletion of stored, absent and near-miss keys may read only the nodes that the reference walk passes on the "
    "way of the key (a deletion also the one node that takes the place of its branch, every operation also what "
    "it has just written), no more often than four times per node, may list nothing, and may write nothing (reads) "
    "or at most two nodes per node on the way and a few more. Opening, root queries and views from the root only "
    "may read no node; the data storage may be touched at the key only. Generated histories over small pools, and "
    "long ones over tries of up to 1500 entries. Non-trivial: a trie of which the way is not everything."
)
ASSUMPTIONS = ["The length of a storage may be asked at any time."]


class Store:
    """A dictionary that notes accesses by key, and listings."""

    def __init__(self):
        self.d = {}
        self.clear_log()

    def clear_log(self):
        self.reads, self.writes, self.removals, self.listings = [], [], [], []

    def __getitem__(self, k):
        self.reads.append(bytes(k))
        return self.d[k]

    def get(self, k, default=None):
        self.reads.append(bytes(k))
        return self.d.get(k, default)

    def __contains__(self, k):
        self.reads.append(bytes(k))
        return k in self.d

    def __setitem__(self, k, v):
        self.writes.append(bytes(k))
        self.d[k] = v

    def setdefault(self, k, v):
        self.writes.append(bytes(k))
        return self.d.setdefault(k, v)

    def __delitem__(self, k):
        self.removals.append(bytes(k))
        del self.d[k]

    def pop(self, k, *default):
        self.removals.append(bytes(k))
        return self.d.pop(k, *default)

    def __len__(self):
        return len(self.d)

    def _list(name):
        def f(self):
            self.listings.append(name)
            return getattr(self.d, name)()
        return f

    keys, values, items = _list("keys"), _list("values"), _list("items")
    __iter__, copy = _list("__iter__"), _list("copy")


def sibling(nodes, ways):
    """The stored node that moves up if the key at the end of the way goes."""
    for e in reversed(ways):
        s = refs.unrlp(e)
        if len(s) == 17:
            out = [r for r in s[:16] if isinstance(r, bytes) and len(r) == 32]
            return out if len([r for r in s[:16] if r != b""]) <= 2 else []
    return []


class Watch:
    """A trie of one kind over watched storages."""

    def __init__(self, kind, secure):
        self.kind, self.secure = kind, secure
        self.nodes, self.data = Store(), Store()
        if kind == "mpt":
            self.t = MPT(self.nodes, secure=secure)
        elif kind == "sparse":
            self.t = SparseEMPT(self.nodes, secure=secure)
        else:
            self.t = EMPT(self.nodes, self.data, secure=secure)
        self.quiet("making the trie")

    def quiet(self, what):
        n = self.nodes
        ensure(not (n.reads or n.writes or n.removals or n.listings),
               "%s touches the node storage: %d reads, %d writes, %d removals, listings %r",
               what, len(n.reads), len(n.writes), len(n.removals), n.listings)
        self.no_data(what)

    def no_data(self, what):
        d = self.data
        ensure(not (d.reads or d.writes or d.removals or d.listings), "%s touches the data", what)

    def way(self, key):
        root = self.t.root_hash() if len(self.t.root()) == 32 else self.t.root()
        if root == refs.EMPTY_ROOT:
            return [], []
        k = refs.keccak(key) if self.secure else key
        ways, hashes, _, _ = refs.trie_way(self.nodes.d.__getitem__, root, k)
        return ways, hashes

    def run(self, what, key, op, writes=False, delete=False, data=""):
        ways, hashes = self.way(key)
        allowed = set(hashes) | {refs.EMPTY_ROOT}
        if delete:
            allowed |= set(sibling(self.nodes, ways))
        before = len(self.nodes.d)
        self.nodes.clear_log()
        self.data.clear_log()
        ok, got = attempt(op)
        n, d = self.nodes, self.data
        what = "%s of %r in a trie of %d nodes (%d on the way)" % (what, key, before, len(hashes))
        ensure(not n.listings, "%s lists the node storage (%r)", what, n.listings)
        ensure(not n.removals, "%s removes nodes", what)
        if not writes:
            ensure(not n.writes, "%s writes %d nodes", what, len(n.writes))
        ensure(len(n.writes) <= 2 * (len(ways) + 3), "%s writes %d nodes", what, len(n.writes))
        odd = [r for r in n.reads if r not in allowed and r not in n.writes]
        ensure(not odd, "%s reads %d nodes that are not on the way", what, len(odd))
        ensure(len(n.reads) <= 4 * (len(ways) + 3), "%s reads %d nodes", what, len(n.reads))
        ensure(not d.listings, "%s lists the data (%r)", what, d.listings)
        for name, keys in (("reads", d.reads), ("writes", d.writes), ("removes", d.removals)):
            ensure(all(k == key for k in keys), "%s %s data of other keys: %r", what, name, keys)
            ensure(not keys or name in data, "%s %s data", what, name)
            ensure(len(keys) <= 2, "%s %s the data %d times", what, name, len(keys))
        return ok, got, len(set(hashes)) < before

    def reading(self, key, ctx):
        t = self.t
        get = t.get_reference if self.kind == "sparse" else t.get
        part = False
        ok, _, p = self.run("lookup", key, lambda: get(key), data="reads")
        part |= p
        if self.kind == "empt":
            self.run("reference", key, lambda: t.get_reference(key))
        _, there, p = self.run("membership", key, lambda: t.contains(key))
        part |= p
        self.run("membership", key, lambda: key in t)
        for name in ("inclusion", "exclusion"):
            ok, proof, _ = self.run(name + " proof", key, lambda: getattr(t, "get_proof_of_" + name)(key))
            if ok:
                self.nodes.clear_log()
                self.data.clear_log()
                same(must(getattr(t, "verify_proof_of_" + name), proof, what="verifying"), True,
                     "verdict on the %s proof of %r" % (name, key))
                self.quiet("verifying the %s proof of %r" % (name, key))
        self.nodes.clear_log()
        self.data.clear_log()
        root = t.root()
        t.root_hash()
        if self.kind == "mpt":
            MPT(self.nodes, root=root, secure=self.secure)
            hash(t)
        else:
            t.get_root_trie()
            if self.kind == "empt":
                EMPT(self.nodes, self.data, root=root, secure=self.secure)
                t.secure
            else:
                SparseEMPT(self.nodes, root=root, secure=self.secure)
        self.quiet("opening at the root, or asking for it,")
        ctx.count("reads", 5)
        return part

    def update(self, key, value, ctx):
        ok, got, part = self.run("update", key, lambda: self.t.update(key, value), writes=True, data="reads writes")
        ensure(ok, "update of %r raised %r", key, got)
        ctx.count("writes")
        return part

    def delete(self, key, ctx):
        _, _, part = self.run("deletion", key, lambda: self.t.delete(key), writes=True, delete=True,
                              data="reads removes")
        ctx.count("writes")
        return part


def check(case, ctx):
    w = Watch(case["kind"], case["secure"])
    ctx.tag(case["kind"], "secure" if case["secure"] else "plain")
    stored = set()
    for op, i, *v in case["ops"]:
        k = case["keys"][i]
        if op == "u":
            part = w.update(k, v[0], ctx)
            stored.add(k)
        else:
            part = w.delete(k, ctx)
            stored.discard(k)
        ctx.nt(part and len(stored) > 2)
    for k in gens.probes({k: b"" for k in stored}, case["keys"], 16):
        if w.reading(k, ctx):
            ctx.tag("read apart from other nodes")
        if k not in stored and stored:
            w.delete(k, ctx)


def big(case, ctx):
    w = Watch(["mpt", "sparse", "empt"][case["salt"] % 3], case["secure"])
    n = [0]

    def look(k, model):
        n[0] += 1
        if n[0] % 10 == 0:
            for q in (k, k + b"!", k[:-1]):
                w.reading(q, ctx)
            w.delete(k + b"?", ctx)

    for _ in endurance.steps(case, lambda k, v: w.update(k, v, ctx), lambda k: w.delete(k, ctx), look):
        pass
    ctx.nt()


@st.composite
def cases(draw):
    c = draw(gens.history(max_keys=9, max_ops=24))
    c["kind"] = draw(st.sampled_from(["mpt", "mpt", "sparse", "empt"]))
    return c


def small(tier):
    for i, c in enumerate(gens.small_contents(gens.UNIVERSE, 3 if tier == "quick" else 4, (b"v", b"w" * 33))):
        n = len(c["keys"])
        ops = [["u", j, c["vals"][j]] for j in range(n)] + [["d", i % n]]
        yield {"keys": c["keys"], "ops": ops, "kind": ["mpt", "mpt", "empt", "sparse"][i % 4], "secure": i % 7 == 0}


CAMPAIGNS = [
    Enumeration("small", small, check),
    Campaign("histories", lambda tier: cases(), check, 1500, 40000),
    Enumeration("endurance", endurance.small, big),
]
