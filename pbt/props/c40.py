"""C40: an incomplete node storage never leads to a wrong answer."""
from hypothesis import strategies as st

import gens
import objs
import refs
from engine import Campaign, Enumeration
from lib import attempt, ensure, must, same
from pymt.empt import EMPT, SparseEMPT
from pymt.mpt import MPT

RULE = (
    "From the node storage of a generated plain, sparse or extended trie nodes are taken away (each one alone, all "
    "but the path of a key, random sets); on what is left every lookup, membership test, write, deletion and "
    "proof of stored, absent and near-miss keys runs on a trie of its own and on an untouched copy. It has to give "
    "what the copy gives, root included, or raise and leave the root alone, and reads, writes and proofs have to "
    "succeed while the nodes on the path of the key are there. Proofs made before have to verify all the same; "
    "with the nodes back everything is as it was. Non-trivial: a missing node made some operation fail while "
    "another one succeeded."
)
ASSUMPTIONS = ["Nodes are there unaltered or missing; a missing one makes the storage raise a key error."]


def outcome(fn):
    ok, r = attempt(fn)
    if not ok:
        return ("raised", None)
    if hasattr(r, "trie_root"):
        return ("proof", objs.proof_fields(r))
    if hasattr(r, "encode"):
        return ("reference", r.encode())
    return ("gave", r)


class Kind:
    """Makes tries of one kind over a given node storage."""

    def __init__(self, case):
        self.kind, self.secure = case["kind"], case["secure"]
        self.data = {}
        self.nodes = {}
        t = self.fresh(self.nodes, None)
        self.model = {}
        for k, v in zip(case["keys"], case["vals"]):
            t.update(k, v)
            self.model[k] = v
            self.data[k] = v
        for i in case["gone"]:
            k = case["keys"][i]
            t.delete(k)
            del self.model[k]
            del self.data[k]
        self.root = t.root()
        inside = {k: refs.data_reference(k, v) if self.kind != "mpt" else v for k, v in self.model.items()}
        self.inside = gens.inner(inside, self.secure)

    def fresh(self, nodes, root):
        if self.kind == "mpt":
            return MPT(nodes, root=root, secure=self.secure)
        if self.kind == "sparse":
            return SparseEMPT(nodes, root=root, secure=self.secure)
        if root is None:
            return EMPT(nodes, {}, secure=self.secure)
        return EMPT(nodes, dict(self.data), root=root, secure=self.secure)

    def path(self, key):
        """Keys of the stored nodes that lead to the key (or to where it ends)."""
        k = refs.keccak(key) if self.secure else key
        return {refs.keccak(e) for e, hashed in refs.trie_path(self.inside, k) if hashed}

    def stored(self):
        """Keys of all nodes that the trie refers to by hash."""
        if not self.inside:
            return []
        out = {refs.keccak(e) for e in refs.trie_nodes(self.inside) if len(e) >= 32} | {refs.trie_root(self.inside)}
        return sorted(x for x in out if x in self.nodes)

    def ops(self, key, value):
        get = (lambda t: t.get_reference(key)) if self.kind == "sparse" else (lambda t: t.get(key))
        return [("get", get, True), ("contains", lambda t: t.contains(key), True),
                ("inclusion proof", lambda t: t.get_proof_of_inclusion(key), True),
                ("exclusion proof", lambda t: t.get_proof_of_exclusion(key), True),
                ("update", lambda t: t.update(key, value), True),
                ("delete", lambda t: t.delete(key), False)]


def check(case, ctx):
    K = Kind(case)
    ctx.tag(K.kind, "secure" if K.secure else "plain")
    stored = K.stored()
    keys = gens.probes(K.model, case["keys"], 14)
    if not K.model:
        return
    losses = [{n} for n in stored]
    losses += [set(stored) - K.path(k) for k in keys[: case["more"]]]
    losses += [{n for i, n in enumerate(stored) if i % m == case["salt"] % m} for m in (2, 3)]
    losses.append(set(stored))
    seen = []
    for x in losses:
        if x and x not in seen:
            seen.append(x)
    failed = succeeded = 0
    for lost in seen[: case.get("limit", 24)]:
        what = "with %d of %d nodes missing" % (len(lost), len(stored))
        for k in keys:
            there = not (K.path(k) & lost)
            for name, op, path_is_enough in K.ops(k, case["value"]):
                full = K.fresh(dict(K.nodes), K.root)
                want = outcome(lambda: op(full))
                part_nodes = {n: e for n, e in K.nodes.items() if n not in lost}
                part = K.fresh(part_nodes, K.root)
                got = outcome(lambda: op(part))
                ctx.count("operations")
                if got[0] == "raised":
                    same(part.root(), K.root, "root after a failed %s of %r %s" % (name, k, what))
                    if want[0] != "raised":
                        failed += 1
                        ensure(not (there and path_is_enough),
                               "%s of %r fails %s, none of them on its path", name, k, what)
                        # Nothing is broken: with the nodes back it works.
                        part_nodes.update(K.nodes)
                        same(outcome(lambda: op(part)), want, "%s of %r with the nodes back" % (name, k))
                        same(part.root(), full.root(), "root after %s of %r with the nodes back" % (name, k))
                else:
                    succeeded += 1
                    same(got, want, "%s of %r %s" % (name, k, what))
                    same(part.root(), full.root(), "root after %s of %r %s" % (name, k, what))
                    same(part.root_hash(), full.root_hash(), "root hash after %s of %r %s" % (name, k, what))
    ctx.nt(failed and succeeded)
    # Verifying needs no stored node.
    full = K.fresh(dict(K.nodes), K.root)
    none = K.fresh({}, K.root)
    for k in keys:
        name = "inclusion" if k in K.model else "exclusion"
        p = must(getattr(full, "get_proof_of_" + name), k, what="%s proof of %r" % (name, k))
        ensure(must(getattr(none, "verify_proof_of_" + name), p, what="verifying without nodes") is True,
               "the %s proof of %r does not verify without the nodes", name, k)


@st.composite
def cases(draw):
    c = draw(gens.contents(1, 7))
    c["kind"] = draw(st.sampled_from(["mpt", "mpt", "mpt", "sparse", "empt"]))
    c["value"] = draw(gens.values())
    c["more"] = draw(st.integers(1, 6))
    c["salt"] = draw(st.integers(0, 5))
    c["limit"] = 12
    return c


def small(tier):
    for i, c in enumerate(gens.small_contents(gens.UNIVERSE[:7] if tier == "quick" else gens.UNIVERSE, 3,
                                              (b"v", b"w" * 33))):
        yield dict(c, kind="mpt", value=b"new" * (1 + i % 20), more=3, salt=i)


CAMPAIGNS = [
    Enumeration("small", small, check),
    Campaign("missing", lambda tier: cases(), check, 1000, 12000),
]
