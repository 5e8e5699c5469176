"""C42: an interrupted operation leaves the object before or after it."""
import sys

from hypothesis import strategies as st

import env
import gens
import objs
import refs
from engine import Campaign
from lib import attempt, ensure, must, same
from pymt.empt import EMPT, SparseEMPT
from pymt.merkletools import MerkleTools
from pymt.mpt import MPT
from pymt.mt import MerkleTree

RULE = (
    "A generated operation on a plain, sparse or extended trie or Merkle tree of a generated history is run once for "
    "every line of the library it executes and interrupted there (all lines of short operations, every n-th and the "
    "last ones of long ones), as by a keyboard interrupt. The object must then be exactly as before or as after the "
    "operation: root, contents, membership, stored data and iteration, or for trees "
    "leaves (of a list that is put any beginning), root and proofs (a root or proof of anything but the current "
    "leaves is wrong), and repeating "
    "the operation has to work. Non-trivial: "
    "an operation of more than three lines, for trees on at least one leaf."
)
ASSUMPTIONS = ["One interruption, between two lines of the library; not inside storages or dependencies."]


class Interrupt(BaseException):
    pass


def interrupted(fn, at):
    """Runs fn, raising Interrupt when line number `at` is about to run.
    Returns (how it ended, result, number of lines seen, where)."""
    seen = [0, None]

    def local(frame, event, arg):
        if event == "line":
            seen[0] += 1
            if seen[0] - 1 == at:
                seen[1] = frame.f_code.co_name
                raise Interrupt()
        return local

    def on_call(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(env.SRC) else None

    old = sys.gettrace()
    sys.settrace(on_call)
    try:
        r = fn()
        how = "ended"
    except Interrupt:
        how, r = "interrupted", None
    except Exception as e:
        how, r = "raised", type(e).__name__
    finally:
        sys.settrace(old)
    return how, r, seen[0], seen[1]


def lines_to_try(n, most):
    if n <= most:
        return list(range(n))
    step = n // most + 1
    return sorted(set(range(0, n, step)) | set(range(n - 12, n)) | set(range(6)))


class TrieCase:
    def __init__(self, case):
        self.case = case
        self.kind, self.secure = case["kind"], case["secure"]

    def make(self):
        data = {}
        t = {"mpt": lambda: MPT({}, secure=self.secure), "sparse": lambda: SparseEMPT(secure=self.secure),
             "empt": lambda: EMPT({}, data, secure=self.secure)}[self.kind]()
        model = {}
        for op in self.case["ops"]:
            k = self.case["keys"][op[1]]
            if op[0] == "u":
                t.update(k, op[2])
                model[k] = op[2]
            elif k in model:
                t.delete(k)
                del model[k]
        return t, model, data

    def operation(self, model):
        """(name, the operation, the contents after it)"""
        c = self.case
        k = c["keys"][c["target"] % len(c["keys"])]
        if model and c["target"] >= 4:
            k = sorted(model)[c["target"] % len(model)]
        v = c["value"]
        after = dict(model)
        name = c["op"]
        if self.kind != "empt" and name in ("pop", "setdefault", "popitem"):
            name = "delete"
        if name == "update":
            after[k] = v
            return name, lambda t: t.update(k, v), after
        if name == "setdefault":
            after.setdefault(k, v)
            return name, lambda t: t.setdefault(k, v), after
        if name in ("delete", "pop"):
            after.pop(k, None)
            return name, (lambda t: t.delete(k)) if name == "delete" else (lambda t: t.pop(k)), after
        if name == "inclusion":
            return name, lambda t: t.get_proof_of_inclusion(k), after
        if name == "exclusion":
            return name, lambda t: t.get_proof_of_exclusion(k), after
        return name, lambda t: t.contains(k), after

    def root(self, model):
        return (refs.trie_root(gens.inner(model, self.secure)) if self.kind == "mpt"
                else objs.ref_root(model, self.secure))

    def state(self, t, data, models, what):
        """Which of the models the trie holds."""
        got = must(t.root_hash, what="root_hash " + what)
        fit = [m for m in models if self.root(m) == got]
        ensure(fit, "%s the root is neither that of before nor that of after", what)
        m = fit[0]
        for k in self.case["keys"]:
            same(must(t.contains, k, what="contains " + what), k in m, "contains(%r) %s" % (k, what))
            if k in m:
                if self.kind == "sparse":
                    same(must(t.get_reference, k, what="get_reference(%r) %s" % (k, what)).data, m[k],
                         "reference of %r %s" % (k, what))
                else:
                    same(must(t.get, k, what="get(%r) %s" % (k, what)), m[k], "get(%r) %s" % (k, what))
        if self.kind == "empt":
            same(dict(data), m, "stored data " + what)
            same(len(t), len(m), "len " + what)
            same(sorted(t), sorted(m), "iteration " + what)
        return m


def check_tries(case, ctx):
    C = TrieCase(case)
    t, model, data = C.make()
    name, op, after = C.operation(model)
    ctx.tag(C.kind, "op " + name)
    how0, r0, n, _ = interrupted(lambda: op(t), -1)
    same(C.root(after), t.root_hash(), "root after " + name)
    states = set()
    for at in lines_to_try(n, case["most"]):
        t, model, data = C.make()
        how, r, _, where = interrupted(lambda: op(t), at)
        ctx.count("interruptions")
        what = "after %s was interrupted at line %d (%s)" % (name, at, where)
        if how == "ended":
            m = C.state(t, data, [after], what + " and returned")
        else:
            m = C.state(t, data, [model, after], what)
        states.add("after" if m == after else "before")
        if after != model or how0 == "ended":
            again, _, _, _ = interrupted(lambda: op(t), -1)
            if m == model:
                same(again, how0, "how %s ends when repeated %s" % (name, what))
            C.state(t, data, [after], "after %s was repeated, %s" % (name, what))
    ctx.nt(n > 3)
    ctx.tag("left " + " and ".join(sorted(states)))


@st.composite
def tries(draw):
    c = draw(gens.history(max_keys=5, max_ops=7, delete_share=1))
    c["kind"] = draw(st.sampled_from(["mpt", "mpt", "sparse", "empt", "empt"]))
    c["target"] = draw(st.integers(0, 12))
    c["value"] = draw(gens.values())
    c["op"] = draw(st.sampled_from(["update", "update", "update", "delete", "delete", "delete", "pop", "setdefault",
                                    "contains", "inclusion", "exclusion"]))
    c["most"] = draw(st.sampled_from([30, 30, 30, 300]))
    return c


# ------------------------------------------------------------------ Merkle trees
def tree_op(t, op, merkle):
    name, a = op
    put = t.put if merkle else t.add_leaf
    if name == "put":
        return lambda: put(a[0])
    if name == "list":
        if merkle:
            return lambda: t.put_list(list(a))
        return lambda: [put(v) for v in a]
    if name == "make":
        return t.make_tree
    if name == "reset":
        return t.reset_tree
    if name == "root":
        return t.get_merkle_root
    return lambda: t.get_proof_of_inclusion(a[0])


def tree_state(t, merkle, secure, hash_type, options, what):
    n = t.get_leaf_count()
    got = [must(t.get_leaf, i, what="leaf %d %s" % (i, what)) for i in range(n)]
    fit = [o for o in options if [refs.merkle_leaf(hash_type, secure, v).hex() for v in o] == got]
    ensure(fit, "%s the leaves are neither those of before, of after nor of in between", what)
    leaves = fit[0]
    ok, r = attempt(t.get_merkle_root)
    if ok and leaves:
        want = refs.merkle_root(hash_type, [refs.merkle_leaf(hash_type, secure, v) for v in leaves]).hex()
        same(r.decode() if isinstance(r, bytes) else r, want, "Merkle root " + what)
    ensure(leaves or not ok or not r, "%s an empty tree has the root %r", what, r)
    if ok and leaves:
        v = leaves[-1]
        okp, p = attempt(t.get_proof_of_inclusion, v)
        if okp and merkle:
            ensure(must(t.verify_proof_of_inclusion, p) is True, "%s the proof of %r does not verify", what, v)
    return leaves


def check_trees(case, ctx):
    merkle, secure, h = case["merkle"], case["secure"], "sha256"

    def make():
        t = MerkleTree(secure=secure) if merkle else MerkleTools(secure=secure)
        leaves = []
        for op in case["ops"]:
            attempt(tree_op(t, op, merkle))
            leaves = leaves + op[1] if op[0] == "list" else leaves + op[1][:1] if op[0] == "put" else \
                [] if op[0] == "reset" else leaves
        return t, leaves

    t, before = make()
    op = case["last"]
    # What the leaves may be: values are put one after the other.
    options = [before]
    if op[0] == "put":
        options.append(before + op[1][:1])
    elif op[0] == "list":
        options += [before + op[1][:i + 1] for i in range(len(op[1]))]
    elif op[0] == "reset":
        options.append([])
    ctx.tag("MerkleTree" if merkle else "MerkleTools", "op " + op[0])
    how0, _, n, _ = interrupted(tree_op(t, op, merkle), -1)
    for at in lines_to_try(n, 60):
        t, _ = make()
        how, r, _, where = interrupted(tree_op(t, op, merkle), at)
        ctx.count("interruptions")
        what = "after %s was interrupted at line %d (%s)" % (op[0], at, where)
        got = tree_state(t, merkle, secure, h, options, what)
        must(t.make_tree, what="make_tree " + what)
        tree_state(t, merkle, secure, h, [got], "after building, " + what)
        if got:
            must(t.get_merkle_root, what="root after building, " + what)
    ctx.nt(n > 2 and len(before) > 0)


def trees():
    leaf = gens.values()
    leaves = st.lists(leaf, min_size=1, max_size=5)
    op = st.tuples(st.sampled_from(["put", "list", "list", "make", "make", "reset", "root", "proof"]), leaves).map(list)
    return st.fixed_dictionaries({
        "merkle": st.booleans(), "secure": st.booleans(),
        "ops": st.tuples(leaves, st.booleans(), st.lists(op, max_size=4)).map(
            lambda x: [["list", x[0]]] + ([["make", x[0]]] if x[1] else []) + x[2]),
        "last": st.tuples(st.sampled_from(["make", "make", "make", "root", "proof", "put", "list", "list", "reset"]),
                          leaves).map(list)})


LEVEL = "fault_enumeration"

CAMPAIGNS = [
    Campaign("tries", lambda tier: tries(), check_tries, 400, 7000),
    Campaign("trees", lambda tier: trees(), check_trees, 800, 14000),
]
