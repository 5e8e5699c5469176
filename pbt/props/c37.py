"""C37: the Merkle tools, used directly, follow the reference rule."""
from hypothesis import strategies as st

import gens
import refs
from engine import Campaign, Enumeration
from lib import attempt, ensure, must, refuses, same
from props import again, merkle
from pymt import MerkleTools

RULE = (
    "Histories of add_leaf, make_tree, reset_tree and all queries on a MerkleTools object, next to the list "
    "of leaves and whether the tree is made: state, count, leaves, root and proofs in hexadecimal are those "
    "of the reference rule, and refused while the tree is not made for the leaves of then. Every leaf count "
    "up to a limit for every hash type, mode and letter case; every leaf's proof. Generated proofs (genuine "
    "and altered: sibling, side, order, length, target, root; up to a thousand siblings) are judged exactly as the "
    "reference fold says. "
    "Non-trivial: root or proof compared after a further change (histories), three leaves or more (counts), "
    "an altered proof (verdicts)."
) + again.RULE
ASSUMPTIONS = [
    "Proofs hold one of the sides left and right per item and hexadecimal siblings; others are not judged here.",
    "The hash functions of hashlib are the standard ones.",
]


def letters(name, how):
    return [name, name.upper(), name.capitalize(), name[:-1] + name[-1].upper()][how % 4]


def tools(c):
    return must(MerkleTools, hash_type=letters(c["hash"], c.get("case", 0)), secure=c["secure"],
                what="MerkleTools(%r)" % letters(c["hash"], c.get("case", 0)))


def give(v, how):
    return bytearray(v) if how % 3 == 0 else v


@st.composite
def histories(draw):
    n = st.integers(0, 30)
    op = st.one_of(
        st.tuples(st.just("add"), merkle.leaf(), n), st.tuples(st.just("add"), merkle.leaf(), n),
        st.tuples(st.just("make"), n), st.tuples(st.just("make"), n),
        st.tuples(st.just("root"), n), st.tuples(st.just("proof"), n), st.tuples(st.just("proof"), n),
        st.tuples(st.just("absent"), merkle.leaf()),
        st.tuples(st.sampled_from(["text", "reset", "verify", "verify", "compare"]), n))
    start = [["add", v, i + 1] for i, v in enumerate(draw(merkle.leaves(1, 9)))]
    if draw(st.booleans()):
        start.append(["make", 0])
    return {"hash": draw(st.sampled_from(merkle.NAMES)), "secure": draw(st.booleans()), "case": draw(st.integers(0, 3)),
            "ops": start + [list(o) for o in draw(st.lists(op, min_size=3, max_size=18))] + [["make", 0], ["root", 0]]}


def siblings(proof, what):
    """[(side, bytes)] of a proof as the tools hand it out."""
    ensure(isinstance(proof, list), "%s is a %s", what, type(proof).__name__)
    out = []
    for p in proof:
        ensure(isinstance(p, dict) and len(p) == 1, "%s has the item %r", what, p)
        (side, h), = p.items()
        ensure(side in ("left", "right") and isinstance(h, str), "%s has the item %r", what, p)
        ok, b = attempt(bytes.fromhex, h)
        ensure(ok, "%s has the sibling %r", what, h)
        out.append((side.encode(), b))
    return out


def leaf_hash(c, v):
    return refs.merkle_leaf(c["hash"], c["secure"], v)


def good(c, ls, proof, v, what):
    sib = siblings(proof, what)
    hs = [leaf_hash(c, x) for x in ls]
    same(refs.merkle_fold(c["hash"], leaf_hash(c, v), sib).hex(), refs.merkle_root(c["hash"], hs).hex(),
         "what %s folds to" % what)
    ensure(sib in [refs.merkle_path(c["hash"], hs, i) for i, h in enumerate(hs) if h == leaf_hash(c, v)],
           "%s is not the path of a leaf with that value", what)


def check(case, ctx):
    c = case
    t = tools(c)
    same(t.secure, c["secure"], "secure")
    ls, made, changed = [], False, False
    old = []
    for step, o in enumerate(c["ops"]):
        op, a = o[0], o[1]
        what = "at step %d (%s)" % (step, op)
        ctx.tag("op " + op)
        root = refs.merkle_root(c["hash"], [leaf_hash(c, v) for v in ls]) if ls else None
        if op == "add":
            given = give(a, o[2])
            must(t.add_leaf, given, what="add_leaf " + what)
            if isinstance(given, bytearray):  # still the caller's
                given.extend(b"of the caller")
            ls.append(a)
            changed = changed or made
            made = False
        elif op == "make":
            must(t.make_tree, what="make_tree " + what)
            made = True
        elif op == "reset":
            must(t.reset_tree)
            changed = changed or made
            ls, made = [], False
        elif op == "text":
            must(str, t)
            must(repr, t)
        elif op == "root":
            if made and ls:
                got = must(t.get_merkle_root, what="get_merkle_root " + what)
                same(got, root.hex(), "get_merkle_root %s with %d leaves" % (what, len(ls)))
                ctx.nt(changed)
            else:
                refuses(t.get_merkle_root, types=ValueError, what="get_merkle_root " + what)
        elif op == "proof" and ls:
            v = ls[a % len(ls)]
            if made:
                p = must(t.get_proof_of_inclusion, give(v, a), what="proof " + what)
                good(c, ls, p, v, "the proof " + what)
                ensure(must(t.verify_proof_of_inclusion, p, leaf_hash(c, v), root) is True,
                       "the proof %s does not verify", what)
                ctx.nt(changed)
                old.append((p, v, list(ls)))
            else:
                refuses(t.get_proof_of_inclusion, v, types=ValueError, what="proof " + what)
        elif op == "absent":
            if leaf_hash(c, a) not in [leaf_hash(c, v) for v in ls]:
                refuses(t.get_proof_of_inclusion, a, types=ValueError, what="proof of what was not added " + what)
        elif op == "verify" and old:
            p, v, then = old[a % len(old)]
            was = refs.merkle_root(c["hash"], [leaf_hash(c, x) for x in then])
            for r in (was, root) if root else (was,):
                same(must(t.verify_proof_of_inclusion, p, leaf_hash(c, v), r, what="verify " + what), r == was,
                     "verdict %s on a proof of earlier" % what)
        elif op == "compare" and made and ls:
            u = tools(c)
            for v in ls:
                u.add_leaf(v)
            u.make_tree()
            ensure(t == u and u == t and hash(t) == hash(u), "two tools with the same leaves differ %s", what)
            u.add_leaf(b"one more")
            u.make_tree()
            ensure(not t == u and not u == t, "tools with other leaves are equal %s", what)
        same((t.get_leaf_count(), len(t)), (len(ls), len(ls)), "count " + what)
        same(t.get_tree_ready_state(), made, "ready state " + what)
        for i, v in enumerate(ls[:40]):
            same(must(t.get_leaf, i), leaf_hash(c, v).hex(), "get_leaf(%d) %s" % (i, what))
        refuses(t.get_leaf, len(ls), what="get_leaf past the end")


def count_cases(tier):
    for n in range(1, 40 if tier == "quick" else 300):
        for j, name in enumerate(merkle.NAMES):
            if n > 17 and (n + j) % 3:
                continue
            yield {"hash": name, "secure": bool((n + j) % 2), "case": n + j, "n": n}


def check_count(case, ctx):
    c = case
    ls = [b"%d" % (i * 7919) for i in range(c["n"])]
    t = tools(c)
    for v in ls:
        t.add_leaf(v)
    refuses(t.get_merkle_root, types=ValueError, what="root before the tree is made")
    t.make_tree()
    root = refs.merkle_root(c["hash"], [leaf_hash(c, v) for v in ls])
    same(must(t.get_merkle_root), root.hex(), "root of %d leaves" % c["n"])
    ctx.nt(c["n"] >= 3)
    for i, v in enumerate(ls):
        p = must(t.get_proof_of_inclusion, v)
        good(c, ls, p, v, "the proof of leaf %d of %d" % (i, c["n"]))
        same(siblings(p, "proof"), refs.merkle_path(c["hash"], [leaf_hash(c, x) for x in ls], i), "proof of leaf %d" % i)
        same(must(t.verify_proof_of_inclusion, p, leaf_hash(c, v), root), True, "verdict on it")
        same(must(t.verify_proof_of_inclusion, p, leaf_hash(c, v + b"!"), root), False, "verdict for another leaf")


ALTERATIONS = ["sibling", "side", "swap", "drop", "twice", "target", "root", "empty", "extend", "other root", "tail",
               "truncate", "lengthen", "none"]


@st.composite
def verdicts(draw):
    return dict(draw(merkle.trees(1, 12)), case=draw(st.integers(0, 3)), i=draw(st.integers(0, 30)),
                how=draw(st.lists(st.tuples(st.sampled_from(ALTERATIONS), st.integers(0, 600)), min_size=1, max_size=3)))


def check_verdict(case, ctx):
    c, ls = case, case["leaves"]
    t = tools(c)
    for v in ls:
        t.add_leaf(v)
    t.make_tree()
    hs = [leaf_hash(c, v) for v in ls]
    root = refs.merkle_root(c["hash"], hs)
    i = c["i"] % len(ls)
    p = must(t.get_proof_of_inclusion, ls[i])
    good(c, ls, p, ls[i], "the proof of leaf %d" % i)
    sib, target, claimed = siblings(p, "proof"), hs[i], root
    for how, n in c["how"]:
        ctx.tag(how)
        j = n % len(sib) if sib else None
        if how == "target":
            target = hs[n % len(hs)] if n % 3 else leaf_hash(c, ls[i] + b"!")
        elif how == "root":
            b = bytearray(claimed)
            if b:
                b[n % len(b)] ^= 1 << n % 8
            claimed = bytes(b)
        elif how == "other root":
            claimed = refs.merkle_root(c["hash"], hs[: 1 + n % len(hs)])
        elif how == "empty":
            sib = []
            claimed = target if n % 2 else claimed
        elif how == "extend":
            sib = sib + [(b"left" if n % 2 else b"right", hs[n % len(hs)])]
            if n % 3 == 0:
                claimed = refs.merkle_fold(c["hash"], target, sib)
        elif how == "truncate":
            claimed = claimed[:-1]
        elif how == "lengthen":
            claimed = claimed + b"\x00"
        elif j is None:
            continue
        elif how == "sibling":
            b = bytearray(sib[j][1])
            if b:
                b[n % len(b)] ^= 1 << n % 8
            sib[j] = (sib[j][0], bytes(b))
        elif how == "side":
            sib[j] = (b"left" if sib[j][0] == b"right" else b"right", sib[j][1])
        elif how == "swap":
            k = (j + 1) % len(sib)
            sib[j], sib[k] = sib[k], sib[j]
        elif how == "drop":
            del sib[j]
        elif how == "twice":
            sib.insert(j, sib[j])
        elif how == "tail":
            sib = sib[: j]
    want = refs.merkle_fold(c["hash"], target, sib) == claimed
    given = [{s.decode(): (h.hex().upper() if c["i"] % 4 == 3 else h.hex())} for s, h in sib]
    keep = [dict(x) for x in given]
    before = (t.get_leaf_count(), t.get_merkle_root())
    got = must(t.verify_proof_of_inclusion, given, target, claimed, what="verifying")
    same(got, want, "verdict on a proof of %d items for leaf %d of %d after %s" % (len(sib), i, len(ls), c["how"]))
    same(given, keep, "the proof that was given")
    same((t.get_leaf_count(), t.get_merkle_root()), before, "the tree after verifying")
    ctx.tag("accepted" if want else "rejected")
    ctx.nt(any(h != "none" for h, _ in c["how"]))


BAD_TYPES = ["", "sha", "sha1", "sha-256", "sha256 ", " sha256", "sha3", "sha3-256", "keccak", "blake2b", "shake_128",
             "shake_256", "md4", "sha512_256", "new", "__class__", "algorithms_available", "sha2", "SHA3_255", "md5\n"]


def type_cases(tier):
    for b in BAD_TYPES:
        yield {"bad": b}
    for n in merkle.NAMES:
        for i in range(4):
            yield {"good": letters(n, i)}


def check_type(case, ctx):
    if "bad" in case:
        refuses(MerkleTools, hash_type=case["bad"], what="MerkleTools(%r)" % case["bad"])
        refuses(MerkleTools, case["bad"], True, what="MerkleTools(%r)" % case["bad"])
    else:
        t = must(MerkleTools, case["good"])
        same(t.secure, False, "secure by default")
        t.add_leaf(b"a")
        t.add_leaf(b"b")
        t.make_tree()
        same(t.get_merkle_root(), refs.H(case["good"].lower(), b"ab").hex(), "root")
        ctx.nt()


# ------------------------------------------------------------------ long proofs
def longs(tier):
    for i, n in enumerate(sorted({33, 40, 64, 65, 100, 128, 129, 200, 256, 257, 300, 1000}
                                 | {x for x in gens.SMALL_SIZES if x > 32})):
        yield {"hash": merkle.NAMES[i % len(merkle.NAMES)], "n": n}


def check_long(case, ctx):
    """Lists of siblings longer than those of any tree that fits a memory."""
    n, name = case["n"], case["hash"]
    t = tools({"hash": name, "secure": False})
    target = refs.merkle_leaf(name, True, b"leaf")
    sib = [((b"left", b"right")[(i * i + n) % 3 % 2], refs.merkle_leaf(name, True, b"%d" % i)) for i in range(n)]
    root = refs.merkle_fold(name, target, sib)

    def ask(sib, target=target, root=root):
        return must(t.verify_proof_of_inclusion, [{s.decode(): h.hex()} for s, h in sib], target, root, what="verifying")

    ctx.nt()
    same(ask(sib), True, "verdict on a proof of %d siblings" % n)
    for i in sorted({0, 1, n // 2, min(n - 1, 32), min(n - 1, 64), n - 2, n - 1}):
        s, h = sib[i]
        other = b"left" if s == b"right" else b"right"
        for x in (sib[:i] + [(other, h)] + sib[i + 1:], sib[:i] + sib[i + 1:], sib[:i] + [(s, target)] + sib[i + 1:]):
            same(ask(x), refs.merkle_fold(name, target, x) == root,
                 "verdict on a proof of %d siblings altered at %d" % (n, i))
    same(ask(sib, refs.merkle_leaf(name, True, b"other")), False, "verdict on another target")
    for k in (1, 32, 64, n // 2):
        if k < n:
            part = refs.merkle_fold(name, target, sib[:k])
            same(ask(sib, root=part), False, "verdict on the root of the first %d of %d siblings" % (k, n))
            same(ask(sib[:k], root=part), True, "verdict on %d siblings" % k)


CAMPAIGNS = [
    Enumeration("long", longs, check_long),
    Campaign("history", lambda tier: histories(), check, 4000, 120000),
    Enumeration("counts", count_cases, check_count),
    Campaign("verdicts", lambda tier: verdicts(), check_verdict, 6000, 200000),
    Enumeration("types", type_cases, check_type, shards=1),
    Campaign("again", lambda tier: again.merkle_programs(), again.check_tools, 1200, 40000),
]
