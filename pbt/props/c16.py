"""C16: the Merkle root is the reference root of the current leaves."""
from hypothesis import strategies as st

import refs
from engine import Campaign, Enumeration
from lib import attempt, ensure, must, refuses, same
from props import again, endurance, longs, merkle
from pymt.mt import MerkleTree

RULE = (
    "Histories of put, put_list, make_tree, reset_tree, root, leaf and proof queries on one tree; after "
    "each step count, length and leaves are those of the list of additions, and a root or proof that is "
    "handed out is that of the current leaves (all nine hash types, both modes). Every leaf count up to "
    "a limit is enumerated for every hash type and mode. Pairs of leaf lists one edit apart have "
    "different roots. Non-trivial: a root compared after further additions or a reset (histories), three "
    "leaves or more (counts), lists that differ (edits)."
) + merkle.RULE + endurance.RULE + again.RULE + longs.RULE
ASSUMPTIONS = ["The hash functions of hashlib are the standard ones."]


@st.composite
def histories(draw):
    n = st.integers(0, 30)
    op = st.one_of(
        st.tuples(st.just("put"), merkle.leaf()),
        st.tuples(st.just("put"), merkle.leaf()),
        st.tuples(st.just("list"), st.lists(merkle.leaf(), max_size=6)),
        st.tuples(st.just("make"), n), st.tuples(st.just("root"), n), st.tuples(st.just("root"), n),
        st.tuples(st.just("proof"), n), st.tuples(st.just("get"), n), st.tuples(st.just("text"), n),
        st.tuples(st.sampled_from(["reset", "verify", "verify"]), n),
    )
    size = draw(st.sampled_from([3, 8, 14]))
    return {"hash": draw(st.sampled_from(merkle.NAMES)), "secure": draw(st.booleans()),
            "upper": draw(st.booleans()),
            "ops": [["list", draw(merkle.leaves(1, 9))]] +
                   [list(o) for o in draw(st.lists(op, min_size=size, max_size=18))] + [["root", 0]]}


def hexed(x):
    return x.encode() if isinstance(x, str) else bytes(x)


def check(case, ctx):
    c = {"hash": case["hash"], "secure": case["secure"]}
    t = MerkleTree(secure=case["secure"],
                   hash_type=case["hash"].upper() if case["upper"] else case["hash"])
    same(t.secure, case["secure"], "secure")
    ls = []
    built = touched = False
    seen_root = False
    old = []  # proofs handed out earlier, with the leaves of then
    for step, (op, a) in enumerate(case["ops"]):
        what = "at step %d (%s)" % (step, op)
        ctx.tag("op " + op)
        if op == "put":
            must(t.put, a)
            ls.append(a)
            built = False
            touched = touched or seen_root
        elif op == "list":
            given = list(a) if step % 3 else tuple(a)
            must(t.put_list, given)
            same(list(given), a, "the list that was put")
            if isinstance(given, list):  # which is still the caller's
                given.reverse()
                given.append(b"of the caller")
            ls += a
            built = built and not a
            touched = touched or (seen_root and bool(a))
        elif op == "make":
            must(t.make_tree)
            built = True
        elif op == "reset":
            must(t.reset_tree)
            ls = []
            built = False
            touched = touched or seen_root
        elif op == "text":
            must(str, t)
            must(repr, t)
        elif op == "get" and ls:
            i = a % len(ls)
            same(hexed(must(t.get, i)), refs.merkle_leaf(c["hash"], c["secure"], ls[i]).hex().encode(),
                 "get(%d) %s" % (i, what))
        elif op == "root":
            if ls:
                same(must(t.get_merkle_root, what="get_merkle_root " + what), merkle.ref_root(c, ls),
                     "get_merkle_root %s with %d leaves" % (what, len(ls)))
                ctx.nt(touched)
                if touched:
                    ctx.tag("root after a change")
                seen_root = True
                built = True
            else:
                refuses(t.get_merkle_root, what="get_merkle_root of an empty tree " + what)
        elif op == "proof":
            v = ls[a % len(ls)] if ls else b"v"
            ok, p = attempt(t.get_proof_of_inclusion, v)
            if ok:
                ensure(bool(ls), "an empty tree gave a proof %s", what)
                merkle.good_proof(c, ls, p, v, what)
                old.append((p, list(ls)))
                ctx.count("proofs")
                seen_root = True
            else:
                ensure(not built or not ls, "no proof of a leaf %s: %r", what, p)
        elif op == "verify" and old and ls:
            p, then = old[a % len(old)]
            same(must(t.verify_proof_of_inclusion, p, what="verify " + what),
                 merkle.ref_root(c, then) == merkle.ref_root(c, ls),
                 "verdict on a proof of the leaves of earlier " + what)
            if then != ls:
                ctx.tag("stale proof judged")
            seen_root = built = True
        same(t.get_count(), len(ls), "get_count " + what)
        same(len(t), len(ls), "len " + what)
    for i, v in enumerate(ls):
        same(hexed(must(t.get, i)), refs.merkle_leaf(c["hash"], c["secure"], v).hex().encode(), "get(%d)" % i)
    refuses(t.get, len(ls), what="get past the end")


def count_cases(tier):
    top = 70 if tier == "quick" else 400
    for n in list(range(1, top)) + [127, 128, 129, 255, 256, 257]:
        for name in merkle.NAMES:
            if n > 40 and name not in ("sha256", "sha3_256") and n % 7:
                continue
            for secure in (False, True):
                yield {"hash": name, "secure": secure, "n": n}


def check_count(case, ctx):
    ls = [b"%d" % (i * 7919) for i in range(case["n"])]
    c = {"hash": case["hash"], "secure": case["secure"], "leaves": ls}
    want = merkle.ref_root(c)
    for chunk in (0, 3):
        t = merkle.build(c, chunk=chunk)
        same(must(t.get_merkle_root), want, "root of %d leaves" % case["n"])
        same(must(t.get_merkle_root), want, "root of %d leaves, asked again" % case["n"])
    t = MerkleTree(secure=c["secure"], hash_type=c["hash"])
    for i, v in enumerate(ls):
        t.put(v)
        if case["n"] <= 40 or i % 16 == 0:
            same(must(t.get_merkle_root), merkle.ref_root(c, ls[: i + 1]), "root after leaf %d" % i)
    ctx.nt(case["n"] >= 3)


@st.composite
def edits(draw):
    secure = draw(st.booleans())
    if secure:
        ls = draw(merkle.leaves(1, 17))
    else:
        n = draw(st.integers(1, 12))
        ls = [draw(st.binary(min_size=5, max_size=5)) for _ in range(n)]
    return {"hash": draw(st.sampled_from(merkle.NAMES)), "secure": secure, "leaves": ls,
            "edit": draw(st.sampled_from(["change", "swap", "insert", "remove", "append", "dup-last",
                                          "reverse", "rotate", "dup-all"])),
            "i": draw(st.integers(0, 30)), "j": draw(st.integers(0, 30)),
            "v": draw(st.binary(min_size=5, max_size=5))}


def check_edit(case, ctx):
    ls = case["leaves"]
    i, j, v = case["i"] % len(ls), case["j"] % len(ls), case["v"]
    new = list(ls)
    e = case["edit"]
    if e == "change":
        new[i] = v
    elif e == "swap":
        new[i], new[j] = new[j], new[i]
    elif e == "insert":
        new.insert(i, v)
    elif e == "remove":
        del new[i]
    elif e == "append":
        new.append(v)
    elif e == "dup-last":
        new.append(new[-1])
    elif e == "reverse":
        new.reverse()
    elif e == "rotate":
        new = new[1:] + new[:1]
    else:
        new = new + new
    if not new:
        return
    a, b = merkle.build(case), merkle.build(case, new)
    ra, rb = must(a.get_merkle_root), must(b.get_merkle_root)
    same((ra, rb), (merkle.ref_root(case), merkle.ref_root(case, new)), "roots")
    ctx.tag(e)
    if new != ls:
        ctx.nt()
        ensure(ra != rb, "two different leaf lists have one root (%s)", e)


CAMPAIGNS = [
    Enumeration("long values", longs.cases, longs.check_merkle),
    Campaign("history", lambda tier: histories(), check, 5000, 250000),
    Enumeration("counts", count_cases, check_count),
    Campaign("edits", lambda tier: edits(), check_edit, 4000, 150000),
    Campaign("large trees", lambda tier: merkle.large(), merkle.check_large_root, 64, 3000),
    Enumeration("endurance", endurance.small, endurance.check_merkle),
    Campaign("again", lambda tier: again.merkle_programs(), again.check_merkle_root, 1200, 60000),
]
