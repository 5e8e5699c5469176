"""C18: no Merkle proof verifies for a value that was not put."""
from hypothesis import strategies as st

import refs
from engine import Campaign
from lib import attempt, ensure, must, same
from props import again, merkle
from pymt.mt import MerkleTree
from pymt.proof import Proof

RULE = (
    "Genuine proofs with one or two alterations (target, sibling, side, order, length, root, text of a "
    "hash), proofs of near-equal trees, and made-up proofs. The verdict has to equal an independent fold "
    "of the decoded siblings from the leaf hash of the target to the claimed root, together with that "
    "root being the tree's; an accepted target has to be a leaf unless it is of the class listed as known "
    "finding. Proofs are also judged right after a genuine one for the same or another value, several times, "
    "and again after a further leaf. Non-trivial: a proof that must be rejected although the tree has at least two leaves."
) + merkle.RULE + again.RULE
ASSUMPTIONS = ["No hash collisions among the generated inputs."]

ALTER = ["target-flip", "target-add", "target-cut", "target-other", "target-node", "target-pair",
         "sib-flip", "sib-node", "sib-cut", "sib-add", "sib-leafhash", "sib-upper", "sib-space", "sib-nohex",
         "sib-odd", "sib-empty", "sib-bytes", "side", "side-name", "side-bytes", "side-all",
         "order-swap", "order-reverse", "drop", "drop-first", "drop-last", "drop-all", "dup", "insert", "append-root",
         "root-flip", "root-cut", "root-node", "root-nohex", "root-empty", "root-upper", "root-fold", "shift"]


@st.composite
def cases(draw):
    c = draw(merkle.trees(1, 17))
    n = draw(st.sampled_from([1, 1, 1, 2, 2, 3]))
    return {"t": c, "leaf": draw(st.integers(0, 40)),
            "by": [[draw(st.sampled_from(ALTER)), draw(st.integers(0, 40)), draw(st.integers(0, 40))]
                   for _ in range(n)],
            "other": draw(st.sampled_from([None, None, None, "change", "add", "hash", "mode", "order"])),
            "before": draw(st.integers(0, 3)), "grow": draw(st.one_of(st.none(), st.none(), merkle.leaf()))}


def nodes(c, ls):
    level = merkle.ref_leaves(c, ls)
    out = list(level)
    while len(level) > 1:
        nxt = [refs.H(c["hash"], level[i] + level[i + 1]) for i in range(0, len(level) - 1, 2)]
        if len(level) % 2:
            nxt.append(level[-1])
        level = nxt
        out += level
    return out


def flip(b, i):
    if not b:
        return b"\x01"
    i %= len(b) * 8
    return b[: i // 8] + bytes([b[i // 8] ^ (1 << (i % 8))]) + b[i // 8 + 1:]


def alter(c, ls, target, sib, root, by):
    """sib: list of [side, text]; returns the same three, altered."""
    kind, i, j = by
    part, how = (kind.split("-") + [""])[:2]
    pool = nodes(c, ls)
    node = pool[j % len(pool)]
    if part == "target":
        if how == "flip":
            target = flip(target, i)
        elif how == "add":
            target = target + b"\x00"
        elif how == "cut":
            target = target[:-1]
        elif how == "other":
            target = ls[i % len(ls)]
        elif how == "node":
            target = node
        else:
            target = pool[(2 * i) % len(pool)] + pool[(2 * i + 1) % len(pool)]
    elif part == "root":
        if how == "flip":
            try:
                root = flip(bytes.fromhex(root.decode()), i).hex().encode()
            except ValueError:
                pass
        elif how == "cut":
            root = root[:-2]
        elif how == "node":
            root = node.hex().encode()
        elif how == "nohex":
            root = b"zz" + root[2:]
        elif how == "empty":
            root = b""
        elif how == "upper":
            root = root.upper()
        else:
            d = merkle.decode_siblings(sib)
            if d is not None:
                root = refs.merkle_fold(c["hash"], refs.merkle_leaf(c["hash"], c["secure"], target), d).hex().encode()
    elif part == "insert":
        sib.insert(i % (len(sib) + 1), [b"left" if j % 2 else b"right", node.hex().encode()])
    elif part == "append":
        sib.append([b"left" if j % 2 else b"right", root])
    elif not sib:
        return target, sib, root
    elif part == "sib":
        s = sib[i % len(sib)]
        if how == "flip":
            try:
                s[1] = flip(bytes.fromhex(s[1].decode()), j).hex().encode()
            except ValueError:
                pass
        elif how == "node":
            s[1] = node.hex().encode()
        elif how == "leafhash":
            s[1] = refs.H(c["hash"], target).hex().encode()
        else:
            s[1] = {"cut": s[1][:-2], "add": s[1] + b"00", "upper": s[1].upper(), "space": s[1][:2] + b" " + s[1][2:],
                    "nohex": b"g" + s[1][1:], "odd": s[1][:-1], "empty": b"", "bytes": b"\xff\xfe" + s[1]}[how]
    elif part == "side":
        s = sib[i % len(sib)]
        if how == "":
            s[0] = b"left" if s[0] == b"right" else b"right"
        elif how == "name":
            s[0] = [b"", b"LEFT", b"Right", b"up", b"left ", b"l"][j % 6]
        elif how == "bytes":
            s[0] = b"\xff\xfe"
        else:
            for s in sib:
                s[0] = b"left" if s[0] == b"right" else b"right"
    elif part == "order":
        if how == "reverse":
            sib.reverse()
        else:
            a, b = i % len(sib), j % len(sib)
            sib[a], sib[b] = sib[b], sib[a]
    elif part == "drop":
        if how == "all":
            del sib[:]
        else:
            del sib[{"first": 0, "last": -1}.get(how, i % len(sib))]
    elif part == "dup":
        sib.insert(i % len(sib), list(sib[i % len(sib)]))
    elif part == "shift":  # a byte from the target to the first sibling
        side, text = sib[0]
        try:
            s = bytes.fromhex(text.decode())
        except ValueError:
            return target, sib, root
        if side == b"right" and target:
            target, s = target[:-1], target[-1:] + s
        elif side == b"left" and target:
            target, s = target[1:], s + target[:1]
        sib[0][1] = s.hex().encode()
    return target, sib, root


def listed_class(c, ls, target):
    """Targets that pass although they are no leaves (known finding D26)."""
    if not c["secure"]:
        return True
    pool = nodes(c, ls)
    return any(target == a + b for a in pool for b in pool)


def check(case, ctx):
    c = case["t"]
    ls = c["leaves"]
    t = merkle.build(c)
    src, sl = c, list(ls)
    o = case["other"]
    i = case["leaf"]
    if o == "change":
        sl[(i + 1) % len(sl)] = b"changed"
    elif o == "add":
        sl.append(b"added")
    elif o == "order":
        sl.reverse()
    elif o == "hash":
        src = dict(c, hash=merkle.NAMES[(merkle.NAMES.index(c["hash"]) + 1 + i % 8) % 9])
    elif o == "mode":
        src = dict(c, secure=not c["secure"])
    v = sl[i % len(sl)]
    g = must(merkle.build(src, sl).get_proof_of_inclusion, v)
    target, sib, root = g.target_key, [list(p) for p in g.proof], g.trie_root
    for by in case["by"]:
        target, sib, root = alter(src, sl, target, sib, root, by)
        ctx.tag(by[0])
    p = Proof(target_key=target, root_hash=root, proof=tuple(tuple(s) for s in sib), proof_type=b"MT-POI")
    judge(c, ls, t, p, case.get("before", 0), case["leaf"], case["by"][0][0], ctx)
    w = case.get("grow")
    if w is not None:  # and with other leaves, for which older proofs are worth nothing
        must(t.put, w)
        must(t.make_tree)
        judge(c, ls + [w], t, p, 0, case["leaf"], case["by"][0][0] + " after a further leaf", ctx)
        judge(c, ls + [w], t, g, 1, case["leaf"], "a proof from before a further leaf", ctx)


def wanted(c, ls, p):
    """The verdict due on a proof of pairs, by the reference rule; None where both will do."""
    target, root = p.target_key, p.trie_root
    mine = merkle.ref_root(c, ls)
    d = merkle.decode_siblings(p.proof)
    try:
        claimed = bytes.fromhex(root.decode())
    except ValueError:
        claimed = None
    folds = d is not None and claimed is not None and refs.merkle_fold(
        c["hash"], refs.merkle_leaf(c["hash"], c["secure"], target), d) == claimed
    if folds and root != mine and claimed.hex().encode() == mine:
        return None  # the same root in other letters: either answer
    return folds and root == mine


def judge(c, ls, t, p, before, leaf, what, ctx):
    mine = merkle.ref_root(c, ls)
    want = wanted(c, ls, p)
    genuine = None
    if before:  # a genuine proof for the same value, or for another, is judged first
        v = p.target_key if before < 3 and p.target_key in ls else ls[leaf % len(ls)]
        genuine = must(t.get_proof_of_inclusion, v)
        same(must(t.verify_proof_of_inclusion, genuine), True, "verdict on a genuine proof")
    for again in range(3 if before else 1):
        got = must(t.verify_proof_of_inclusion, p, what="verification of a proof of pairs of byte strings")
        ensure(got in (True, False), "verification answers %r", got)
        if want is not None:
            same(got, want, "verdict on %s with root %s%s%s" % (
                what, "of the tree" if p.trie_root == mine else "of another",
                " after a genuine proof for %r" % genuine.target_key if genuine else "", ", again" if again else ""))
        if genuine:
            same(must(t.verify_proof_of_inclusion, genuine), True, "verdict on the genuine proof again")
    if want is None:
        return
    ctx.nt(not want and len(ls) > 1)
    if genuine and not want:
        ctx.tag("after a genuine one")
    if want and p.target_key not in ls:
        ctx.tag("known class")
        ensure(listed_class(c, ls, p.target_key), "a proof of %r, which is no leaf, was accepted", p.target_key)
    # Judging changed nothing.
    same(must(t.get_merkle_root), mine, "root after a verification")


# ------------------------------------------------------------ made-up proofs
def texts():
    return st.one_of(st.sampled_from([b"left", b"right", b"", b"00", b"61", b"ab" * 32, b"\xff"]),
                     st.binary(max_size=4), st.binary(max_size=33).map(lambda b: b.hex().encode()))


def made_cases():
    return st.fixed_dictionaries({
        "t": merkle.trees(0, 6), "target": merkle.leaf(), "mine": st.booleans(), "root": texts(),
        "items": st.lists(st.one_of(st.tuples(texts(), texts()), st.tuples(st.sampled_from([b"left", b"right"]), texts())),
                          max_size=4),
        "odd": st.sampled_from([0, 0, 0, 1, 2, 3, 4, 5])})


def check_made(case, ctx):
    c = case["t"]
    ls = c["leaves"]
    t = merkle.build(c)
    items = [tuple(i) for i in case["items"]]
    odd = [None, b"", b"left", (), (b"left",), 7][case["odd"]]
    if odd is not None:
        items.append(odd)
    root = merkle.ref_root(c) if case["mine"] and ls else case["root"]
    p = Proof(target_key=case["target"], root_hash=root, proof=tuple(items), proof_type=b"MT-POI")
    ok, got = attempt(t.verify_proof_of_inclusion, p)
    d = merkle.decode_siblings(p.proof)
    try:
        claimed = bytes.fromhex(root.decode())
    except ValueError:
        claimed = None
    folds = d is not None and claimed is not None and refs.merkle_fold(
        c["hash"], refs.merkle_leaf(c["hash"], c["secure"], case["target"]), d) == claimed
    want = bool(ls) and folds and claimed.hex().encode() == merkle.ref_root(c)
    ctx.nt(not want and bool(ls))
    ctx.tag("empty tree" if not ls else "items %d" % len(items))
    if ok:
        if not want or root == merkle.ref_root(c):
            same(got, want, "verdict on a made-up proof")
    else:
        ensure(not want, "a genuine proof was refused: %r", got)
        # Only a tree without leaves, or what is no list of pairs, may raise.
        ensure(not ls or odd is not None, "verification of pairs of byte strings raised %r", got)


def second_preimage():
    t = MerkleTree(secure=True)
    t.put_list([b"a", b"b"])
    t.make_tree()
    forged = refs.H("sha256", b"a") + refs.H("sha256", b"b")
    p = Proof(target_key=forged, root_hash=t.get_merkle_root(), proof=(), proof_type=b"MT-POI")
    return t.verify_proof_of_inclusion(p) is True


KNOWN = [("D26", "a proof for a value that was not put verifies: the joined digests of two siblings, "
                 "with the siblings above them (leaves and inner nodes are hashed alike)", second_preimage)]

CAMPAIGNS = [
    Campaign("altered", lambda tier: cases(), check, 8000, 400000),
    Campaign("made", lambda tier: made_cases(), check_made, 3000, 100000),
    Campaign("large trees", lambda tier: merkle.large(), merkle.check_large_forged, 48, 2000),
    Campaign("again", lambda tier: again.merkle_programs(), again.check_merkle_old, 1200, 40000),
]
