"""One object used for long: thousands of operations on it, thousands of
entries in it. A case is a few numbers; what happens follows from them."""
import random

import gens
import keys as keypairs
import objs
import refs
from lib import ensure, must, refuses, same
from props import merkle
from pymt.empt import EMPT, SparseEMPT
from pymt.mpt import MPT
from pymt.utils.utils import Utils

RULE = (
    " A last enumeration uses one object for long: tries of up to 5200 entries, and thousands of operations "
    "on one object."
)


def cases(big, few):
    """(entries, operations) of the quick tier; the thorough one takes each with
    more salts."""
    def make(tier):
        for salt in range(1 if tier == "quick" else 12):
            for i, (n, ops) in enumerate(big + few):
                yield {"n": n, "ops": ops, "secure": (i + salt) % 2 == 1, "salt": 10 * salt + i}
    return make


tries = cases([(5200, 300), (2600, 600), (1200, 1500)], [(3, 4000), (40, 3000), (200, 2000), (7, 4000), (600, 1500)])
small = cases([(1500, 600), (700, 900)], [(3, 1500), (40, 1500), (12, 1500), (200, 1200)])


def contents(case):
    """Keys of several kinds, and a source of values and choices."""
    r = random.Random(case["salt"])
    ks, kind = [], case["salt"] % 3
    for i in range(case["n"]):
        if kind == 0 or i % 5 == 4:
            ks.append(refs.keccak(b"%d" % i)[: 4 + i % 29])
        elif kind == 1:
            ks.append(b"account/%d" % i)
        else:
            ks.append((i * 977).to_bytes(3, "big")[(i % 7 == 0):])
    return list(dict.fromkeys(ks)), r


def value(r, i):
    return b"%d:" % i + bytes([r.randrange(256)]) * r.choice([0, 1, 20, 28, 29, 30, 31, 40, 70])


def steps(case, set_, del_, look):
    """Fills the object, then changes and asks it at random. Yields after
    every step with the model."""
    ks, r = contents(case)
    model = {}
    for i, k in enumerate(ks):
        v = value(r, i)
        set_(k, v)
        model[k] = v
        yield i, model, ks, len(ks) + case["ops"]
    down = False
    for i in range(case["ops"]):
        k = r.choice(ks)
        what = r.random()
        if i % 500 == 0:
            down = not down
        if what < 0.3:
            pass
        elif what < (0.5 if down else 0.8):
            v = value(r, i)
            set_(k, v)
            model[k] = v
        elif k in model:
            del_(k)
            del model[k]
        look(k, model)
        yield len(ks) + i, model, ks, len(ks) + case["ops"]


def every(i, total, parts):
    return i % max(1, total // parts) == 0 or i == total - 1


def check_map(case, ctx):
    t = MPT({}, secure=case["secure"])

    def look(k, model):
        ensure(must(t.contains, k, what="contains") is (k in model), "contains(%r) with %d entries", k, len(model))
        if k in model:
            same(must(t.get, k, what="get(%r)" % k), model[k], "get(%r)" % k)
        else:
            refuses(t.get, k, what="get of the absent key %r" % k)
            refuses(t.delete, k, what="delete of the absent key %r" % k)

    for i, model, ks, total in steps(case, lambda k, v: must(t.update, k, v), lambda k: must(t.delete, k), look):
        if every(i, total, 3):
            for k in ks:
                look(k, model)
    ctx.nt()
    ctx.count("steps", total)


def check_root(case, ctx):
    t = MPT({}, secure=case["secure"])
    parts = 12 if case["n"] > 500 else 60
    for i, model, ks, total in steps(case, t.update, t.delete, lambda k, m: None):
        if every(i, total, parts):
            same(t.root_hash(), refs.trie_root(gens.inner(model, case["secure"])),
                 "root hash after %d steps with %d entries" % (i + 1, len(model)))
            ctx.count("roots")
    ctx.nt()
    ctx.count("steps", total)


def check_roots_kept(case, ctx):
    store = objs.RecordingStore()
    t = MPT(store, secure=case["secure"])
    seen = []
    for i, model, ks, total in steps(case, t.update, t.delete, lambda k, m: None):
        ensure(not store.bad, "step %d: %s", i, store.bad[:1])
        if every(i, total, 40):
            seen.append((i, t.root(), dict(model)))
    step = max(1, len(ks) // 120)
    for i, root, old in seen:
        u = MPT(store, root=root, secure=case["secure"])
        for k in ks[::step]:
            ctx.count("lookups")
            ensure(must(u.contains, k) is (k in old), "membership of %r in the root of step %d", k, i)
            if k in old:
                same(must(u.get, k, what="get(%r) in the root of step %d" % (k, i)), old[k],
                     "get(%r) in the root of step %d" % (k, i))
    ctx.nt()
    ctx.count("steps", total)


def check_proofs(case, ctx, kind="inclusion"):
    """All proofs of one trie, from and against the same objects."""
    t = MPT({}, secure=case["secure"])
    for i, model, ks, total in steps(case, t.update, t.delete, lambda k, m: None):
        pass
    root = MPT({}, root=t.root(), secure=case["secure"])
    reloaded = must(lambda: MPT.decode(t.encode()), what="reloading")
    make = getattr(t, "get_proof_of_" + kind)
    mine = [k for k in (ks + [k + b"\x01" for k in ks[:300]] + [b"absent %d" % i for i in range(300)])
            if (k in model) == (kind == "inclusion")]
    for j, k in enumerate(mine[::max(1, len(mine) // 1300)]):
        p = must(make, k, what="%s proof of %r" % (kind, k))
        for name, judge in [("the trie", t), ("the root alone", root), ("the reloaded trie", reloaded)][: 3 if j % 4 == 0 else 1]:
            ensure(must(getattr(judge, "verify_proof_of_" + kind), p) is True,
                   "proof %d (%s of %r) does not verify against %s", j, kind, k, name)
        ctx.count("proofs")
    ctx.nt(bool(mine))


def check_exclusion(case, ctx):
    check_proofs(case, ctx, "exclusion")


def check_reload(case, ctx):
    t = MPT({}, secure=case["secure"])
    parts = 2 if case["n"] > 500 else 10
    for i, model, ks, total in steps(case, t.update, t.delete, lambda k, m: None):
        if every(i, total, parts):
            e = must(t.encode, what="encode")
            u = must(MPT.decode, e, what="decode")
            same((u.root(), u.secure), (t.root(), t.secure), "root and mode reloaded after %d steps" % (i + 1))
            for k in ks[:: max(1, len(ks) // 400)]:
                ensure(must(u.contains, k) is (k in model), "membership of %r in the reloaded trie", k)
                if k in model:
                    same(must(u.get, k), model[k], "get(%r) in the reloaded trie" % k)
            same(must(u.encode, what="encode"), e, "encoding of the reloaded trie")
            ctx.count("reloaded")
    ctx.nt()


def check_mapping(case, ctx):
    e = EMPT(secure=case["secure"])

    def look(k, model):
        ensure((k in e) is (k in model), "membership of %r", k)
        same(len(e), len(model), "len")
        if k in model:
            same(must(e.get, k, what="get(%r)" % k), model[k], "get(%r)" % k)
            r = must(e.get_reference, k)
            same((r.key, r.data), (k, model[k]), "reference of %r" % k)
        else:
            refuses(e.get, k, what="get of the absent key %r" % k)

    for i, model, ks, total in steps(case, lambda k, v: must(e.__setitem__, k, v), lambda k: must(e.pop, k), look):
        if every(i, total, 6):
            same(dict(e.items()), model, "items after %d steps" % (i + 1))
            same(e.root_hash(), objs.ref_root(model, case["secure"]), "root hash after %d steps" % (i + 1))
    ctx.nt()
    ctx.count("steps", total)


def check_tampered(case, ctx):
    """C12: one trie, changes of its data and reads taking turns."""
    from pymt.utils.exceptions import InvalidReferenceError

    data = {}
    e = EMPT({}, data, secure=case["secure"])
    ks, r = contents(case)
    model = {}
    for i, k in enumerate(ks):
        model[k] = value(r, i)
        e[k] = model[k]
    for i in range(case["ops"]):
        k, q = r.choice(ks), r.choice(ks)
        if r.random() < 0.3:
            model[q] = value(r, i)
            e[q] = model[q]
        bad = bytearray(model[k])
        bad[r.randrange(len(bad))] ^= 1 << r.randrange(8)
        other = model[q] if r.random() < 0.3 and model[q] != model[k] else bytes(bad)
        data[k] = other
        refuses(e.get, k, types=InvalidReferenceError, what="step %d: reading %r after a change of its data" % (i, k))
        if q != k:
            same(must(e.get, q, what="get(%r)" % q), model[q], "untouched value of %r" % q)
        data[k] = model[k]
        same(must(e.get, k, what="get(%r)" % k), model[k], "restored value of %r" % k)
    ctx.nt()
    ctx.count("changes", case["ops"])


def check_views(case, ctx):
    """C13: a sparse trie beside a full one; views taken on the way."""
    e, s = EMPT(secure=case["secure"]), SparseEMPT(secure=case["secure"])
    views = []

    def put(k, v):
        e[k] = v
        s[k] = v

    def drop(k):
        del e[k]
        del s[k]

    for i, model, ks, total in steps(case, put, drop, lambda k, m: None):
        same(s.root(), e.root(), "root of the sparse trie after %d steps" % (i + 1))
        if every(i, total, 15) and model:
            views.append((i, e.root_hash(), e.get_sparse_trie(), s.get_root_trie(), dict(model)))
    for i, root, sparse, bare, old in views:
        same((sparse.root_hash(), bare.root_hash()), (root, root), "root of the views of step %d" % i)
        for k in ks[:: max(1, len(ks) // 40)]:
            ctx.count("lookups")
            ensure(sparse.contains(k) is (k in old), "membership of %r in the view of step %d", k, i)
            if k in old:
                same(must(sparse.get_reference, k).data, old[k], "reference of %r in the view of step %d" % (k, i))
                p = must(sparse.get_proof_of_inclusion, k)
                ensure(bare.verify_proof_of_inclusion(p) is True, "proof of %r and the root of step %d", k, i)
                if root != e.root_hash() and e.root_hash() != MPT({}).root_hash():
                    ensure(e.verify_proof_of_inclusion(p) is False, "a proof for an old root verifies now")
    ctx.nt(len(views) > 1)


# ---------------------------------------------------------------- Merkle trees
def check_merkle(case, ctx):
    """C16: one tree filled, built, asked and reset over and over."""
    r = random.Random(case["salt"])
    name = refs.MERKLE_HASHES[case["salt"] % len(refs.MERKLE_HASHES)]
    c = {"hash": name, "secure": case["secure"], "leaves": []}
    t = merkle.MerkleTree(secure=c["secure"], hash_type=name)
    for i in range(case["ops"]):
        x = r.random()
        if x < 0.55:
            v = b"%d" % i if r.random() < 0.8 or not c["leaves"] else r.choice(c["leaves"])
            must(t.put, v)
            c["leaves"].append(v)
        elif x < 0.65:
            vs = [b"%d/%d" % (i, j) for j in range(r.randrange(6))]
            must(t.put_list, vs)
            c["leaves"] += vs
        elif x < 0.75 and c["leaves"]:
            must(t.make_tree)
        elif x > 0.99 and len(c["leaves"]) > case["n"]:
            must(t.reset_tree)
            c["leaves"] = []
        same(must(t.get_count), len(c["leaves"]), "number of leaves")
        if c["leaves"] and x > 0.9:
            same(must(t.get_merkle_root, what="root in step %d" % i), merkle.ref_root(c), "root in step %d" % i)
            k = r.choice(c["leaves"])
            p = must(t.get_proof_of_inclusion, k, what="proof of %r" % k)
            same(p.trie_root, merkle.ref_root(c), "root in the proof")
            ensure(must(t.verify_proof_of_inclusion, p) is True, "step %d: the proof of %r does not verify", i, k)
            ctx.count("roots")
    ctx.nt()


# -------------------------------------------------------------------- key pairs
def check_signing(case, ctx):
    """C23: one pair signs and judges over and over."""
    r = random.Random(case["salt"])
    i0, i1 = keypairs.SMALL[case["salt"] % 3], keypairs.SMALL[3 + case["salt"] % 3]
    a, b = keypairs.pair("all", i0), keypairs.pair("auth", i1)
    pa, pb = a.public_key, b.public_key
    made = []
    for i in range(case["ops"] // 4):
        x, pub, index = (a, pa, i0) if r.random() < 0.5 else (b, pb, i1)
        data = r.choice([b"%d", b"message %d " * 9, b"%d" + bytes(40)])
        data = data.replace(b"%d", b"%d" % r.randrange(40 if case["n"] < 10 else 10 ** 6))
        sig = must(x.sign, data)
        want = keypairs.reference_signature(pub, index, data)
        if want is not None:
            same(sig, want, "signature %d" % i)
        made.append((data, sig, pub))
        for data, sig, pub in (made[-1], r.choice(made)):
            judge, own = (a, pa) if r.random() < 0.5 else (b, pb)
            same(must(judge.signature_valid, data, sig, pub), True, "validity in step %d" % i)
            same(must(judge.signature_valid, data, sig), own == pub, "validity in step %d, key implied" % i)
            same(must(judge.signature_valid, data, sig, pa if pub == pb else pb), False, "other key in step %d" % i)
            at = r.randrange(len(data))
            bad = data[:at] + bytes([data[at] ^ 1]) + data[at + 1:]
            same(must(judge.signature_valid, bad, sig, pub), False, "altered data in step %d" % i)
            at = r.randrange(len(sig))
            bad = sig[:at] + bytes([sig[at] ^ 1]) + sig[at + 1:]
            same(must(judge.signature_valid, data, bad, pub), False, "altered signature in step %d" % i)
            other = r.choice(made)
            same(must(judge.signature_valid, other[0], sig, pub), other[0] == data,
                 "signature of other data in step %d" % i)
    ctx.nt()
    ctx.count("signatures", len(made))


def check_letters(case, ctx):
    """C24: pairs that exchange messages over and over."""
    from props.c24 import fields

    r = random.Random(case["salt"])
    ps = [keypairs.pair(["all", "enc"][(case["salt"] + i) % 2], keypairs.SMALL[i]) for i in range(3)]
    pubs = [p.public_key for p in ps]
    sent, seen = [], set()
    for i in range(case["ops"] // 8):
        m = b"message %d" % r.randrange(10 ** 6) + bytes(r.randrange(50))
        s, d = r.randrange(3), r.randrange(3)
        e = must(ps[s].encrypt, m, pubs[d])
        ensure(e not in seen, "the same envelope twice")
        seen.add(e)
        sent.append((m, s, d, e))
        for m, s, d, e in (sent[-1], r.choice(sent)):
            same(must(ps[d].decrypt, e, pubs[s], what="decrypting in step %d" % i), m, "message in step %d" % i)
            for j in range(3):
                if j != d:
                    refuses(ps[j].decrypt, e, pubs[s], what="decrypting by another pair in step %d" % i)
                if j != s:
                    refuses(ps[d].decrypt, e, pubs[j], what="decrypting with another sender in step %d" % i)
            at = r.randrange(len(e))
            digit = b"0123456789abcdef"
            if e[at] in digit:
                bad = e[:at] + bytes([digit[(digit.index(e[at]) + 1) % 16]]) + e[at + 1:]
                if fields(bad) == fields(e):
                    continue
                refuses(ps[d].decrypt, bad, pubs[s], what="decrypting an altered envelope in step %d" % i)
    ctx.nt()
    ctx.count("messages", len(sent))


def check_passwords(case, ctx):
    """C26: many outputs under few passwords."""
    r = random.Random(case["salt"])
    sent, seen = [], set()
    for i in range(case["ops"] // 6):
        p, m = "password %d" % r.randrange(case["n"]), b"data %d" % r.randrange(case["n"])
        e = must(Utils.encrypt, m, p)
        ensure(e not in seen, "the same output twice")
        seen.add(e)
        sent.append((p, m, e))
        for p, m, e in (sent[-1], r.choice(sent)):
            same(must(Utils.decrypt, e, p), m, "data in step %d" % i)
            refuses(Utils.decrypt, e, p + "0", what="decrypting with another password in step %d" % i)
            at = r.randrange(len(e))
            refuses(Utils.decrypt, e[:at] + bytes([e[at] ^ 4]) + e[at + 1:], p,
                    what="decrypting an altered output in step %d" % i)
    ctx.nt()
    ctx.count("outputs", len(sent))
