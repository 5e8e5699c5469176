"""C19: proof objects survive serialisation."""
import json

from hypothesis import strategies as st

import gens
import refs
from engine import Campaign
from lib import attempt, ensure, must, refuses, same
from props import merkle
from pymt.mpt import MPT
from pymt.proof import Proof

RULE = (
    "Proofs of generated Merkle trees (any leaf bytes, hash type, mode) and hand-made ones (pairs or flat "
    "byte strings, any root and target) through JSON and RLP: equal to the original in both directions, "
    "same hash, fields and types, same verdict of the tree and of another tree, stable when encoded again; "
    "the same with time stamps of other moments, whole seconds included; "
    "two proofs that differ have different encodings. What cannot be written as JSON text may be refused, "
    "never altered. MPT proofs are refused. Non-trivial: a proof with at least one item and a target that "
    "is no plain text, or a verdict compared."
) + merkle.RULE
ASSUMPTIONS = []


def fields(p):
    return (p.type, p.timestamp, p.target_key, p.trie_root, p.proof)


def kinds(x):
    return (type(x).__name__, [kinds(i) for i in x]) if isinstance(x, (tuple, list)) else type(x).__name__


def round_trip(p, form, strict, ctx):
    enc, dec = (p.encode_json, Proof.decode_json) if form == "json" else (p.encode_rlp, Proof.decode_rlp)
    before = fields(p)
    if strict:
        e = must(enc, what="encoding as " + form)
        q = must(dec, e, what="decoding of " + form)
    else:
        ok, e = attempt(enc)
        if not ok:
            ctx.tag(form + " refused")
            return None
        ok, q = attempt(dec, e)
        if not ok:
            ctx.tag(form + " refused")
            return None
    ensure(type(e) is (str if form == "json" else bytes), "%s is a %s", form, type(e).__name__)
    same(fields(q), before, "fields after " + form)
    same(kinds(fields(q)), kinds(before), "types of the fields after " + form)
    ensure(q == p and p == q and not (q != p), "the proof after %s is not equal", form)
    same(hash(q), hash(p), "hash after " + form)
    same(fields(p), before, "the original after encoding as " + form)
    again = must(q.encode_json if form == "json" else q.encode_rlp, what="encoding again")
    same(again, e, form + " of the decoded proof")
    return q


def target():
    return st.one_of(
        st.binary(max_size=6), st.binary(min_size=1, max_size=40), merkle.leaf(),
        st.text(max_size=8).map(lambda s: s.encode("utf-8", "surrogatepass")),
        st.sampled_from([b"\xed\xb2\x80", b"\x80", b"\xc3\x28", b"\xff\xff", b'"', b"\\", b"\\udc80",
                         b"\x00", b"null", b"\xed\xa0\x80\xed\xb0\x80", b"\xf0\x9f\x98\x80", b"\xef\xbb\xbf"]))


@st.composite
def cases(draw):
    c = draw(merkle.trees(1, 9))
    for _ in range(draw(st.integers(0, 3))):
        c["leaves"][draw(st.integers(0, len(c["leaves"]) - 1))] = draw(target())
    return {"t": c, "i": draw(st.integers(0, 20)), "stamp": draw(stamps())}


def stamps():
    """Time stamps as proofs carry them: with a fraction, and without one at
    whole seconds."""
    n = st.integers
    date = st.builds("%04d-%02d-%02d %02d:%02d:%02d".__mod__,
                     st.tuples(n(1001, 9998), n(1, 12), n(1, 28), n(0, 23), n(0, 59), n(0, 59)))
    tail = st.one_of(st.just(""), n(1, 999999).map(".%06d".__mod__), n(1, 999).map(".%03d000".__mod__))
    return st.builds(str.__add__, date, tail)


def restamped(p, stamp, form):
    """The proof as it would have been read had it been made at that time:
    the stamp is a field of its own, replaced in the encoding."""
    old = p.timestamp
    if form == "json":
        text = must(p.encode_json)
        if text.count(old.decode()) != 1:
            return None
        return must(Proof.decode_json, text.replace(old.decode(), stamp), what="decoding with the stamp %r" % stamp)
    parts = refs.unrlp(must(p.encode_rlp))
    if not isinstance(parts, list) or parts.count(old) != 1:
        return None
    parts[parts.index(old)] = stamp.encode()
    return must(Proof.decode_rlp, refs.rlp(parts), what="decoding with the stamp %r" % stamp)


def check(case, ctx):
    c = case["t"]
    t = merkle.build(c)
    other = merkle.build(c, c["leaves"] + [b"one more"])
    stamp = case.get("stamp", "2026-01-02 03:04:05")
    v = c["leaves"][case["i"] % len(c["leaves"])]
    p = must(t.get_proof_of_inclusion, v)
    try:
        v.decode()
    except ValueError:
        ctx.tag("target not UTF-8")
    ctx.nt(len(p.proof) > 0)
    for form in ("json", "rlp"):
        q = round_trip(p, form, True, ctx)
        same(must(t.verify_proof_of_inclusion, q), True, "verdict after " + form)
        same(must(other.verify_proof_of_inclusion, q), False, "verdict of another tree after " + form)
        bad = Proof(target_key=v + b"\x00", root_hash=p.trie_root, proof=p.proof, proof_type=b"MT-POI")
        same(must(t.verify_proof_of_inclusion, round_trip(bad, form, True, ctx)), False,
             "verdict on a wrong proof after " + form)
        r = restamped(p, stamp, form)
        if r is not None:
            ctx.tag("stamp replaced in " + form)
            same(fields(r), (p.type, stamp.encode(), p.target_key, p.trie_root, p.proof),
                 "fields of a proof with the stamp %r in %s" % (stamp, form))
            for again in ("json", "rlp"):
                q = round_trip(r, again, True, ctx)
                same(must(t.verify_proof_of_inclusion, q), True, "verdict with another time stamp")


def piece():
    return st.one_of(st.sampled_from([b"left", b"right", b"ab12", b"", b"[]", b"0"]),
                     st.text(max_size=5).map(lambda s: s.encode("utf-8", "replace")))


@st.composite
def made(draw):
    raw = draw(st.sampled_from([0, 0, 1]))
    p = st.binary(max_size=5) if raw else piece()
    form = draw(st.sampled_from(["pairs", "flat", "flat", "mixed"]))
    item = st.tuples(p, p).map(list)
    items = draw(st.lists({"pairs": item, "flat": p, "mixed": st.one_of(item, p)}[form], max_size=5))
    c = {"target": draw(target()), "items": items, "target2": draw(target()),
         "root": draw(st.one_of(piece(), p)), "raw": raw}
    # Long ones: many items, long fields.
    c["times"] = draw(st.sampled_from([1] * 12 + [7, 33, 64, 130]))
    c["long"] = draw(st.sampled_from([1] * 12 + [20, 64, 300]))
    return c


def lengthened(case):
    m = case.get("long", 1)

    def longer(x):
        return [longer(i) for i in x] if isinstance(x, list) else x * m

    return dict(case, target=case["target"] * m, target2=case["target2"] * m, root=case["root"] * m,
                items=longer(case["items"]) * case.get("times", 1))


def make(case, target):
    return Proof(target_key=target, root_hash=case["root"], proof_type=b"MT-POI",
                 proof=tuple(tuple(i) if isinstance(i, list) else i for i in case["items"]))


def check_made(case, ctx):
    case = lengthened(case)
    p = make(case, case["target"])
    ctx.nt(bool(case["items"]))
    text = [case["root"]] + [x for i in case["items"] for x in (i if isinstance(i, list) else [i])]
    plain = True
    for x in text:
        try:
            x.decode()
        except ValueError:
            plain = False
    ctx.tag("plain" if plain else "raw bytes")
    round_trip(p, "rlp", True, ctx)
    round_trip(p, "json", plain, ctx)
    # Two proofs that differ never give the same text.
    q = make(case, case["target2"])
    if case["target"] != case["target2"]:
        ensure(must(p.encode_rlp) != must(q.encode_rlp), "two proofs have the same RLP")
        if plain:
            ensure(must(p.encode_json) != must(q.encode_json), "two proofs have the same JSON")


def check_mpt(case, ctx):
    t, model = gens.build(MPT, case)
    if not model:
        return
    ctx.nt(len(model) > 1)
    ps = [must(t.get_proof_of_inclusion, sorted(model)[0])]
    absent = next(k for k in gens.probes(model, []) + [b"\x00" * 70] if k not in model)
    ps.append(must(t.get_proof_of_exclusion, absent))
    for p in ps:
        before = fields(p)
        refuses(p.encode_json, what="JSON of an MPT proof")
        refuses(p.encode_rlp, what="RLP of an MPT proof")
        same(fields(p), before, "the proof after a refusal")
        for items in ([], [n.hex() for n in p.proof], [n.decode("latin-1") for n in p.proof], ["ab"] * 70,
                      [["left", "ab"]] * 35):
            text = json.dumps({"proof_type": p.type.decode(), "timestamp": p.timestamp.decode(),
                               "target_key": p.target_key.hex(), "root_hash": "b", "proof": items})
            refuses(Proof.decode_json, text, what="decoding the JSON of an MPT proof")


def check_large(case, ctx):
    c = merkle.expand(case)
    t = merkle.build(c)
    for i in merkle.some(c):
        p = must(t.get_proof_of_inclusion, c["leaves"][i])
        ctx.nt()
        for form in ("json", "rlp"):
            q = round_trip(p, form, True, ctx)
            same(must(t.verify_proof_of_inclusion, q), True, "verdict after " + form)


CAMPAIGNS = [
    Campaign("tree proofs", lambda tier: cases(), check, 6000, 250000),
    Campaign("made proofs", lambda tier: made(), check_made, 6000, 250000),
    Campaign("mpt refused", lambda tier: gens.contents(1, 6), check_mpt, 800, 20000),
    Campaign("large trees", lambda tier: merkle.large(), check_large, 64, 3000),
]
