"""C35: a proof object presents exactly what it was made of."""
import json
import time
from datetime import datetime, timedelta

from hypothesis import strategies as st

import gens
import objs
from engine import Campaign
from lib import attempt, ensure, must, refuses, same
from props import merkle
from pymt.empt import EMPT
from pymt.mpt import MPT
from pymt.proof import Proof

RULE = (
    "Proofs of tries (plain and extended, inclusion and exclusion) and Merkle trees, proofs made by hand of "
    "arbitrary bytes, and decoded ones; a generated sequence of ways to look at them (attributes, dictionary "
    "form, items, complete, partial and interleaved iterations, text, hash, comparison, encoding, verification, "
    "attempts to assign) always shows the same five fields, those the proof was made of, and a time stamp of "
    "the moment of making. Proofs that differ in one field or one item only are looked at in turn. Non-trivial: at least three different ways, one of them an iteration."
)
ASSUMPTIONS = ["Where the clock jumps while a proof is made, its time stamp is only checked to a day."]

FIELDS = ["proof_type", "timestamp", "target_key", "root_hash", "proof"]
WAYS = ["attributes", "dict", "dict-changed", "items", "iterate", "iterate", "partly", "nested", "nested", "zip", "dict()",
        "text", "hash", "equal", "encode", "assign", "verify", "for-else", "late"]


@st.composite
def cases(draw):
    source = draw(st.sampled_from(["hand", "hand", "mpt", "mpt", "empt", "tree", "tree", "json", "rlp"]))
    c = {"source": source, "again": draw(st.booleans()), "ways": draw(st.lists(st.sampled_from(WAYS), min_size=2, max_size=9))}
    if source == "hand":
        item = st.one_of(st.binary(max_size=40), st.tuples(st.sampled_from([b"left", b"right"]), st.binary(max_size=8)))
        c.update(target=draw(st.binary(max_size=40)), root=draw(st.binary(max_size=64)),
                 proof=[list(x) if isinstance(x, tuple) else x for x in draw(st.lists(item, max_size=5))],
                 type=draw(st.sampled_from([b"MPT-POI", b"MPT-POE", b"MT-POI"])))
    elif source in ("mpt", "empt"):
        c.update(trie=draw(gens.contents(1, 6)), i=draw(st.integers(0, 9)), absent=draw(st.booleans()))
    else:
        c.update(tree=draw(merkle.trees(1, 9)), i=draw(st.integers(0, 30)))
    return c


def origin(c):
    """(proof, expected fields without the time stamp, or None; verifier or None)"""
    s = c["source"]
    if s == "hand":
        items = tuple(tuple(x) if isinstance(x, list) else x for x in c["proof"])
        p = must(Proof, c["target"], c["root"], items, c["type"], what="Proof(...)")
        return p, {"proof_type": c["type"], "target_key": c["target"], "root_hash": c["root"], "proof": items}, None
    if s in ("mpt", "empt"):
        if s == "mpt":
            t, model = gens.build(MPT, c["trie"])
        else:
            t, model = EMPT(secure=c["trie"]["secure"]), {}
            for k, v in zip(c["trie"]["keys"], c["trie"]["vals"]):
                t.update(k, v)
                model[k] = v
        if c["absent"] or not model:
            ks = [k for k in gens.probes(model, c["trie"]["keys"]) if k not in model]
            if not model:
                t.update(b"k", b"v")
                ks = [k for k in ks if k != b"k"]
            p = must(t.get_proof_of_exclusion, ks[c["i"] % len(ks)], what="get_proof_of_exclusion")
            return p, {"proof_type": b"MPT-POE", "root_hash": (t.root_hash(), t.root())}, t.verify_proof_of_exclusion
        ks = sorted(model)
        p = must(t.get_proof_of_inclusion, ks[c["i"] % len(ks)], what="get_proof_of_inclusion")
        return p, {"proof_type": b"MPT-POI", "root_hash": (t.root_hash(), t.root())}, t.verify_proof_of_inclusion
    t = merkle.build(c["tree"])
    v = c["tree"]["leaves"][c["i"] % len(c["tree"]["leaves"])]
    p = must(t.get_proof_of_inclusion, v, what="get_proof_of_inclusion")
    want = {"proof_type": b"MT-POI", "target_key": v, "root_hash": merkle.ref_root(c["tree"])}
    if s == "json":
        p = must(Proof.decode_json, must(p.encode_json, what="encode_json"), what="decode_json")
    elif s == "rlp":
        p = must(Proof.decode_rlp, must(p.encode_rlp, what="encode_rlp"), what="decode_rlp")
    return p, want, t.verify_proof_of_inclusion


def fields(p):
    return dict(zip(FIELDS, (p.type, p.timestamp, p.target_key, p.trie_root, p.proof)))


def check(case, ctx):
    if case["again"]:  # an earlier proof of the same
        origin(case)
    clock = time.monotonic()
    before = datetime.now()
    p, want, verify = origin(case)
    after = datetime.now()
    if abs((after - before).total_seconds() - (time.monotonic() - clock)) > 0.01:  # the clock jumped
        ctx.tag("clock jumped")
        before, after = before - timedelta(days=1), after + timedelta(days=1)
    base = must(fields, p, what="the attributes")
    for k, v in want.items():
        if isinstance(v, tuple) and k == "root_hash":  # a short root stands for itself
            ensure(base[k] in v, "the attribute for root_hash is %r, the root is %r", base[k], v)
        else:
            same(base[k], v, "the attribute for " + k)
    stamp = base["timestamp"]
    ensure(isinstance(stamp, bytes), "the time stamp is a %s", type(stamp).__name__)
    ok, when = attempt(lambda: datetime.fromisoformat(stamp.decode()))
    ensure(ok and when.tzinfo is None, "the time stamp %r is not readable", stamp)
    ensure(before <= when <= after, "the time stamp %r is not that of the making (%s)", stamp, after)
    ensure(isinstance(base["proof"], tuple), "the items are a %s", type(base["proof"]).__name__)
    pairs = list(base.items())
    asked = sorted(base.items())
    code = hash(p)
    ctx.tag(case["source"])

    def whole(got, what):
        same(sorted(got), asked, what)

    for step, way in enumerate(case["ways"] + ["attributes", "iterate"]):
        what = "%s at step %d" % (way, step)
        ctx.tag(way)
        if way == "attributes":
            same(must(fields, p), base, what)
        elif way == "dict":
            same(must(p.__dict__), base, what)
        elif way == "dict-changed":
            d = must(p.__dict__)
            spared = (FIELDS + [None])[step % 6]
            for k in list(d):
                if k != spared:
                    d[k] = b"changed"
            if step % 2 and spared != "proof":
                d.pop("proof", None)
        elif way == "items":
            whole(list(must(p.items)), what)
        elif way == "iterate":
            whole(must(list, p, what=what), what)
        elif way == "for-else":
            seen = 0
            for pair in p:
                ensure(pair in pairs, "%s gives %r", what, pair)
                seen += 1
            same(seen, 5, "number of items " + what)
        elif way == "partly":
            for n, pair in enumerate(p):
                ensure(pair in pairs, "%s gives %r", what, pair)
                if n == step % 4:
                    break
        elif way == "nested":
            got = [(a, b) for a in p for b in p]
            same(sorted(got), sorted((a, b) for a in pairs for b in pairs), what)
        elif way == "zip":
            i, j = iter(p), iter(p)
            first = next(i)
            rest = list(j)
            whole(rest, what + ", second iteration")
            whole([first] + list(i), what + ", first iteration")
        elif way == "late":  # an iteration under way while the proof is used
            i = iter(p)
            first = next(i)
            must(str, p)
            must(p.__dict__)
            same(hash(p), code, "hash " + what)
            whole([first] + list(i), what)
        elif way == "dict()":
            same(must(dict, p, what=what), base, what)
        elif way == "text":
            same(must(repr, p), must(repr, p), "text " + what)
            ensure(isinstance(str(p), str), "no text %s", what)
        elif way == "hash":
            same(must(hash, p), code, what)
        elif way == "equal":
            ensure(p == p and not p != p and not p == dict(base), "comparison %s", what)
        elif way == "encode":
            attempt(p.encode_json)
            attempt(p.encode_rlp)
        elif way == "verify" and verify is not None:
            ensure(must(verify, p, what="verifying") is True, "the proof does not verify %s", what)
        elif way == "assign":
            for name in ("timestamp", "target_key", "trie_root", "proof", "type"):
                refuses(setattr, p, name, b"other", what="assigning " + name)
    same(must(fields, p), base, "the attributes at the end")
    same(hash(p), code, "hash at the end")
    kinds = set(case["ways"])
    ctx.nt(len(kinds) >= 3 and bool(kinds & {"iterate", "nested", "zip", "partly", "late", "for-else", "dict()"}))


# ------------------------------------------------------------------ look-alikes
def alike_cases():
    text = st.text(st.sampled_from("ab01\u00e9"), max_size=6)
    item = st.tuples(st.sampled_from(["left", "right"]), st.binary(max_size=3).map(bytes.hex))
    return st.fixed_dictionaries({
        "target": text, "root": st.binary(max_size=4).map(bytes.hex), "items": st.lists(item, max_size=8),
        "stamp": st.sampled_from(["2024-01-01T00:00:00.000001", "2024-01-01T00:00:00", "1"]),
        "changes": st.lists(st.tuples(st.sampled_from(FIELDS + ["proof", "proof", "none"]), st.integers(0, 40)),
                            min_size=2, max_size=6)})


def check_alike(case, ctx):
    """Proofs that differ in one field only, or in one item, or not at all, looked at in turn."""
    made = []
    for field, i in [("none", 0)] + [tuple(x) for x in case["changes"]]:
        d = {"proof_type": "MT-POI", "timestamp": case["stamp"], "target_key": case["target"],
             "root_hash": case["root"], "proof": [list(x) for x in case["items"]]}
        if field == "proof" and d["proof"]:
            x = d["proof"][i % len(d["proof"])]
            if i % 3:
                x[1] = x[1][:-1] + ("0" if x[1][-1:] == "1" else "1")
            else:
                x[0] = "left" if x[0] == "right" else "right"
        elif field in ("target_key", "root_hash", "timestamp"):
            v = d[field]
            d[field] = v[:-1] + "%d" % (i % 10) if i % 2 else v + "0"
        p = must(Proof.decode_json, json.dumps(d), what="decode_json")
        want = {"proof_type": b"MT-POI", "timestamp": d["timestamp"].encode(), "target_key": d["target_key"].encode(),
                "root_hash": d["root_hash"].encode(),
                "proof": tuple((a.encode(), b.encode()) for a, b in d["proof"])}
        made.append((p, want))
        for n, (q, w) in enumerate(made):
            what = "of proof %d of %d" % (n, len(made))
            same(must(fields, q), w, "the attributes " + what)
            same(must(q.__dict__), w, "the dictionary form " + what)
            same(dict(must(q.items)), w, "the items " + what)
            same(dict(must(list, q)), w, "an iteration " + what)
            same(json.loads(must(q.encode_json)), json.loads(json.dumps(
                {k: [[a.decode(), b.decode()] for a, b in v] if k == "proof" else v.decode() for k, v in w.items()})),
                "the JSON form " + what)
            for part in w["target_key"], w["root_hash"], w["timestamp"]:
                ensure(repr(part)[2:-1] in must(repr, q), "the text %s does not show %r", what, part)
            same(q == p, w == want, "equality with the last one " + what)
    ctx.nt(len({repr(w) for _, w in made}) > 1)


CAMPAIGNS = [
    Campaign("views", lambda tier: cases(), check, 5000, 150000),
    Campaign("look-alikes", lambda tier: alike_cases(), check_alike, 1500, 60000),
]
