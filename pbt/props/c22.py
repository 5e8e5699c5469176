"""C22: data references round-trip and detect corruption."""
from hypothesis import strategies as st

import gens
import refs
from engine import Campaign, Enumeration
from lib import attempt, ensure, must, refuses, same
from props import longs
from pymt.empt import DataReference

RULE = (
    "References of generated keys and data: encoding equals an independent one, decoding gives an equal "
    "reference with the same key, data and hash (Keccak-256 of key and data). Decoding an encoding in which "
    "one field was altered, an item added or removed, or bytes were changed, is accepted exactly if an "
    "independent reading of the format accepts it. Non-trivial: an altered encoding that is still RLP, or "
    "key and data both non-empty."
) + longs.RULE
ASSUMPTIONS = []


def blob():
    return st.one_of(st.binary(max_size=4), gens.values(), st.just(b""), st.binary(max_size=70))


def cases():
    return st.fixed_dictionaries({"key": blob(), "data": blob(), "data2": blob(), "key2": blob()})


def check(case, ctx):
    k, d = case["key"], case["data"]
    r = must(DataReference, k, d)
    same((r.key, r.data), (k, d), "fields")
    same(r.hash, refs.data_hash(k, d), "hash")
    e = must(r.encode)
    same(bytes(e), refs.data_reference(k, d), "encoding")
    q = must(DataReference.decode, e)
    same((q.key, q.data, q.hash), (k, d, r.hash), "decoded fields")
    ensure(q == r and r == q and not q != r, "the decoded reference is not equal")
    same(hash(q), hash(r), "hash of the decoded reference")
    same(bytes(must(q.encode)), bytes(e), "encoding of the decoded reference")
    ctx.nt(bool(k and d))
    for d2 in (case["data2"], d + b"\x00", d[:-1], b"\x00" + d, d[::-1]):
        o = must(DataReference, k, d2)
        same(o == r, d2 == d, "equality of references of one key with %r and %r" % (d, d2))
        same(r == o, d2 == d, "equality of references, turned round")
        if d2 == d:
            same(hash(o), hash(r), "hash of an equal reference")
    k2 = case["key2"]
    if len(k2) == len(k):
        same(must(DataReference, k2, d) == r, k2 == k, "equality of references of two keys")


ALTER = ["marker", "key", "data", "hash", "hash-zero", "hash-data-only", "hash-other", "add", "drop", "nest",
         "flip", "flip", "flip", "cut", "append", "wrap", "string", "hash-pad", "swap", "random", "none"]


def bad_cases():
    return st.fixed_dictionaries({"key": blob(), "data": blob(), "how": st.sampled_from(ALTER),
                                  "i": st.integers(0, 4000), "x": blob()})


def flip(b, i):
    if not b:
        return b"\x01"
    i %= 8 * len(b)
    return b[: i // 8] + bytes([b[i // 8] ^ (1 << (i % 8))]) + b[i // 8 + 1:]


def check_bad(case, ctx):
    k, d, how, i, x = (case[n] for n in ("key", "data", "how", "i", "x"))
    h = refs.int_be(refs.data_hash(k, d))
    s = [b"FF", k, d, h]
    changed = None
    if how == "marker":
        s[0] = [b"", b"F", b"ff", b"FFF", b"\xff", b"FG", x, b"FF\x00"][i % 8]
    elif how == "key":
        s[1] = flip(k, i) if i % 2 else x
    elif how == "data":
        s[2] = flip(d, i) if i % 2 else x
    elif how == "hash":
        s[3] = flip(h, i)
    elif how == "hash-zero":
        s[3] = [b"", b"\x00", b"\x01"][i % 3]
    elif how == "hash-data-only":
        s[3] = refs.int_be(int.from_bytes(refs.keccak(d), "big"))
    elif how == "hash-other":
        s[3] = refs.int_be(int.from_bytes(refs.keccak(d + k), "big"))
    elif how == "hash-pad":
        s[3] = b"\x00" + h
    elif how == "add":
        s.insert(i % 5, x)
    elif how == "drop":
        del s[i % 4]
    elif how == "nest":
        s[i % 4] = [s[i % 4]]
    elif how == "wrap":
        s = [s]
    elif how == "string":
        s = b"".join(s)
    elif how == "swap":
        a, b = i % 4, (i // 4) % 4
        s[a], s[b] = s[b], s[a]
    e = refs.rlp(s)
    if how == "flip":
        e = flip(e, i)
    elif how == "cut":
        e = e[: i % len(e)]
    elif how == "append":
        e = e + (x or b"\x00")
    elif how == "random":
        e = x
    try:
        got = refs.unrlp(e)
        rlp_ok = True
    except refs.BadRlp:
        got, rlp_ok = None, False
    want = (rlp_ok and isinstance(got, list) and len(got) == 4 and all(isinstance(p, bytes) for p in got)
            and got[0] == b"FF" and got[3] == refs.int_be(refs.data_hash(got[1], got[2])))
    ok, r = attempt(DataReference.decode, e)
    ctx.tag(how)
    if want:
        ensure(ok, "a reference was rejected: %r", r)
        same((r.key, r.data, r.hash), (got[1], got[2], refs.data_hash(got[1], got[2])), "decoded fields")
    else:
        ensure(not ok, "corrupted bytes (%s) were decoded as %r", how, (getattr(r, "key", None), getattr(r, "data", None)))
        ctx.nt(rlp_ok)


CAMPAIGNS = [
    Enumeration("long values", longs.cases, longs.check_reference),
    Campaign("round trip", lambda tier: cases(), check, 12000, 600000),
    Campaign("corrupted", lambda tier: bad_cases(), check_bad, 20000, 600000),
]
