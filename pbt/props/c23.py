"""C23: signatures verify for exactly the signed data and key."""
from hypothesis import strategies as st

import gens
import keys
from engine import Campaign, Enumeration
from lib import attempt, ensure, must, same, spread
from props import endurance, rekeyed

RULE = (
    "Messages signed with one of nine fixed keys (1024 to 2048 bits, two exponents) by general and signing "
    "pairs: the signature is the PKCS#1 v1.5 SHA-256 one computed by hand, the same again, and valid for the "
    "message with the key implied or given, from every other kind of pair. Then alterations of message, "
    "signature and key: the verdict is that of a verification by hand. Messages of every length next to a power of two "
    "up to two megabytes, and with one byte changed anywhere. Non-trivial: an altered message, "
    "signature or key that has to be refused."
) + endurance.RULE + rekeyed.RULE
ASSUMPTIONS = ["Modular exponentiation of Python and SHA-256 of hashlib are right."]

ALTER = ["m-flip", "m-add", "m-cut", "m-empty", "m-other", "s-flip", "s-flip", "s-cut", "s-add", "s-zero", "s-empty",
         "s-front", "s-ones", "s-plus-n", "s-minus", "s-other", "s-random", "s-raw", "key", "key", "s-of-key", "none", "no-key"]


def message():
    return st.one_of(st.binary(max_size=5), st.binary(max_size=100), st.integers(0, 5000).map(lambda n: b"m" * n),
                     st.sampled_from([b"", b"\x00", b"\x00\x00", b"\xff" * 64]), big())


def big():
    return st.integers(0, 3).flatmap(lambda n: st.binary(max_size=200) if n else gens.big_bytes())


def index():
    return st.sampled_from([0, 0, 1, 2, 3, 4, 5, 6, 7, 8])


def cases():
    return st.fixed_dictionaries({
        "kind": st.sampled_from(["all", "all", "auth"]), "judge": st.sampled_from(["all", "auth"]),
        "key": index(), "own": index(), "data": message(), "data2": message(),
        "by": st.lists(st.tuples(st.sampled_from(ALTER), st.integers(0, 20000), index()).map(list),
                       min_size=1, max_size=5)})


def flip(b, i):
    if not b:
        return b"\x01"
    i = spread(i, 8 * len(b))
    return b[: i // 8] + bytes([b[i // 8] ^ (1 << (i % 8))]) + b[i // 8 + 1:]


def check(case, ctx):
    data = case["data"]
    kp = keys.pair(case["kind"], case["key"])
    pub = must(lambda: kp.public_key)
    sig = must(kp.sign, data)
    ensure(type(sig) is bytes, "a signature is a %s", type(sig).__name__)
    want = keys.reference_signature(pub, case["key"], data)
    if want is not None:
        same(sig, want, "signature")
    same(must(kp.sign, data), sig, "signature made again")
    judge = keys.pair(case["judge"], case["own"], "j")
    same(must(kp.signature_valid, data, sig), True, "validity, key implied")
    same(must(kp.signature_valid, data, sig, pub), True, "validity, key given")
    same(must(kp.signature_valid, data, sig, public_key=kp.public_key_string.encode()), True, "validity, key as text")
    same(must(judge.signature_valid, data, sig, pub), True, "validity by another pair")
    same(must(judge.signature_valid, data, sig), judge.public_key == pub, "validity by another pair, key implied")
    for how, i, k in case["by"]:
        m, s, p = data, sig, pub
        n = keys.number(case["key"]).n
        if how == "m-flip":
            m = flip(m, i)
        elif how == "m-add":
            m = m + b"\x00" if i % 2 else b"\x00" + m
        elif how == "m-cut":
            m = m[:-1] if i % 2 else m[1:]
        elif how == "m-empty":
            m = b""
        elif how == "m-other":
            m = case["data2"]
        elif how == "s-flip":
            s = flip(s, i)
        elif how == "s-cut":
            s = s[: i % len(s)] if i % 2 else s[1:]
        elif how == "s-add":
            s = s + b"\x00"
        elif how == "s-front":
            s = b"\x00" + s
        elif how == "s-zero":
            s = bytes(len(s))
        elif how == "s-ones":
            s = b"\xff" * len(s)
        elif how == "s-empty":
            s = b""
        elif how == "s-plus-n":
            v = int.from_bytes(s, "big") + int(n)
            s = v.to_bytes(max(len(s), (v.bit_length() + 7) // 8), "big")
        elif how == "s-minus":
            s = ((int(n) - int.from_bytes(s, "big")) % int(n)).to_bytes(len(s), "big")
        elif how == "s-other":
            s = must(kp.sign, case["data2"])
        elif how == "s-random":
            s = case["data2"]
        elif how == "s-raw":
            import hashlib
            s = hashlib.sha256(m).digest().rjust(len(s), b"\x00")
        elif how == "s-of-key":
            s = keys.pair("auth", k).sign(m)
        elif how == "key":
            p = keys.pair("enc", k).public_key
        elif how == "no-key":  # refused or false, but not valid
            p = [b"", b"\n", b"\x00", case["data2"], pub[: i % len(pub)], pub[27:], pub.replace(b"A", b"")][i % 7]
            if p == pub:
                continue
            ctx.tag(how)
            ctx.nt()
            for x in (judge, kp):
                ok, got = attempt(x.signature_valid, m, s, p)
                ensure(not ok or got is False, "a signature is valid under %r", p)
            continue
        good = keys.reference_verify(p, m, s)
        ctx.tag(how)
        ctx.nt(not good)
        same(must(judge.signature_valid, m, s, p, what="signature_valid (%s)" % how), good, "verdict (%s)" % how)
        if p == pub:
            same(must(kp.signature_valid, m, s), good, "verdict (%s), key implied" % how)


# ------------------------------------------------------------------ long messages
def longs(tier):
    for i, n in enumerate(gens.LONG_SIZES):
        yield {"n": n, "kind": ("all", "auth")[i % 2], "key": i % 3}


def check_long(case, ctx):
    """Every part of a long message counts."""
    n = case["n"]
    data = gens.long_data(n)
    kp = keys.pair(case["kind"], case["key"])
    sig = must(kp.sign, data)
    want = keys.reference_signature(kp.public_key, case["key"], data)
    if want is not None:
        same(sig, want, "signature of %d bytes" % n)
    same(must(kp.signature_valid, data, sig), True, "validity for %d bytes" % n)
    for i in sorted({0, 1, n // 4, n // 2, n - 4097, n - 2, n - 1}):
        i = max(0, i)
        x = data[:i] + bytes([data[i] ^ 1]) + data[i + 1:]
        same(must(kp.signature_valid, x, sig), False, "validity for %d bytes with byte %d changed" % (n, i))
        ctx.nt()
    for x in (data[:-1], data[1:], data + b"\x00", data[: n // 2], data + data):
        same(must(kp.signature_valid, x, sig), False, "validity of the signature of %d bytes for %d bytes" % (n, len(x)))


CAMPAIGNS = [
    Enumeration("long", longs, check_long),
    Campaign("signatures", lambda tier: cases(), check, 4000, 150000),
    Campaign("new keys", lambda tier: rekeyed.programs(("all", "auth")), rekeyed.check_signing, 300, 6000),
    Enumeration("endurance", endurance.small, endurance.check_signing),
]
