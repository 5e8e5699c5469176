"""C24: encrypted messages reach only the receiver, unaltered."""
import json

from hypothesis import strategies as st

import gens
import keys
from engine import Campaign, Enumeration
from lib import attempt, ensure, must, refuses, same, spread
from props import endurance, rekeyed

RULE = (
    "Messages of generated content and length between pairs of fixed keys, general and encryption-only on "
    "both sides: decrypting gives the message; the envelope differs each time and does not contain the "
    "message. Then wrong receiver and sender keys, and one to three alterations of the envelope (fields "
    "flipped, cut, extended, removed, exchanged with those of another envelope, bytes of the text): it must "
    "raise unless the decoded fields are still exactly those of a genuine envelope, whose message must then "
    "come out. The operations outside the roles are refused. Messages of every length next to a power of two up to "
    "two megabytes, hidden and protected in every part. Non-trivial: an altered envelope or wrong key."
) + endurance.RULE + rekeyed.RULE
ASSUMPTIONS = ["The AEAD and the RSA primitives of pycryptodome are sound.",
               "Replacing session key, tag and wrapping together (known finding D25) is not generated."]


def message():
    return st.one_of(st.binary(max_size=20), st.binary(min_size=8, max_size=60), st.just(b""),
                     st.integers(0, 3000).map(lambda n: (b"message %d " % n) * (n // 8 + 1)),
                     st.sampled_from([b"\x00" * 8, b"{}", b"a" * 15, b"a" * 16, b"a" * 17, bytes(range(256)) * 40]),
                     st.integers(0, 4).flatmap(lambda n: st.binary(max_size=200) if n else gens.big_bytes(131071)))


ALTER = ["flip", "flip", "cut", "add", "empty", "remove", "nohex", "exchange", "exchange", "exchange", "swap",
         "raw-flip", "raw-flip", "raw-cut", "raw-add", "front", "extra", "list", "upper", "null", "exchange-many"]


def k():
    return st.sampled_from(keys.SMALL + [0, 1, 2, 6, 7])


def cases():
    return st.fixed_dictionaries({
        "from": st.tuples(st.sampled_from(["all", "enc"]), k()).map(list),
        "to": st.tuples(st.sampled_from(["all", "enc"]), k()).map(list),
        "third": st.tuples(st.sampled_from(["all", "enc"]), k()).map(list),
        "m": message(), "m2": message(), "same_sender": st.booleans(),
        "by": st.lists(st.lists(st.tuples(st.sampled_from(ALTER), st.integers(0, 9000), st.integers(0, 9000)).map(list),
                                min_size=1, max_size=3), min_size=2, max_size=5)})


def flip(b, i):
    if not b:
        return b"\x01"
    i = spread(i, 8 * len(b))
    return b[: i // 8] + bytes([b[i // 8] ^ (1 << (i % 8))]) + b[i // 8 + 1:]


def fields(env):
    """The decoded fields of an envelope (None for what cannot be decoded), None if it is none."""
    try:
        d = json.loads(env.decode("utf-8"))
        out = {}
        for n, v in d.items():
            try:
                out[n] = bytes.fromhex(v)
            except (TypeError, ValueError):
                out[n] = None
        return out
    except Exception:
        return None


def alter(env, other, by):
    how, i, j = by
    if how.startswith("raw"):
        if how == "raw-flip":
            return flip(env, i)
        return env[: i % max(1, len(env))] if how == "raw-cut" else env + b"}"
    try:
        d = json.loads(env.decode())
        e = json.loads(other.decode())
        names = sorted(d)
        n = names[i % len(names)]
        v = d[n]
    except Exception:
        return env
    if how == "list":
        return json.dumps([d]).encode()
    if how == "extra":
        d["more"] = "00"
        return json.dumps(d).encode()
    if how == "remove":
        del d[n]
    elif how == "null":
        d[n] = None
    elif how == "exchange":
        d[n] = e.get(n, v)
    elif how == "exchange-many":
        for x in range(len(names)):
            if (i >> x) & 1:
                d[names[x]] = e.get(names[x], "")
    elif how == "swap":
        o = names[j % len(names)]
        d[n], d[o] = d[o], d[n]
    elif isinstance(v, str):
        try:
            raw = bytes.fromhex(v)
        except ValueError:
            raw = b""
        d[n] = {"flip": flip(raw, j).hex(), "cut": raw[: j % max(1, len(raw))].hex(), "add": v + "00",
                "front": "00" + v, "empty": "", "nohex": "zz" + v[2:], "upper": v.upper()}[how]
    return json.dumps(d).encode()


def check(case, ctx):
    m = case["m"]
    a = keys.pair(*case["from"])
    b = keys.pair(*case["to"])
    c = keys.pair(*case["third"])
    apub, bpub, cpub = a.public_key, b.public_key, c.public_key
    e = must(a.encrypt, m, bpub)
    e2 = must(a.encrypt, m, bpub)
    ensure(isinstance(e, bytes), "an envelope is a %s", type(e).__name__)
    ensure(e != e2, "two envelopes are equal")
    for x in (e, e2):
        got = must(b.decrypt, x, apub)
        same(got, m, "decrypted message")
        ensure(type(got) is bytes, "a message is a %s", type(got).__name__)
    f, f2 = fields(e), fields(e2)
    if len(m) >= 8:
        shown = [e, e2] + list((f or {}).values())
        for x in shown:
            ensure(m not in x and m.hex().encode() not in x, "the envelope shows the message")
    if f and f2 and len(m) >= 8:
        for n in f:
            if f[n] == f2.get(n):
                ensure(False, "two envelopes of a message have the same %s", n)
    if bpub != cpub:
        refuses(c.decrypt, e, apub, what="decrypting with another receiver key")
        ctx.nt()
    if apub != cpub:
        refuses(b.decrypt, e, cpub, what="decrypting with another sender key")
        ctx.nt()
    sender2 = a if case["same_sender"] else c
    o = must(sender2.encrypt, case["m2"], bpub)
    of = fields(o)
    for by in case["by"]:
        x = e
        for step in by:
            x = alter(x, o, step)
            ctx.tag(step[0])
        ok, got = attempt(b.decrypt, x, apub)
        xf = fields(x)
        if xf is not None and f is not None and {n: xf.get(n) for n in f} == f:
            # Only the spelling differs (or a field that means nothing was added).
            if ok:
                same(got, m, "message from an envelope with other spelling")
        elif xf is not None and of is not None and {n: xf.get(n) for n in of} == of:
            ctx.tag("entirely the other envelope")
            if sender2.public_key == apub:
                same((ok, got), (True, case["m2"]), "message of the other envelope")
            else:
                ensure(not ok, "an envelope of another sender was accepted")
        elif xf is not None and of is not None and all(xf.get(n) == of[n] for n in of if n != "signature"):
            # The other's session key, nonce and tag around the ciphertext of both (two empty messages): finding D25.
            ctx.tag("session of the other envelope")
            if ok:
                same(got, case["m2"], "message of the other session")
        else:
            ctx.nt()
            ctx.count("altered envelopes")
            ensure(not ok, "an altered envelope (%s) gave %r", [s[0] for s in by], got)


def role_cases():
    return st.fixed_dictionaries({"key": k(), "m": message(), "to": k()})


def check_roles(case, ctx):
    m = case["m"]
    allk, auth, enc = (keys.pair(x, case["key"]) for x in ("all", "auth", "enc"))
    to = keys.pair("all", case["to"])
    ctx.nt()
    env = must(to.encrypt, m, allk.public_key)
    sig = must(allk.sign, m)
    refuses(auth.encrypt, m, to.public_key, what="encrypting with a signing pair")
    refuses(auth.decrypt, env, to.public_key, what="decrypting with a signing pair")
    refuses(enc.sign, m, what="signing with an encryption pair")
    refuses(enc.signature_valid, m, sig, what="checking a signature with an encryption pair")
    refuses(enc.signature_valid, m, sig, allk.public_key, what="checking a signature with an encryption pair")
    same(must(auth.sign, m), sig, "signature of the signing pair")
    same(must(auth.signature_valid, m, sig, allk.public_key), True, "validity for the signing pair")
    same(must(enc.decrypt, env, to.public_key), m, "message for the encryption pair")
    same(must(to.decrypt, must(enc.encrypt, m, to.public_key), enc.public_key), m, "message of the encryption pair")
    # One pair can be both ends.
    same(must(allk.decrypt, must(allk.encrypt, m, allk.public_key), allk.public_key), m, "message to oneself")


def rewrapped():
    """A third party makes the receiver accept what the sender never wrote."""
    from Crypto.Cipher import AES, PKCS1_OAEP
    from Crypto.PublicKey import RSA

    a, b = keys.pair("all", 0), keys.pair("all", 1)
    d = json.loads(a.encrypt(b"pay 10 to Bob", b.public_key))
    key = bytes(16)
    ct = bytes.fromhex(d["ciphertext"])
    nonce = bytes(16)
    garbage = AES.new(key, AES.MODE_EAX, nonce).decrypt(ct)
    _, tag = AES.new(key, AES.MODE_EAX, nonce).encrypt_and_digest(garbage)
    d["enc_session_key"] = PKCS1_OAEP.new(RSA.import_key(b.public_key)).encrypt(key).hex()
    d["nonce"], d["tag"] = nonce.hex(), tag.hex()
    try:
        return b.decrypt(json.dumps(d).encode(), a.public_key) == garbage != b"pay 10 to Bob"
    except Exception:
        return False


KNOWN = [("D25", "the signature covers the ciphertext only: with a session key, nonce and tag of a third "
                 "party an envelope decrypts to bytes the sender never wrote", rewrapped)]

# ------------------------------------------------------------------ long messages
def longs(tier):
    for i, n in enumerate(gens.LONG_SIZES):
        yield {"n": n, "kind": ("all", "enc")[i % 2]}


def check_long(case, ctx):
    """Every part of a long message is hidden, comes back and is protected."""
    n = case["n"]
    d = gens.long_data(n)
    a, b = keys.pair(case["kind"], 0), keys.pair("enc", 1)
    env = must(a.encrypt, d, b.public_key)
    same(must(b.decrypt, env, a.public_key), d, "message of %d bytes" % n)
    f = fields(env) or {}
    for i in sorted({0, n // 4, n // 2, n - 40, n - 16}):
        for x in [env] + list(f.values()):
            ensure(d[i:i + 16] not in (x or b"") and d[i:i + 16].hex().encode() not in (x or b""),
                   "the envelope of %d bytes shows the message from byte %d on", n, i)
    try:
        form = json.loads(env.decode())
    except ValueError:
        form = None
    if isinstance(form, dict):
        for name in sorted(form):
            v = f.get(name)
            if not v or len(v) < n:
                continue
            m = len(v)
            for i in sorted({0, 20, m // 4, m // 2, m - n // 3, m - 4097, m - 33, m - 1}):
                x = dict(form, **{name: (v[:i] + bytes([v[i] ^ 1]) + v[i + 1:]).hex()})
                refuses(b.decrypt, json.dumps(x).encode(), a.public_key,
                        what="decrypting %d bytes with byte %d of the %s changed" % (n, i, name))
                ctx.nt()
            for y in (v[:-1], v + b"\x00", v[: m // 2], v[: m // 2] + v[m // 2 + 1:]):
                refuses(b.decrypt, json.dumps(dict(form, **{name: y.hex()})).encode(), a.public_key,
                        what="decrypting %d bytes with the %s cut or extended" % (n, name))


CAMPAIGNS = [
    Enumeration("long", longs, check_long),
    Campaign("envelopes", lambda tier: cases(), check, 2400, 80000),
    Campaign("roles", lambda tier: role_cases(), check_roles, 400, 8000),
    Enumeration("endurance", endurance.small, endurance.check_letters),
    Campaign("new keys", lambda tier: rekeyed.programs(("all", "enc")), rekeyed.check_envelopes, 150, 3000),
]
