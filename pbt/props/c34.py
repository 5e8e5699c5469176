"""C34: generated keys are fresh, of the kind asked for, and stay."""
import os
import random
import re

from Crypto.PublicKey import ECC, RSA
from hypothesis import strategies as st

import gens
import keys
from engine import Campaign, Enumeration
from lib import attempt, ensure, must, refuses, same
from pymt.keypairs import RsaAuthKeyPair, RsaEncKeyPair, RsaKeyPair
from pymt.utils.utils import Utils

RULE = (
    "Keys that are really generated: key pairs of all three classes at generated lengths (and the default), made "
    "at once or later, generated again, with equal nicknames, with the random module seeded alike, and in forked "
    "processes: every modulus is of the length asked for, never seen before, fits its own public key and works. "
    "Histories of reading, renaming, attempts to set or delete keys and names, signing and generating again on "
    "two pairs: each shows its present key and name only. The helpers give private PEM keys of the kind and "
    "curve asked for, never twice. Non-trivial: a key compared with one generated before."
)
ASSUMPTIONS = ["The system's source of randomness works; which keys come out is not reproducible, only what is judged."]
CLASSES = {"all": RsaKeyPair, "auth": RsaAuthKeyPair, "enc": RsaEncKeyPair}


def judge(kp, bits, kind, seen):
    pub = must(lambda: kp.public_key, what="public_key")
    ensure(isinstance(pub, bytes), "public_key is a %s", type(pub).__name__)
    same(must(lambda: kp.public_key_string, what="public_key_string"), pub.decode(), "public_key_string")
    ok, k = attempt(RSA.import_key, pub)
    ensure(ok and not k.has_private(), "public_key is no RSA public key: %r", pub[:40])
    same(k.size_in_bits(), bits, "length of the key")
    ensure(k.e > 1 and k.e % 2 == 1, "public exponent %d", k.e)
    ensure(k.n not in seen, "a key was generated twice")
    ensure(b"PRIVATE" not in pub, "public_key shows the private key")
    seen.add(k.n)
    works(kp, kind, k)
    return k


def works(kp, kind, k):
    m = b"message %d" % (k.n % 1000)
    if kind != "enc":
        s = must(kp.sign, m, what="sign")
        ensure(keys.reference_verify(k.export_key(), m, s), "the signature is not one of the public key")
        ensure(must(kp.signature_valid, m, s) is True, "the own signature is not valid")
        ensure(must(kp.signature_valid, m + b"!", s) is False, "the signature is valid for something else")
    if kind != "auth":
        e = must(kp.encrypt, m, kp.public_key, what="encrypt")
        same(must(kp.decrypt, e, kp.public_key, what="decrypt"), m, "decrypted")


def fresh_cases(tier):
    lengths = [1024, 1025, 1031, 1152, 1280, 1536, 2048] if tier == "quick" else list(range(1024, 1100)) + [1536, 2047, 2048, 3072, 4096]
    for i, bits in enumerate(lengths):
        for kind in ("all", "auth", "enc") if bits < 2000 else ("all",):
            yield {"kind": kind, "bits": bits, "n": 3 if bits < 1500 else 2, "how": ["later", "again", "seeded"][(i + len(kind)) % 3]}
    for kind in CLASSES:
        yield {"kind": kind, "bits": 1024, "n": 2, "how": "forked"}
    yield {"kind": "all", "bits": None, "n": 1, "how": "default"}


def make(kind, name):
    return must(CLASSES[kind], name, _generate_keys=False, what="%s(%r)" % (kind, name))


def forked(kind, bits):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            kp = make(kind, "fork")
            kp.generate_keypair(bits)
            os.write(w, kp.public_key)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        got = f.read()
    os.waitpid(pid, 0)
    return got


def check_fresh(case, ctx):
    kind, bits = case["kind"], case["bits"]
    seen = set()
    ctx.tag(case["how"])
    ctx.nt()
    if case["how"] == "default":
        kp = must(CLASSES[kind], what="making a key pair")
        judge(kp, 4096, kind, seen)
        ensure(re.fullmatch("[0-9a-f]{32}", kp.nickname) is not None, "the nickname %r", kp.nickname)
        return
    if case["how"] == "forked":
        got = [forked(kind, bits) for _ in range(case["n"] + 1)]
        ensure(all(got), "no key was generated in a forked process")
        ensure(len(set(got)) == len(got), "two processes generated one key")
        return
    kp = make(kind, "same")
    for i in range(case["n"]):
        if case["how"] == "later":
            kp = make(kind, "same")
        if case["how"] == "seeded":
            random.seed(7)
            kp = make(kind, "same")
        must(kp.generate_keypair, bits, what="generate_keypair(%d)" % bits)
        judge(kp, bits, kind, seen)
        same(kp.nickname, "same", "nickname")


# Fresh keys take long; in histories generating hands out keys of the fixtures.
@st.composite
def histories(draw):
    name = st.one_of(st.text(max_size=6), st.sampled_from(["", "a", "n", "None", "0" * 32]))
    op = st.one_of(
        st.tuples(st.sampled_from(["generate", "generate", "sign", "read", "set key", "set text", "del key", "del text",
                                   "del name", "text"]), st.integers(0, 1), st.integers(0, 6)),
        st.tuples(st.just("rename"), st.integers(0, 1), name))
    return {"kinds": [draw(st.sampled_from(list(CLASSES))) for _ in range(2)],
            "names": [draw(st.one_of(st.none(), name)) for _ in range(2)],
            "ops": [list(o) for o in draw(st.lists(op, min_size=3, max_size=14))]}


class handing:
    """RSA.generate gives the key of that number while this is in force."""

    def __init__(self, i):
        self.key = keys.number(keys.SMALL[i % len(keys.SMALL)])

    def __enter__(self):
        self.real, self.asked = RSA.generate, []

        def gen(bits, *a, **kw):
            self.asked.append(bits)
            return self.key
        RSA.generate = gen
        return self

    def __exit__(self, *a):
        RSA.generate = self.real


def check_history(case, ctx):
    pairs, now, names = [], [], []
    for j in range(2):
        with handing(j):
            kp = make(case["kinds"][j], case["names"][j])
            kp.generate_keypair(1024)
        pairs.append(kp)
        now.append(kp.public_key)
        names.append(kp.nickname if case["names"][j] is None else case["names"][j])
        if case["names"][j] is None:
            ensure(re.fullmatch("[0-9a-f]{32}", kp.nickname) is not None, "the nickname %r", kp.nickname)
    if case["names"] == [None, None]:
        ensure(names[0] != names[1], "two pairs were given one nickname")
    for step, (op, j, a) in enumerate(case["ops"]):
        kp, kind = pairs[j], case["kinds"][j]
        what = "at step %d (%s)" % (step, op)
        ctx.tag(op)
        if op == "generate":
            with handing(a) as h:
                must(kp.generate_keypair, 1024, what="generate_keypair")
            got = kp.public_key
            if h.asked:
                same(h.asked, [1024], "lengths asked for")
                same(RSA.import_key(got).n, h.key.n, "the key after generating " + what)
            else:
                ensure(got != now[j], "generating again keeps the key")
            now[j] = got
            ctx.nt()
        elif op == "rename":
            kp.nickname = a
            names[j] = a
        elif op == "set key":
            refuses(setattr, kp, "public_key", now[1 - j], types=(ValueError, AttributeError), what="setting the key")
        elif op == "set text":
            refuses(setattr, kp, "public_key_string", now[1 - j].decode(), types=(ValueError, AttributeError),
                    what="setting the key text")
        elif op in ("del key", "del text", "del name"):
            refuses(delattr, kp, {"key": "public_key", "text": "public_key_string", "name": "nickname"}[op[4:]],
                    types=(ValueError, AttributeError), what=op)
        elif op == "text":
            must(str, kp)
            must(repr, kp)
            ensure("PRIVATE" not in repr(kp) + str(kp), "the private key is shown")
        elif op == "sign":
            works(kp, kind, RSA.import_key(now[j]))
        for i in range(2):
            same(pairs[i].public_key, now[i], "public key of pair %d %s" % (i, what))
            same(pairs[i].public_key_string, now[i].decode(), "public key text of pair %d %s" % (i, what))
            same(pairs[i].nickname, names[i], "nickname of pair %d %s" % (i, what))


CURVES = ["P-256", "P-384", "P-521"]
SPELLINGS = {"P-256": ["P-256", "p-256"], "P-384": ["P-384", "p-384"], "P-521": ["P-521", "p-521"]}
WRONG = ["", "P-255", "rsa", "P-256 ", "x", "P_256", "P-257", "P-2560"]


def helper_cases(tier):
    n = 12 if tier == "quick" else 200
    yield {"how": "rsa", "n": 2}
    yield {"how": "rsa", "n": 2}
    for c in CURVES:
        for s in SPELLINGS[c]:
            yield {"how": "ecc", "curve": c, "name": s, "n": n}
    yield {"how": "ecc", "curve": "P-256", "name": None, "n": n}
    yield {"how": "forked", "n": 3}
    for w in WRONG:
        yield {"how": "wrong", "name": w}


def fork_call(fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.write(w, fn())
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        got = f.read()
    os.waitpid(pid, 0)
    return got


def check_helper(case, ctx):
    how = case["how"]
    ctx.tag(how)
    if how == "rsa":
        seen = set()
        for _ in range(case["n"]):
            random.seed(3)
            pem = must(Utils.generate_rsa_keypair)
            ensure(isinstance(pem, bytes) and pem.startswith(b"-----BEGIN"), "not PEM bytes: %r", pem[:30])
            k = RSA.import_key(pem)
            ensure(k.has_private(), "no private key")
            same(k.size_in_bits(), 2048, "length")
            ensure(k.n not in seen, "a key twice")
            seen.add(k.n)
            same((Utils.rsa_key_valid(pem, "private"), Utils.rsa_key_valid(pem, "public")), (True, False), "rsa_key_valid")
            same(Utils.rsa_key_valid(k.publickey().export_key(), "public"), True, "rsa_key_valid of the public part")
        ctx.nt()
    elif how == "ecc":
        seen = set()
        for _ in range(case["n"]):
            random.seed(3)
            pem = must(Utils.generate_ecc_key) if case["name"] is None else must(Utils.generate_ecc_key, curve=case["name"])
            ensure(isinstance(pem, bytes) and pem.startswith(b"-----BEGIN"), "not PEM bytes: %r", pem[:30])
            k = ECC.import_key(pem)
            ensure(k.has_private(), "no private key")
            ref = ECC.construct(curve=case["curve"], d=k.d)  # raises if d is out of range
            same((k.curve, k.pointQ == ref.pointQ), (ref.curve, True), "curve and point")
            ensure(k.d not in seen, "a key twice")
            seen.add(k.d)
            same((Utils.rsa_key_valid(pem, "private"), Utils.rsa_key_valid(pem, "public")), (False, False), "rsa_key_valid")
        ctx.nt()
    elif how == "forked":
        got = [fork_call(Utils.generate_ecc_key) for _ in range(case["n"])]
        ensure(all(got) and len(set(got)) == len(got), "two processes generated one key")
        ctx.nt()
    else:
        refuses(Utils.generate_ecc_key, curve=case["name"], what="generate_ecc_key(%r)" % case["name"])


CAMPAIGNS = [
    Enumeration("fresh", fresh_cases, check_fresh),
    Campaign("history", lambda tier: histories(), check_history, 1200, 20000),
    Enumeration("helpers", helper_cases, check_helper),
]
