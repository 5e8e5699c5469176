"""C25: exported keys import unchanged and only with the passphrase."""
import base64
import contextlib
import json
import os
import re
import shutil
import tempfile

from hypothesis import strategies as st

import gens
import keys
from engine import Campaign
from lib import ensure, must, refuses, same
from props import rekeyed
from Crypto.IO._PBES import PBES2
from Crypto.PublicKey import RSA

RULE = (
    "Key pairs of the three classes with generated nicknames exported under generated Latin-1 passphrases to "
    "strings and to files (new and over older exports) and imported by each class: same public key, nickname, "
    "class, signatures and readable envelopes. Near misses of the passphrase and missing files raise; neither "
    "the text nor what it encodes holds the private numbers or a key that loads without passphrase. "
    "Non-trivial: a wrong passphrase was refused."
) + rekeyed.RULE
ASSUMPTIONS = ["Files are made in a scratch directory only.",
               "Most cases run with fewer rounds of the key derivation than pycryptodome uses by default."]


LATIN = st.characters(min_codepoint=0, max_codepoint=255)


def long_text(word):
    n = st.sampled_from([x for x in gens.SMALL_SIZES if x > 1])
    return st.integers(0, 5).flatmap(
        lambda i: st.text(LATIN, min_size=1, max_size=9) if i else n.map(lambda k: (word * k)[: k - 1] + "!"))


def nickname():
    return st.one_of(st.text(max_size=8), st.sampled_from(
        ["", "n", '"', "\\", "\n", "\u0000", "é", "日本", "\U0001f600", "\ud800", "null", "None", "{}", " n ", "N"]),
        long_text("nick"))


def passphrase():
    return st.one_of(st.text(LATIN, min_size=1, max_size=6), st.text(LATIN, min_size=1, max_size=60),
                     st.sampled_from(["a", " ", "\x00", "secret", "Secret", "é", "ÿ", "pass word", '"', "0", "a" * 200]), long_text("pass"))


def cases():
    return st.fixed_dictionaries({
        "kind": st.sampled_from(["all", "auth", "enc"]), "into": st.sampled_from(["all", "auth", "enc"]),
        "key": st.sampled_from(keys.SMALL + [6, 7]), "before": st.sampled_from(keys.SMALL + [7]),
        "nick": nickname(), "nick2": nickname(), "pass": passphrase(), "wrong": passphrase(), "i": st.integers(0, 50),
        "m": st.binary(max_size=30)})


def alike(a, b):
    """The key derivation of the standard (HMAC) pads with zero bytes, so that it
    does not tell passphrases apart that differ in trailing zeros."""
    return a.rstrip("\x00") == b.rstrip("\x00")


def near(p, i):
    out = [p + " ", p[:-1], p[1:], p.swapcase(), p[::-1], p.strip(), " " + p, p + p,
           p[: i % len(p)] + chr(ord(p[i % len(p)]) ^ 1) + p[i % len(p) + 1:], "", p[: len(p) // 2],
           p[: i % len(p)] + chr(ord(p[i % len(p)]) ^ 0x80) + p[i % len(p) + 1:], p.lower(), p.upper() if p.upper().isascii() else p]
    return [x for x in dict.fromkeys(out) if not alike(x, p)]


def decoded_parts(text):
    """The text and everything it encodes, as bytes."""
    out = [text.encode("utf-8", "surrogatepass")]
    try:
        d = json.loads(text)
        vals = [v for v in d.values() if isinstance(v, str)] if isinstance(d, dict) else []
    except ValueError:
        vals = []
    vals.append(text)
    for v in vals:
        b = v.encode("utf-8", "surrogatepass")
        out.append(b)
        try:
            out.append(bytes.fromhex(v))
        except ValueError:
            pass
    for b in list(out):
        for body in re.findall(rb"-----BEGIN [^-]+-----(.*?)-----END", b, re.S):
            lines = [x for x in body.split(b"\n") if b":" not in x]
            try:
                out.append(base64.b64decode(b"".join(lines)))
            except ValueError:
                pass
        try:
            out.append(base64.b64decode(b, validate=True))
        except ValueError:
            pass
    return out


def secrecy(text, key):
    parts = decoded_parts(text)
    for name in ("d", "p", "q"):
        v = int(getattr(key, name))
        raw = v.to_bytes((v.bit_length() + 7) // 8, "big")
        forms = [raw, raw.hex().encode(), b"%d" % v, base64.b64encode(raw)]
        for x in parts:
            low = x.lower()
            for f in forms:
                ensure(f not in x and f.lower() not in low if f is not forms[0] else f not in x,
                       "the exported text shows the private number %s", name)
    for x in parts:
        try:
            k = RSA.import_key(x)
        except Exception:
            continue
        ensure(not k.has_private(), "the exported text has a private key that needs no passphrase")


def equal_pair(got, kp, cls, nick, pub, what):
    ensure(type(got) is cls, "%s gives a %s", what, type(got).__name__)
    same(must(lambda: got.public_key), pub, "public key " + what)
    same(must(lambda: got.public_key_string), pub.decode(), "public key text " + what)
    same(must(lambda: got.nickname), nick, "nickname " + what)
    if type(kp) is cls:
        ensure(got == kp and kp == got, "the pair %s is not equal", what)
        same(hash(got), hash(kp), "hash " + what)


@contextlib.contextmanager
def quick_derivation():
    """Fewer rounds of the key derivation, unless they are asked for: nearly all
    the time would go there. The count is part of the exported key, so importing
    is not affected."""
    real = PBES2.encrypt

    def encrypt(data, passphrase, protection, prot_params=None, *args, **kw):
        return real(data, passphrase, protection, {"iteration_count": 50, **(prot_params or {})}
                    if protection.startswith("PBKDF2") else prot_params, *args, **kw)

    PBES2.encrypt = staticmethod(encrypt)
    try:
        yield
    finally:
        PBES2.encrypt = staticmethod(real)


def check_quick(case, ctx):
    with quick_derivation():
        check(case, ctx)


def check(case, ctx):
    nick, p = case["nick"], case["pass"]
    kp = keys.pair(case["kind"], case["key"], nick)
    cls = keys.CLASSES[case["into"]]
    pub = kp.public_key
    full = keys.pair("all", case["key"], nick)
    friend = keys.pair("all", case["before"], "friend")
    sig = full.sign(case["m"])
    env = friend.encrypt(case["m"], pub)
    scratch = tempfile.mkdtemp(prefix="pbt-c25-")
    try:
        path = os.path.join(scratch, "key.json")
        if case["i"] % 2:  # an older export is there
            keys.pair("all", case["before"], case["nick2"] * 3).to_key_file(path, case["wrong"])
        missing = os.path.join(scratch, "missing.json")
        text = must(kp.to_key_string, p, what="to_key_string")
        ensure(isinstance(text, str), "the export is a %s", type(text).__name__)
        must(kp.to_key_file, path, p, what="to_key_file")
        refuses(cls.from_key_file, missing, p, what="importing a missing file")
        ensure(not os.path.exists(missing), "importing a missing file made it")
        with open(path, encoding="utf-8", errors="surrogatepass") as f:
            in_file = f.read()
        for form, load, arg in (("string", cls.from_key_string, text), ("file", cls.from_key_file, path)):
            got = must(load, arg, p, what="import from a " + form)
            what = "imported from a " + form
            equal_pair(got, kp, cls, nick, pub, what)
            if case["into"] != "enc":
                same(must(got.sign, case["m"]), sig, "signature by the pair " + what)
                same(must(got.signature_valid, case["m"], sig), True, "validity for the pair " + what)
            if case["into"] != "auth":
                same(must(got.decrypt, env, friend.public_key), case["m"], "message for the pair " + what)
                e = must(got.encrypt, case["m"], friend.public_key)
                same(must(friend.decrypt, e, pub), case["m"], "message of the pair " + what)
            again = must(got.to_key_string, case["wrong"], what="export again")
            same(must(cls.from_key_string, again, case["wrong"]).public_key, pub, "public key after a second round")
            if not alike(case["wrong"], p):
                refuses(load, arg, case["wrong"], what="importing from a %s with another passphrase" % form)
                ctx.nt()
            for w in near(p, case["i"])[: 4 if form == "file" else 12]:
                refuses(load, arg, w, what="importing from a %s with passphrase %r for %r" % (form, w, p))
                ctx.nt()
                ctx.count("wrong passphrases")
        for t, what in ((text, "exported text"), (in_file, "exported file")):
            d = must(json.loads, t, what="reading the %s as JSON" % what)  # the documented format
            same((d.get("nickname"), d.get("public_key")), (nick, pub.decode()), "name and public key in the " + what)
        secrecy(text, keys.number(case["key"]))
        secrecy(in_file, keys.number(case["key"]))
        same((kp.nickname, kp.public_key), (nick, pub), "the original afterwards")
    finally:
        shutil.rmtree(scratch)


CAMPAIGNS = [
    Campaign("exports", lambda tier: cases(), check_quick, 900, 40000),
    Campaign("exports at full cost", lambda tier: cases(), check, 16, 1600),
    Campaign("new keys", lambda tier: rekeyed.programs(("all", "auth", "enc")), rekeyed.check_exports, 60, 1500),
]
