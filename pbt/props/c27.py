"""C27: hash helpers compute the standard digests."""
import hashlib

from hypothesis import strategies as st

import gens
import refs
from engine import Campaign, Enumeration
from lib import ensure, must, refuses, same
from pymt.utils.hash import keccak_hash, keccak_hash_list
from pymt.utils.utils import Utils

RULE = (
    "Generated byte strings and lists of them through every helper in every output form, against a Keccak "
    "sponge written out by hand and hashlib; hash objects are updated further. Every length up to 600 bytes "
    "(all block limits) is enumerated, and so are lengths up to two megabytes next to powers of two and to the numbers "
    "written in the code, whole and in parts. Hash types other than the two are rejected. Non-trivial: data longer "
    "than 55 bytes, or a list of several parts."
)
ASSUMPTIONS = ["SHA-2 of hashlib is right."]


def blob(hi=80):
    return st.one_of(st.binary(max_size=4), st.binary(max_size=hi),
                     st.builds(lambda n, b: b * n, st.sampled_from(
                         [55, 56, 63, 64, 65, 111, 112, 119, 127, 128, 135, 136, 137, 271, 272, 273, 1000]),
                         st.binary(min_size=1, max_size=1)))


def cases():
    return st.fixed_dictionaries({
        "d": blob(), "parts": st.lists(blob(40), max_size=6), "more": blob(), "tuple": st.booleans(),
        "kind": st.sampled_from(["sha256", "sha512"]),
        "bad": st.one_of(st.text(max_size=6), st.sampled_from(
            ["sha1", "md5", "SHA256", "sha-256", "sha384", "sha3_256", "", "keccak", "sha256 ", "sha5122", "sha"]))})


def digests(d, ctx, slow=True):
    k = refs.keccak_slow(d) if slow else refs.keccak(d)
    for got, want, what in (
            (must(keccak_hash, d), k, "keccak_hash"),
            (must(keccak_hash, d, False), k, "keccak_hash"),
            (must(keccak_hash, d, hexdigest=True), k.hex().encode(), "keccak_hash as hex"),
            (must(keccak_hash_list, [d]), k, "keccak_hash_list"),
            (must(Utils.sha256, d), hashlib.sha256(d).hexdigest().encode(), "sha256"),
            (must(Utils.sha512, d), hashlib.sha512(d).hexdigest().encode(), "sha512"),
            (must(Utils.hash_data, d), hashlib.sha256(d).hexdigest().encode(), "hash_data"),
            (must(Utils.hash_data, d, True, "sha512"), hashlib.sha512(d).hexdigest().encode(), "hash_data sha512"),
            (must(Utils.hash_data, d, type="sha256"), hashlib.sha256(d).hexdigest().encode(), "hash_data sha256")):
        same(got, want, "%s of %d bytes" % (what, len(d)))
        ensure(type(got) is bytes, "%s gives a %s", what, type(got).__name__)
    for name, fn in (("sha256", Utils.sha256), ("sha512", Utils.sha512)):
        for h in (must(fn, d, False), must(Utils.hash_data, d, finalize=False, type=name)):
            want = getattr(hashlib, name)(d)
            same(h.digest(), want.digest(), name + " object")
            same(h.hexdigest(), want.hexdigest(), name + " object, hex")
    ctx.count("digests", 13)


def check(case, ctx):
    d, parts, more = case["d"], case["parts"], case["more"]
    ctx.nt(len(d) > 55 or len(parts) > 1)
    digests(d, ctx)
    seq = tuple(parts) if case["tuple"] else list(parts)
    whole = b"".join(parts)
    k = refs.keccak_slow(whole)
    same(must(keccak_hash_list, seq), k, "keccak_hash_list")
    same(must(keccak_hash_list, seq, hexdigest=True), k.hex().encode(), "keccak_hash_list as hex")
    same(must(keccak_hash_list, seq, False), k, "keccak_hash_list")
    same(list(seq), parts, "the list after hashing")
    h = must(Utils.hash_data, d, finalize=False, type=case["kind"])
    h.update(more)
    same(h.digest(), getattr(hashlib, case["kind"])(d + more).digest(), "updated hash object")
    same(must(Utils.hash_data, d, finalize=False, type=case["kind"]).digest(),
         getattr(hashlib, case["kind"])(d).digest(), "a hash object made later")
    if case["bad"] not in ("sha256", "sha512"):
        refuses(Utils.hash_data, d, True, case["bad"], what="hash type %r" % case["bad"])
        refuses(Utils.hash_data, d, finalize=False, type=case["bad"], what="hash type %r" % case["bad"])


def lengths(tier):
    for n in range(601 if tier == "quick" else 3000):
        yield {"n": n}


def check_length(case, ctx):
    n = case["n"]
    ctx.nt(n > 55)
    for d in (b"\x00" * n, bytes((i * 7 + n) % 256 for i in range(n)), b"\xff" * n):
        digests(d, ctx)
    d = bytes((i * 11) % 256 for i in range(n))
    want = refs.keccak_slow(d)
    for cut in (1, 7, 136):
        same(must(keccak_hash_list, [d[i:i + cut] for i in range(0, n, cut)]), want, "parts of %d bytes" % cut)


def big(tier):
    for n in gens.SIZES:
        for cut in (1 << 22, n // 2 + 1, 4096, 1000):
            yield {"n": n, "cut": cut}
    for n in gens.LONG_SIZES:
        if n > gens.SIZES[-1]:
            yield {"n": n, "cut": 1 << 22}
            yield {"n": n, "cut": 50000}


def check_big(case, ctx):
    n, cut = case["n"], case["cut"]
    ctx.nt(n > 55)
    d = (b"0123456789abcdef%d" % n * (n // 16 + 1))[: n]
    if cut > n:
        digests(d, ctx, slow=False)
        digests(d[:-1] + b"\x00", ctx, slow=False)
    same(must(keccak_hash_list, [d[i:i + cut] for i in range(0, n, cut)]), refs.keccak(d),
         "%d bytes in parts of %d bytes" % (n, cut))
    parts = [b"%d" % i for i in range(n % 4099)]
    same(must(keccak_hash_list, parts), refs.keccak(b"".join(parts)), "%d parts" % len(parts))


# ------------------------------------------------------------------ near twins
@st.composite
def twin_cases(draw):
    n = draw(st.one_of(st.integers(1, 40), st.sampled_from([x for x in gens.SIZES if 1 <= x <= 40000])))
    return {"n": n, "fill": draw(st.binary(min_size=1, max_size=3)),
            "at": draw(st.lists(st.integers(0, 1 << 16), min_size=1, max_size=3)), "cut": draw(st.integers(1, 300))}


def check_twins(case, ctx):
    """Data that differ in one byte only, hashed in turn with one another."""
    n = case["n"]
    d = (case["fill"] * (n // len(case["fill"]) + 1))[:n]
    every = [d]
    for i in case["at"]:
        e = bytearray(d)
        e[i % n] ^= 1 + i % 255
        every.append(bytes(e))
    e = bytearray(d)
    e[n // 2] ^= 0x20
    every += [bytes(e), d[:-1] + b"?", b"?" + d[1:], d]
    ctx.nt(n > 55)
    cut = max(case["cut"], n // 50 + 1)
    for e in every:
        digests(e, ctx, slow=False)
        parts = [e[i:i + cut] for i in range(0, n, cut)]
        same(must(keccak_hash_list, parts), refs.keccak(e), "keccak_hash_list of near twins")


CAMPAIGNS = [
    Campaign("inputs", lambda tier: cases(), check, 5000, 250000),
    Enumeration("lengths", lengths, check_length),
    Enumeration("big", big, check_big),
    Campaign("twins", lambda tier: twin_cases(), check_twins, 800, 20000),
]
