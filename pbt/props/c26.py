"""C26: password encryption round-trips and detects tampering."""
from hypothesis import strategies as st

import gens
from engine import Campaign, Enumeration
from lib import attempt, ensure, must, refuses, same, spread
from props import endurance
from pymt.utils.utils import Utils

RULE = (
    "Data of generated content and length under generated passwords (any text with an encoding): decrypting "
    "gives the data, two outputs differ and neither contains the data. Near misses of the password, every "
    "kind of change of the output (each byte of short ones; bits, bytes, cuts, additions, parts of another "
    "output) raise. Data of every length next to a power of two up to two megabytes, hidden and protected "
    "in every part. Non-trivial: data of at least one byte and an alteration refused."
) + endurance.RULE
ASSUMPTIONS = ["The AEAD of pycryptodome is sound."]


def data():
    return st.one_of(st.binary(max_size=4), st.binary(max_size=70), st.integers(0, 4000).map(lambda n: b"d" * n),
                     st.sampled_from([b"", b"\x00" * 16, b"\x00" * 32, b"0123456789abcdef", bytes(range(256))]),
                     st.integers(0, 4).flatmap(lambda n: st.binary(max_size=200) if n else gens.big_bytes()))


def password():
    return st.one_of(
        st.text(st.characters(blacklist_categories=("Cs",)), max_size=10),
        st.text(st.characters(min_codepoint=32, max_codepoint=126), max_size=30),
        st.sampled_from(["", " ", "a", "A", "\x00", "é", "e\u0301", "ÿ", "日本", "\U0001f600", "p" * 1000, "\ufeff", "ß", "ss"]))


def cases():
    return st.fixed_dictionaries({
        "d": data(), "d2": data(), "p": password(), "q": password(), "i": st.integers(0, 40000),
        "by": st.lists(st.tuples(st.sampled_from(["flip", "cut", "front", "add", "insert", "delete", "set", "part", "part",
                                                  "swap", "reverse", "empty", "double"]),
                                 st.integers(0, 40000), st.integers(0, 255)).map(list), min_size=2, max_size=8)})


def near(p, i):
    out = [p + " ", p + "\x00", p[:-1], p[1:], p.swapcase(), p.strip(), " " + p, p[::-1], p + p, p.casefold(), ""]
    import unicodedata
    out += [unicodedata.normalize(f, p) for f in ("NFC", "NFD", "NFKC")]
    out += [p.encode("ascii", "ignore").decode(), p.encode("ascii", "replace").decode(), p[: len(p) // 2], p[:32]]
    if p:
        j = i % len(p)
        c = chr(ord(p[j]) ^ 1)
        out.append(p[:j] + c + p[j + 1:])
    return [x for x in dict.fromkeys(out) if x != p and not any(0xD800 <= ord(c) < 0xE000 for c in x)]


def check(case, ctx):
    d, p = case["d"], case["p"]
    a = must(Utils.encrypt, d, p)
    b = must(Utils.encrypt, d, p)
    ensure(type(a) is bytes, "the output is a %s", type(a).__name__)
    ensure(a != b and a != d, "two outputs are equal, or the data itself")
    if len(d) >= 8:
        ensure(d not in a and d[:8] not in a and d[-8:] not in a, "the output shows the data")
    for x in (a, b):
        got = must(Utils.decrypt, x, p)
        same(got, d, "decrypted data")
        ensure(type(got) is bytes, "the data is a %s", type(got).__name__)
    for w in near(p, case["i"]) + ([case["q"]] if case["q"] != p else []):
        refuses(Utils.decrypt, a, w, what="decrypting with %r for %r" % (w, p))
        ctx.count("wrong passwords")
    o = must(Utils.encrypt, case["d2"], p)
    wrong = must(Utils.encrypt, d, case["q"])
    todo = []
    for how, i, v in case["by"]:
        x = bytearray(a)
        n = spread(i, len(x)) if x else 0
        if how == "flip":
            x[n] ^= 1 << (v % 8)
        elif how == "set":
            x[n] = v
        elif how == "cut":
            x = x[:n]
        elif how == "front":
            x = x[n + 1:]
        elif how == "add":
            x += bytes([v]) * (1 + i % 17)
        elif how == "insert":
            x.insert(n, v)
        elif how == "delete":
            del x[n]
        elif how == "reverse":
            x.reverse()
        elif how == "empty":
            x = bytearray()
        elif how == "double":
            x = x + x
        elif how == "swap":
            m = v % len(x)
            x[n], x[m] = x[m], x[n]
        else:
            src = (o, b, wrong)[v % 3]
            x = bytearray(a[:n] + src[n:]) if v % 2 else bytearray(src[:n] + a[n:])
        ctx.tag(how)
        todo.append(bytes(x))
    if len(a) <= 40:
        for n in range(len(a)):
            todo.append(a[:n] + bytes([a[n] ^ (1 << (case["i"] % 8))]) + a[n + 1:])
            todo.append(a[:n])
    for x in todo:
        if x in (a, b):
            continue
        if x == wrong and case["q"] == p:
            continue
        if x == o:
            same(must(Utils.decrypt, x, p), case["d2"], "data of the other output")
            continue
        refuses(Utils.decrypt, x, p, what="decrypting an altered output")
        ctx.nt(bool(d))
        ctx.count("altered outputs")


# ------------------------------------------------------------------ long data
def longs(tier):
    for n in gens.LONG_SIZES:
        yield {"n": n}


def check_long(case, ctx):
    """Every part of long data is hidden, comes back and is protected."""
    n = case["n"]
    d = gens.long_data(n)
    a = must(Utils.encrypt, d, "pass%d" % n)
    same(must(Utils.decrypt, a, "pass%d" % n), d, "decrypted data of %d bytes" % n)
    for i in sorted({0, n // 4, n // 2, n - 40, n - 16}):
        ensure(d[i:i + 16] not in a, "the output for %d bytes shows the data from byte %d on", n, i)
    m = len(a)
    for i in sorted({0, 20, m // 4, m // 2, m - n // 3, m - 4097, m - 33, m - 2, m - 1}):
        x = a[:i] + bytes([a[i] ^ 1]) + a[i + 1:]
        refuses(Utils.decrypt, x, "pass%d" % n, what="decrypting %d bytes with byte %d changed" % (m, i))
        ctx.nt()
    for x in (a[:-1], a + b"\x00", a[: m // 2], a + a[-100:], a[: m // 2] + a[m // 2 + 1:]):
        refuses(Utils.decrypt, x, "pass%d" % n, what="decrypting %d bytes cut or extended" % m)
    refuses(Utils.decrypt, a, "pass", what="decrypting with another password")


CAMPAIGNS = [Enumeration("long", longs, check_long),
             Campaign("passwords", lambda tier: cases(), check, 5000, 250000),
             Enumeration("endurance", endurance.small, endurance.check_passwords),
]
