"""Generators shared by the properties. All of them build plain data."""
import ast
import os

from hypothesis import strategies as st

import env
import refs


# ---------------------------------------------------------------- dictionary
def _constant(n):
    """The value of a literal, or of arithmetic of integer literals (1 << 20, 64 * 1024)."""
    if isinstance(n, ast.Constant):
        return n.value
    if isinstance(n, ast.BinOp):
        a, b = _constant(n.left), _constant(n.right)
        if type(a) is int and type(b) is int and 0 <= b <= 1 << 21 and 0 <= a <= 1 << 21:
            if isinstance(n.op, ast.LShift) and b <= 21:
                return a << b
            if isinstance(n.op, ast.Pow) and b <= 21 and a <= 1100:
                return a ** b
            if isinstance(n.op, ast.Mult):
                return a * b
            if isinstance(n.op, ast.Add):
                return a + b
            if isinstance(n.op, ast.Sub):
                return a - b
    return None


def _literals():
    """Integers and byte strings written in the code under test, as a dictionary
    for the generators: sizes, limits and marks that the code singles out are
    worth trying on every code there is."""
    ints, texts = set(), set()
    top = os.path.join(env.SRC, "pymt")
    for d, dirs, files in os.walk(top):
        dirs[:] = sorted(x for x in dirs if x not in ("tests", "examples", "__pycache__"))
        for f in sorted(files):
            if not f.endswith(".py"):
                continue
            try:
                tree = ast.parse(open(os.path.join(d, f), "rb").read())
            except (SyntaxError, ValueError):
                continue
            for n in ast.walk(tree):
                v = _constant(n)
                if v is None or isinstance(v, bool):
                    continue
                if isinstance(v, int) and 2 <= v <= 1 << 21:
                    ints.add(v)
                elif isinstance(v, (str, bytes)) and 0 < len(v) <= 40:
                    if not any(c in v for c in ((" ", "\n") if isinstance(v, str) else (b" ", b"\n"))):
                        texts.add(v if isinstance(v, bytes) else v.encode(errors="surrogatepass"))
    return sorted(ints), sorted(texts)


MINED_INTS, MINED_BYTES = _literals()
# Lengths of data: powers of two, what the code names, and one off either.
SIZES = sorted({n + d for n in [64, 128, 256, 1024, 4096, 8192, 16384, 65536, 100000]
                + [x for x in MINED_INTS if x <= 1 << 18]
                for d in (-1, 0, 1)} | {70001, 131071})
# Lengths up to two megabytes, for what takes them in no time: powers of two from 4 KiB
# on, what the code names, and one off either.
LONG_SIZES = sorted({n + d for n in [1 << i for i in range(12, 21)] + [x for x in MINED_INTS if x >= 4096]
                     for d in (-1, 0, 1)} | {3 << 19, (1 << 21) + 5})


def long_data(n, salt=b""):
    """n bytes that repeat nothing over a short distance."""
    body = b"".join(refs.keccak(salt + b"%d" % i) for i in range(8))
    return (b"%d " % n + salt + (body + b"%d" % n) * (n // 256 + 1))[:n]
SMALL_SIZES = [n for n in SIZES if n <= 1100]


def mined_bytes():
    return st.sampled_from(MINED_BYTES or [b"FF"])


@st.composite
def big_bytes(draw, most=1 << 19):
    """A long string with a beginning, a body and an end of its own."""
    n = draw(st.sampled_from([x for x in SIZES if x <= most]))
    head, tail = draw(st.binary(max_size=2)), draw(st.binary(max_size=2))
    body = draw(st.sampled_from([b"\x00", b"x", b"\xff", b"0123456789abcdef7"]))
    s = (head + body * n)[:max(0, n - len(tail))] + tail
    return s[:n]


# ------------------------------------------------------------------- scale
@st.composite
def scale(draw, most=400, sizes=True):
    """A trie with many keys, long keys, deep paths or big values, described by
    a few numbers; see expand."""
    shape = draw(st.sampled_from(
        ["hashed", "decimal", "nested", "comb", "long", "wide", "big", "tree", "fan"]))
    top = {"nested": 130, "comb": 90, "long": 12, "wide": 256, "big": 6, "tree": 340, "fan": 290}.get(shape, most)
    counts = [n for n in SMALL_SIZES + [17, 40, 100, 200, 300, 400] if 2 <= n <= min(most, top)]
    return {"secure": draw(st.sampled_from([False, False, True])), "shape": shape,
            "n": draw(st.one_of(st.sampled_from(sorted(set(counts)) or [2]), st.integers(2, min(most, top)))),
            "size": draw(st.sampled_from([32, 64, 127, 128, 255, 256, 257, 600, 1024])),
            "vsize": draw(st.sampled_from([1, 3, 28, 31, 32, 33, 40, 60] if shape != "big" or not sizes
                                          else [n for n in SIZES if n >= 1000])),
            "salt": draw(st.integers(0, 255)), "gone": draw(st.sampled_from([0, 0, 2, 3, 7])), "order": draw(st.sampled_from([0, 0, 1, 2]))}


def expand(c):
    """The contents that a scale case stands for."""
    n, salt, shape = c["n"], bytes([c["salt"]]), c["shape"]
    if shape == "hashed" or shape == "big":
        keys = [refs.keccak(salt + b"%d" % i)[: 1 + c["size"] % 32] for i in range(n)]
    elif shape == "decimal":
        keys = [b"%d" % (i * (c["salt"] + 1)) for i in range(n)]
    elif shape == "nested":
        keys = [salt * i for i in range(n)]
    elif shape == "comb":
        keys = [salt * i + bytes([c["salt"] ^ (0x10 if i % 2 else 0x01)]) for i in range(n)]
    elif shape == "long":
        keys = [salt * (c["size"] - 1 - i % 3) + bytes([i]) for i in range(n)]
    elif shape == "wide":
        keys = [salt + bytes([i]) for i in range(n)]
    else:  # every string over a few bytes, up to a length
        over = (0x00, 0x01, 0x10, c["salt"])
        if shape == "fan":  # branches with a value and all their children
            over = [16 * i + c["salt"] % 16 for i in range(16)]
        keys, level = [b""], [b""]
        while len(keys) < n:
            level = [k + bytes([x]) for k in level for x in over]
            keys += level
        keys = keys[:n]
    keys = list(dict.fromkeys(keys))
    if c.get("order") == 1:
        keys.reverse()
    elif c.get("order") == 2:
        keys.sort(key=lambda k: refs.keccak(salt + k))
    vals = [(b"%d/" % i + salt * c["vsize"])[: c["vsize"]] for i in range(len(keys))]
    gone = list(range(1, len(keys), c["gone"])) if c["gone"] else []
    return {"secure": c["secure"], "keys": keys, "vals": vals, "gone": gone}


# ---------------------------------------------------------------------- keys
_TINY = [0x00, 0x01, 0x0F, 0x10, 0x11, 0x12, 0x1F, 0xF0, 0xFF, 0x61]


def tiny_keys(max_size=4):
    return st.lists(st.sampled_from(_TINY), max_size=max_size).map(bytes)


def nibble_keys():
    """Few different nibbles, so that paths share long parts and split at odd
    and even places."""
    return st.lists(
        st.tuples(st.sampled_from([0, 1]), st.sampled_from([0, 1, 15])).map(
            lambda t: t[0] * 16 + t[1]),
        min_size=1, max_size=6).map(bytes)


def family_keys(draw, n):
    """Prefixes and small variations of a few long strings."""
    base = draw(st.binary(min_size=1, max_size=12))
    out = []
    for _ in range(n):
        cut = draw(st.integers(0, len(base)))
        ext = draw(st.one_of(st.just(b""), st.just(b""), tiny_keys(2)))
        flip = draw(st.sampled_from([0, 0, 1, 0x10, 0x80]))
        k = bytearray(base[:cut])
        if k and flip:
            k[-1] ^= flip
        out.append(bytes(k) + ext)
    return out


def long_keys(draw, n):
    """Keys of 31..130 bytes that share a long beginning."""
    size = draw(st.sampled_from([31, 32, 33, 64, 100, 130]))
    fill = draw(st.integers(0, 255))
    out = []
    for _ in range(n):
        k = bytearray([fill] * size)
        for _ in range(draw(st.integers(0, 2))):
            k[draw(st.integers(0, size - 1))] = draw(st.sampled_from(_TINY))
        out.append(bytes(k[: draw(st.sampled_from([size, size, size, size - 1, 30, 1]))]))
    return out


@st.composite
def key_pool(draw, lo=1, hi=8):
    n = draw(st.sampled_from([lo] + list(range(min(max(lo, 3), hi), hi + 1)) * 2))
    regime = draw(st.sampled_from(
        ["tiny", "tiny", "nibble", "family", "family", "binary", "long", "nested", "mixed", "words"] * 3
        + ["mined", "digests"] + (["fan", "fan"] if hi >= 8 else [])))
    if regime == "tiny":
        ks = [draw(tiny_keys()) for _ in range(n)]
    elif regime == "nibble":
        ks = [draw(nibble_keys()) for _ in range(n)]
    elif regime == "family":
        ks = family_keys(draw, n)
    elif regime == "binary":
        ks = [draw(st.binary(max_size=8)) for _ in range(n)]
    elif regime == "long":
        ks = long_keys(draw, n)
    elif regime == "digests":  # keys and what a secure trie makes of them
        ks = [draw(tiny_keys()) for _ in range((n + 1) // 2)]
        ks += [refs.keccak(k) for k in ks]
        ks = draw(st.permutations(ks))[:n]
    elif regime == "fan":  # a branch with (nearly) all of its children, and its value
        base, low = draw(st.binary(max_size=3)), draw(st.integers(0, 15))
        ends = draw(st.sampled_from([16, 16, 16, 15, 14]))
        ext = draw(st.sampled_from([b"", b"", b"\x00", b"tail"]))
        ks = [base + bytes([16 * ((i + low) % 16) + low]) + ext for i in range(ends)]
        ks.insert(draw(st.integers(0, len(ks))), base)
    elif regime == "mined":
        ks = [draw(mined_bytes()) + draw(st.sampled_from([b"", b"", b"\x00", b"1"])) for _ in range(n)]
    elif regime == "nested":
        c = draw(st.sampled_from([b"\x00", b"a", b"\xff"]))
        step = draw(st.sampled_from([1, 1, 2, 5]))
        ks = [c * (i * step) for i in range(n)]
    elif regime == "words":
        ks = [draw(st.sampled_from([b"do", b"dog", b"doge", b"horse", b"dogglesworth", b"d", b"",
                                    b"house", b"wolf", b"bear", b"dogs", b"e", b"doe", b"hat"]))
              for _ in range(n)]
    else:
        ks = family_keys(draw, (n + 1) // 2) + [draw(tiny_keys(3)) for _ in range(n // 2)]
    seen = []
    for k in ks:
        if k not in seen:
            seen.append(k)
    return seen


def near(k):
    """Keys that share most of their path with k."""
    out = [k + b"\x00", k + b"\x01", k + b"\x10", k + b"\xff"]
    if k:
        out += [k[:-1], k[:-1] + bytes([k[-1] ^ 0x01]), k[:-1] + bytes([k[-1] ^ 0x10]),
                k[:-1] + bytes([k[-1] & 0xF0]), k[: len(k) // 2], k + k[-1:]]
        out.append(bytes([k[0] ^ 0x10]) + k[1:])
    return out


def probes(contents, pool, limit=40):
    """Keys worth asking for: the pool, near misses of what is stored, the empty
    key. Ordered and limited without any choice of its own."""
    out = list(dict.fromkeys(list(pool) + [b""]))
    more = [refs.keccak(k) for k in list(contents)[:2]]
    for k in list(contents):
        more += near(k)
    for k in dict.fromkeys(more):
        if k not in out:
            out.append(k)
    return out[:limit] if limit else out


# -------------------------------------------------------------------- values
SPECIAL_VALUES = [
    b"null", b"\x00", b"\x80", b"\xc0", b"\x01", b"1", b"\x20", b"FF",
    refs.EMPTY_ROOT, refs.keccak(b""), b"\x00" * 32,
    refs.rlp([b"\x20", b"x"]), refs.rlp([b"\x20", b"x" * 40]), refs.rlp([b""] * 17),
    refs.rlp([b"\x00\x12", b"\x11" * 32]), refs.rlp(b""), refs.rlp([b"a", [b"b"]]),
]


@st.composite
def sized_value(draw):
    size = draw(st.sampled_from(
        [1, 2, 3, 10, 20, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 54, 55, 56, 57,
         100, 255, 256, 257, 1000]))
    head = draw(st.binary(min_size=1, max_size=2))
    return (head + b"\xab" * size)[:size]


def values():
    """Non-empty values around all the lengths at which the encoding changes."""
    return st.one_of(
        st.binary(min_size=1, max_size=3),
        st.binary(min_size=1, max_size=3),
        sized_value(),
        sized_value(),
        st.binary(min_size=1, max_size=60),
        st.sampled_from(SPECIAL_VALUES),
        st.sampled_from([0] * 14 + [1, 2, 3]).flatmap(
            lambda n: [st.binary(min_size=1, max_size=5), mined_bytes(),
                       mined_bytes().map(lambda b: b + b), big_bytes(70001)][n]).map(lambda b: b or b"0"),
    )


def value_choice(draw):
    """Most cases mix values of all kinds; some have only values that mean
    something elsewhere, or only short ones, so that these meet every place in
    the trie."""
    return draw(st.sampled_from(
        [values()] * 6 + [st.sampled_from(SPECIAL_VALUES), st.sampled_from(SPECIAL_VALUES[:8]) | mined_bytes(),
                          st.binary(min_size=1, max_size=2)]))


# ----------------------------------------------------------------- histories
@st.composite
def history(draw, max_keys=8, max_ops=24, delete_share=3, kinds=None):
    """{"secure", "keys", "ops"}; an op is ["u", key index, value] or
    ["d", key index] (of a key that may or may not be there), with further kinds
    (name -> strategy of arguments) as asked for."""
    secure = draw(st.sampled_from([False, False, False, True]))
    keys = draw(key_pool(1, max_keys))
    ki = st.integers(0, len(keys) - 1)
    vs = value_choice(draw)
    op = [st.tuples(st.just("u"), ki, vs)] * 4
    op += [st.tuples(st.just("d"), ki)] * delete_share
    for name, args in (kinds or {}).items():
        op.append(st.tuples(st.just(name), ki, *args))
    size = draw(st.sampled_from(["m", "m", "l", "s"]))
    lo, hi = {"s": (0, 4), "m": (3, max(4, max_ops // 2)), "l": (max_ops // 2, max_ops)}[size]
    ops = []
    if draw(st.sampled_from([1, 1, 0])):  # start from all keys
        ops = [("u", i, draw(vs)) for i in range(len(keys))]
    ops += draw(st.lists(st.one_of(*op), min_size=lo, max_size=hi))
    return {"secure": secure, "keys": keys, "ops": [list(o) for o in ops]}


@st.composite
def contents(draw, lo=1, hi=10):
    """{"secure", "keys", "vals", "gone"}: contents of a trie plus keys that
    were inserted and deleted again on the way there."""
    keys = draw(key_pool(lo, hi))
    secure = draw(st.sampled_from([False, False, False, True]))
    same = draw(st.sampled_from([0, 0, 1]))
    if same:  # equal values give equal subtrees
        v = draw(values())
        vals = [v for _ in keys]
    else:
        vs = value_choice(draw)
        vals = [draw(vs) for _ in keys]
    gone = draw(st.lists(st.integers(0, len(keys) - 1), max_size=max(0, len(keys) - 1), unique=True)) \
        if draw(st.sampled_from([0, 0, 1])) else []
    return {"secure": secure, "keys": keys, "vals": vals, "gone": gone}


def build(MPT, c, storage=None):
    """The trie of some contents, and the contents as a dictionary."""
    t = MPT({} if storage is None else storage, secure=c["secure"])
    model = {}
    for k, v in zip(c["keys"], c["vals"]):
        t.update(k, v)
        model[k] = v
    for i in c["gone"]:
        t.delete(c["keys"][i])
        del model[c["keys"][i]]
    return t, model


def inner(model, secure):
    """Contents with the keys as they are in the trie."""
    return {refs.keccak(k): v for k, v in model.items()} if secure else dict(model)


# ------------------------------------------------------- small complete scopes
UNIVERSE = [b"", b"\x00", b"\x01", b"\x10", b"\x00\x00", b"\x00\x01", b"\x00\x10",
            b"\x01\x00", b"\x00\x00\x00"]


def small_contents(universe=UNIVERSE, most=3, vals=(b"v", b"w" * 33)):
    """Every subset of the universe up to a size, with every choice of a short
    or long value pattern."""
    from itertools import combinations

    for n in range(1, most + 1):
        for ks in combinations(range(len(universe)), n):
            for pat in range(1 << n):
                yield {"secure": False, "gone": [],
                       "keys": [universe[i] for i in ks],
                       "vals": [vals[(pat >> j) & 1] + bytes([65 + j]) for j in range(n)]}
