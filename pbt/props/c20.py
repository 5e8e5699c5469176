"""C20: nibble paths obey sequence semantics."""
from itertools import product

from hypothesis import strategies as st

import gens
import refs
from engine import Campaign, Enumeration
from lib import ensure, must, same
from pymt.utils.nibble_path import NibblePath

RULE = (
    "Sequences of operations on a pool of paths, each held next to the tuple of its nibbles: making one at "
    "an offset, combining, common prefix, consuming, encoding and decoding as leaf or extension. After each "
    "step every path of the pool still has the nibbles of its tuple, and comparison, prefix test, indexing, "
    "length, encoding and printing agree with it. All pairs of paths of up to two bytes over the nibbles "
    "0, 1, 15 at every offset are enumerated, and so are long paths (up to 600 bytes in the quick tier) that differ "
    "in one nibble. A path consumed in steps is asked everything again after each, with paths that share as much "
    "with it as the one before. Non-trivial: an operation on two paths that share a nibble."
)
ASSUMPTIONS = []


def view(p):
    return tuple(must(p.at, i) for i in range(len(p)))


def encodings(p, n, what):
    for leaf in (False, True):
        e = must(p.encode, leaf)
        same(bytes(e), refs.hp(n, leaf), "encode(%s) of %s" % (leaf, what))
        q, kind = must(NibblePath.decode_with_type, e)
        same((view(q), bool(kind)), (n, leaf), "decoding of the encoding of " + what)
        same(view(must(NibblePath.decode, e)), n, "decode without type of " + what)
        ensure(q == p and p == q, "decoded and original %s are not equal", what)
    same(bytes(must(p.encode)), refs.hp(n, False), "encode() of " + what)


def prefix_len(a, b):
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    return i


def pair(p, a, q, b):
    what = "%r and %r" % (a, b)
    same(must(lambda: p == q), a == b, "equality of " + what)
    same(must(lambda: p != q), a != b, "inequality of " + what)
    same(must(p.starts_with, q), a[: len(b)] == b, "prefix test of " + what)
    c = must(p.common_prefix, q)
    same(view(c), a[: prefix_len(a, b)], "common prefix of " + what)
    j = must(p.combine, q)
    same(view(j), a + b, "combination of " + what)
    same(len(j), len(a) + len(b), "length of the combination of " + what)
    return c, j


@st.composite
def cases(draw):
    base = draw(st.binary(max_size=5))
    data = st.one_of(st.binary(max_size=4), st.integers(0, len(base)).map(lambda n: base[:n]),
                     st.binary(max_size=2).map(lambda x: base + x),
                     st.integers(0, 40).map(lambda n: b"\x11" * n))
    i = st.integers(0, 30)
    op = st.one_of(
        st.tuples(st.just("new"), data, i), st.tuples(st.just("new"), data, i),
        st.tuples(st.just("combine"), i, i), st.tuples(st.just("common"), i, i),
        st.tuples(st.just("consume"), i, i), st.tuples(st.just("decode"), i, i),
        st.tuples(st.just("print"), i, i))
    first = [["new", draw(data), draw(i)] for _ in range(3)]
    return {"array": draw(st.booleans()),
            "ops": first + [list(o) for o in draw(st.lists(op, min_size=draw(st.sampled_from([2, 6])), max_size=12))]}


def check(case, ctx):
    pool = []  # (path, nibbles)
    for step, (op, a, b) in enumerate(case["ops"]):
        what = "at step %d (%s)" % (step, op)
        if op == "new":
            off = b % (2 * len(a) + 1)
            if a and b % 3 == 0:
                off = b % 3 if b % 2 else 1
            p = NibblePath(bytearray(a) if case["array"] else a, off) if off or b % 2 else NibblePath(a)
            pool.append([p, refs.nibbles(a)[off:]])
            encodings(p, pool[-1][1], "a new path")
        else:
            x = pool[a % len(pool)]
            y = pool[b % len(pool)]
            if op == "combine":
                pool.append([must(x[0].combine, y[0]), x[1] + y[1]])
            elif op == "common":
                pool.append([must(x[0].common_prefix, y[0]), x[1][: prefix_len(x[1], y[1])]])
            elif op == "consume":
                n = b % (len(x[1]) + 1)
                r = must(x[0].consume, n)
                x[1] = x[1][n:]
                same(view(r), x[1], "what consuming gives " + what)
            elif op == "decode":
                leaf = b % 2 == 0
                e = must(x[0].encode, leaf)
                q, kind = must(NibblePath.decode_with_type, e)
                same(bool(kind), leaf, "leaf flag " + what)
                pool.append([q, x[1]])
            else:
                for z in (x[0], y[0]):
                    ensure(isinstance(must(repr, z), str) and isinstance(must(str, z), str), "text")
            z = pool[-1]
            pair(x[0], x[1], z[0], z[1])
            c, j = pair(z[0], z[1], y[0], y[1])
            ctx.nt(prefix_len(z[1], y[1]) > 0 and op in ("combine", "common", "consume"))
            encodings(j, z[1] + y[1], "a combination")
            encodings(c, z[1][: prefix_len(z[1], y[1])], "a common prefix")
        ctx.tag(op)
        for p, n in pool:
            same(len(p), len(n), "length " + what)
            same(view(p), n, "nibbles " + what)
    for p, n in pool:
        encodings(p, n, "a path")
        must(repr, p)
        must(str, p)


def short(most=2):
    nib = (0, 1, 15)
    out = []
    for n in range(0, most + 1):
        for ns in product(nib, repeat=2 * n):
            d = bytes(ns[i] * 16 + ns[i + 1] for i in range(0, 2 * n, 2))
            for off in range(2 * n + 1):
                out.append((d, off))
    return out


def pair_cases(tier):
    for i in range(len(short())):
        yield {"i": i}


def check_pairs(case, ctx):
    every = short()
    d, off = every[case["i"]]
    a = refs.nibbles(d)[off:]
    p = NibblePath(d, off)
    ctx.nt(len(a) > 0)
    encodings(p, a, repr(a))
    for n in range(len(a) + 1):
        q = NibblePath(d, off)
        same(view(must(q.consume, n)), a[n:], "consuming %d of %r" % (n, a))
        encodings(q, a[n:], "what is left")
    for e, o in every:
        b = refs.nibbles(e)[o:]
        q = NibblePath(e, o)
        pair(p, a, q, b)
        same(view(q), b, "the second path")
        ctx.count("pairs")
    same(view(p), a, "the first path")


def long_cases(tier):
    for n in gens.SMALL_SIZES:
        if n <= (600 if tier == "quick" else 1100):
            for off in (0, 1, 2, n - 1, n):
                yield {"n": n, "off": off}


def check_long(case, ctx):
    """Long paths that differ in one nibble only, if at all."""
    n, off = case["n"], case["off"]
    d = bytes((7 * i + n) % 256 for i in range(n))
    a = refs.nibbles(d)[off:]
    p = NibblePath(d, off)
    ctx.nt()
    for at in sorted({0, 1, 31, 62, 63, 64, 65, 127, 128, 255, 256, len(a) // 2, len(a) - 2, len(a) - 1}):
        if not 0 <= at < len(a):
            continue
        i = at + off
        e = bytearray(d)
        e[i // 2] ^= 0x01 if i % 2 else 0x10
        e = bytes(e)
        q = NibblePath(e, off)
        what = "paths of %d nibbles that differ in nibble %d" % (len(a), at)
        same(p == q, False, "equality of " + what)
        same(must(q.starts_with, p), False, "prefix test of " + what)
        same(view(must(p.common_prefix, q)), a[:at], "common prefix of " + what)
        same(view(must(q.common_prefix, p)), a[:at], "common prefix, turned round, of " + what)
        same(must(p.starts_with, must(p.common_prefix, q)), True, "prefix test with the common prefix of " + what)
    pair(p, a, NibblePath(d, off), a)
    encodings(p, a, "a long path")
    cut = len(a) // 2
    half = must(NibblePath(d, off).consume, cut)
    same(view(half), a[cut:], "a long path cut in half")
    pair(half, a[cut:], p, a)


# ------------------------------------------------- one path asked again and again
@st.composite
def again_cases(draw):
    n = draw(st.sampled_from([1, 2, 3, 5, 8, 16, 33, 60]))
    same = draw(st.booleans())  # many equal nibbles, or few
    data = draw(st.binary(min_size=n, max_size=n)) if not same else bytes(
        draw(st.lists(st.sampled_from([0, 1, 16, 17]), min_size=n, max_size=n)))
    m = st.integers(0, 2 * n)
    few = draw(st.lists(m, min_size=1, max_size=2))
    step = st.tuples(st.sampled_from([0, 0, 1, 1, 2, 3]), st.sampled_from(few + [0, 1]), st.integers(1, 15))
    return {"data": data, "off": draw(st.sampled_from([0, 0, 1, 2])),
            "steps": [list(x) for x in draw(st.lists(step, min_size=2, max_size=8))]}


def path_of(ns):
    """A path of these nibbles."""
    if len(ns) % 2:
        return NibblePath(bytes([ns[0]]) + bytes(ns[i] * 16 + ns[i + 1] for i in range(1, len(ns), 2)), 1)
    return NibblePath(bytes(ns[i] * 16 + ns[i + 1] for i in range(0, len(ns), 2)))


def check_again(case, ctx):
    """A path is consumed bit by bit and asked all questions, each time with
    paths that share a first part of the same length with it as before."""
    ns = refs.nibbles(case["data"])[case["off"]:]
    p = NibblePath(case["data"], case["off"])
    ctx.nt(len(case["steps"]) > 2)
    for step, (n, m, d) in enumerate(case["steps"]):
        n = min(n, len(ns))
        must(p.consume, n)
        ns = ns[n:]
        m = min(m, len(ns))
        other = ns[:m] + (((ns[m] + d) % 16,) if m < len(ns) else (d % 16,)) + ns[m + 1:]
        q = path_of(other)
        same(view(q), other, "the other path")
        same(view(must(p.common_prefix, q)), ns[:m], "common prefix at step %d" % step)
        same(view(must(q.common_prefix, p)), ns[:m], "common prefix, turned round, at step %d" % step)
        same(must(p.starts_with, path_of(ns[:m])), True, "prefix test at step %d" % step)
        same(must(p.starts_with, path_of(other[:m + 1])), False, "prefix test with another path at step %d" % step)
        pair(p, ns, q, other)
        pair(q, other, p, ns)
        encodings(p, ns, "the path at step %d" % step)
        same(view(p), ns, "the path after step %d" % step)
        must(str, p), must(repr, p)


CAMPAIGNS = [
    Campaign("sequences", lambda tier: cases(), check, 6000, 300000),
    Enumeration("pairs", pair_cases, check_pairs),
    Enumeration("long", long_cases, check_long),
    Campaign("again", lambda tier: again_cases(), check_again, 1500, 80000),
]
